"""Writes MANIFEST.json from one table (claimed properties, method, level)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GR = "grammar extraction by abstract interpretation of the MIR, compared with a reference PDDL 3.1 grammar"
T = {
 "C01": ("MIR value-flow: every panic site reachable from a parser discharged by path facts or a shortest text driving that path is constructed from the extracted grammar", "proof", "All panic-capable operations on all extracted parser paths; an operation is reported only with a text that the extracted grammar model takes to it."),
 "C02": ("progress and recursion analysis over the extracted grammar and the call graph", "proof", "Every repetition consumes; every grammar cycle consumes an opening parenthesis; no native recursion grows with text length."),
 "C03": (GR + " (normal-form equality; disagreements confirmed by a distinguishing text)", "proof", "Equality of normal forms is a proof relative to the nom/std models. Where normal forms differ in shape, distinguishing texts are searched in both grammar models up to a length bound; no text found means undecided, not violated."),
 "C04": (GR + " (result terms observed through accessors)", "proof", "As C03, for the value carried by each production."),
 "C05": (GR + " (ordered choice, negative events)", "proof", "As C03, for inputs that match several alternatives."),
 "C06": ("layout languages of every token gap of the extracted grammar vs. required layout words", "proof", "Each gap's language is compared on all layout words up to a bound that covers its automaton; see DESIGN.md."),
 "C07": ("character-class automata of name, variable, number and type tokens extracted from the MIR", "proof", "Token recognisers are compared with the reference automata; type/variable/name splits on all words up to a bound over class representatives."),
 "C08": (GR + " (typed-list grouping)", "proof", "As C03, for typed lists and types."),
 "C09": ("value-flow summaries of the trait entry points", "proof", "Every Parser impl and every default method is the same parser applied to the whole input."),
 "C10": ("error-kind analysis on all extracted parser paths", "proof", "All failing paths of all parsers; failures are reported with a text that reaches them."),
 "C11": ("abstract interpretation of the MIR of the keyword tables: text constants, Display/FromStr/Deref/parser tables evaluated per variant and compared with PDDL's spellings", "proof", "Every variant of every keyword enum, every path of each table."),
 "C12": ("abstract interpretation of the requirement predicates, evaluated for every requirement and expansion", "proof", "The finite requirement lattice is enumerated completely from the extracted tables."),
 "C13": ("abstract interpretation of the name constructors over an arbitrary interning table; value-flow of the reported text, equality and hashing", "proof", "All paths of all constructors, both interning configurations; differences are reported with concrete texts."),
 "C14": ("lock-guard dataflow over the MIR: what runs, what can panic and what is left half-done while the interning lock is held", "proof", "All call paths holding the guard, drop and unwind paths included."),
 "C15": ("abstract interpretation of the number functions over the representable boundary values, plus form comparison", "proof", "Equality/ordering/hash laws on all pairs of a boundary set that covers every path condition; both debug and release overflow behaviour."),
 "C16": ("abstract interpretation of constructors, builders and accessors; comparison with a reviewed contract", "proof", "Every path of every exported function of the value types; compared by form, or on generated argument lists when forms differ."),
 "C17": ("abstract interpretation of conversions, collections and iterators; comparison with a reviewed contract", "proof", "As C16, for conversions and collection methods over sequences of any length (symbolic repetition)."),
 "C18": ("abstract interpretation of the emptiness tests by structural induction over the type definitions", "proof", "One step per variant of every type with an emptiness test."),
 "C19": ("abstract interpretation of the MIR of every equality, hash, order and clone impl; the compared parts are matched with the publicly visible parts of the type", "proof", "Every path of every impl; a part is reported only when it is visible through a public field, variant or accessor."),
 "C20": ("effect analysis over the crate-wide call graph: foreign callees, statics, thread-locals and input/output reachable from any public function", "proof", "Every body of the crate, debug and release."),
 "C21": ("type-checking of every feature combination and comparison of the exported items, impls and function summaries between them", "proof", "All feature subsets are compiled to MIR; the API surface is compared item by item."),
 "C22": ("type-level analysis: lifetimes, auto traits, interior mutability and unsafe blocks of every public type", "proof", "Every public type, field types followed to the leaves."),
 "C24": ("abstract interpretation of the blanket acceptors with an opaque visitor", "proof", "Every path of both acceptors."),
 "C23": ("overlap analysis of ordered alternatives of the extracted grammar", "proof", "For each element, nested occurrences read by a failing alternative are aligned with those read by later alternatives."),
}
NA = {}
PENDING = "check under construction"
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in T:
        t, lv, note = T[p]
        checks.append({"property": p, "quick_cmd": "python3 analyzer/check.py %s --tier quick" % p, "thorough_cmd": "python3 analyzer/check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": "static analysis: " + t, "level": lv, "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, PENDING)})
json.dump({"version": 1, "setup_cmd": "python3 analyzer/dump.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
