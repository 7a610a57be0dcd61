"""C11 (keyword tables) and C12 (requirement expansion)."""
import re

import ai
import absstd
import spec
import texts
from api import Api, NoSummary, txt

LEVEL = {"C11": "proof", "C12": "proof"}

SPELL = {
    "BinaryComp": {"GreaterThan": ">", "LessThan": "<", "Equal": "=", "GreaterOrEqual": ">=", "LessThanOrEqual": "<="},
    "BinaryOp": {"Multiplication": "*", "Addition": "+", "Subtraction": "-", "Division": "/"},
    "MultiOp": {"Multiplication": "*", "Addition": "+"},
    "AssignOp": {"Assign": "assign", "ScaleUp": "scale-up", "ScaleDown": "scale-down", "Increase": "increase", "Decrease": "decrease"},
    "AssignOpT": {"Increase": "increase", "Decrease": "decrease"},
    "DOp": {"LessThanOrEqual": "<=", "GreaterOrEqual": ">=", "Equal": "="},
    "Interval": {"All": "all"},
    "TimeSpecifier": {"Start": "start", "End": "end"},
    "Optimization": {"Minimize": "minimize", "Maximize": "maximize"},
    "Requirement": {v: ":" + k for k, v in spec.REQUIREMENTS},
}
ALIAS = {"AssignOp": {"change": "Assign"}}


def api(ctx):
    if getattr(ctx, "_api", None) is None:
        ctx._api = Api(ctx.F)
    return ctx._api


def own_fns(F, e):
    """functions and trait methods of one enumeration, outside the parsers: (trait or None, its argument, name) -> fn"""
    out = {}
    for f in F.fns:
        p = f["path"]
        if f.get("inst") is None or "parsers::" in p or F.bodies[f["inst"]].get("derived"):
            continue
        m = re.match(r"<(&?)crate::types::\w+::%s as ([\w:]+?)(?:<(.*)>)?>::(\w+)$" % e, p)
        if m:
            out[(m.group(2).split("::")[-1], (m.group(1) or "") + "/" + (m.group(3) or "").split("::")[-1], m.group(4))] = f
            continue
        m = re.match(r"crate::types::\w+::%s::(\w+)$" % e, p)
        if m:
            out[(None, "", m.group(1))] = f
    return out


def const(F, e, v):
    ad = [a for p, a in F.adts.items() if p.startswith("crate::") and p.endswith("::" + e)]
    if not ad:
        return None
    for i, x in enumerate(ad[0]["variants"]):
        if x["name"] == v:
            return ("A", ad[0]["path"], i, ())
    return None


def pass_as(F, t, v):
    """value v handed over for a parameter of type t (through as many references)"""
    k = F.tys[t]
    if k["k"] == "ref":
        return ("R", ("val", pass_as(F, k["e"], v)), ())
    return v


def run_on(A, f, vals):
    """outcomes on (partly) concrete arguments: [(conditions, tree)]"""

    def args(I, st, a):
        out = list(a)
        for i, v in vals.items():
            out[i] = pass_as(A.F, f["inputs"][i], v)
        return out

    return A.summary(f, args)


def one(outs):
    if len(outs) == 1 and not outs[0][0]:
        return outs[0][1]
    return None


def display(A, F, f, v):
    """text a Display implementation writes for a concrete value, None when not determined"""
    I = A.interp()
    st = ai.St()
    outs = absstd.run_fmt(I, f["inst"], pass_as(F, f["inputs"][0], v), st)
    ts = set()
    for ps, s in outs:
        ps = absstd.merge_lits(ps)
        if all(p[0] == "lit" and isinstance(p[1], str) for p in ps):
            ts.add("".join(p[1] for p in ps))
        else:
            return None
    return ts.pop() if len(ts) == 1 else None


def variants_of(F, e):
    ad = [a for p, a in F.adts.items() if p.startswith("crate::") and p.endswith("::" + e)]
    return [x["name"] for x in ad[0]["variants"]] if ad else None


def probes(e, more=(), chars=()):
    words = set(SPELL[e].values()) | set(ALIAS.get(e, {})) | set(more)
    out = {"", " ", "x", ":"}
    for o in SPELL:
        out |= set(SPELL[o].values())
    out |= set(texts.around(sorted(words), sorted(chars)))
    return sorted(out)


def file_consts(F, f):
    """strings and characters mentioned in the file of a function"""
    file = str(f["span"]).split(":")[0]
    return texts.consts(F, file)


def C11(ctx, rep):
    A, F = api(ctx), ctx.F
    for e, table in SPELL.items():
        vs = variants_of(F, e)
        if vs is None:
            rep.undecided(e, "no such enumeration")
            continue
        if set(vs) != set(table):
            rep.undecided(e + " members", "members changed: %s" % sorted(set(vs) ^ set(table)))
        vs = [v for v in vs if v in table]
        fns = own_fns(F, e)
        back = dict((s, v) for v, s in table.items())
        back.update(ALIAS.get(e, {}))
        rep.count("members", len(vs))
        for (tr, arg, name), f in sorted(fns.items(), key=repr):
            rep_one(ctx, rep, A, F, e, table, back, vs, tr, arg, name, f)
        parsing(ctx, rep, e, table, back)
    rep.explanation = ("For each member of the ten keyword enumerations the printing, text and comparison functions are interpreted on that member and must give the reference spelling; the "
                       "conversions from text are interpreted on an arbitrary text, where every path must be decided by equality with the reference spellings; the keyword parsers' productions must be "
                       "exactly those of the reference grammar.")
    rep.assumptions += ["the reference spellings are those of the PDDL 3.1 BNF (p_tables.SPELL)"]


def rep_one(ctx, rep, A, F, e, table, back, vs, tr, arg, name, f):
    what = "%s %s" % (e, tr or name) + ("<%s>" % arg.strip("/") if arg.strip("/") else "")
    if (tr == "Display" and name == "fmt"):
        for v in vs:
            try:
                t = display(A, F, f, const(F, e, v))
            except Exception as x:
                rep.undecided("%s of %s" % (what, v), repr(x))
                continue
            verdict(rep, "%s of %s" % (what, v), t, table[v], f)
    elif tr is None and name == "as_str" or tr in ("AsRef", "Borrow") and arg.strip("/") == "str":
        for v in vs:
            try:
                o = one(run_on(A, f, {0: const(F, e, v)}))
            except Exception as x:
                rep.undecided("%s of %s" % (what, v), repr(x))
                continue
            verdict(rep, "%s of %s" % (what, v), o[1] if o is not None and o[0] == "S" else None, table[v], f)
    elif tr == "TryFrom" and arg.strip("/") in ("&str", "str", "String") or tr == "FromStr":
        from_text(ctx, rep, A, F, e, table, back, what, f)
    elif tr == "PartialEq" and arg.strip("/") in ("&str", "str", "String"):
        for v in vs:
            ob = "%s of %s" % (what, v)
            try:
                o = one(run_on(A, f, {0: const(F, e, v)}))
                if o is not None and o[0] == "streq" and ("S", table[v]) in o[1:] and "a1" in o[1:]:
                    rep.ok(ob, "equal to exactly the text %r" % table[v])
                    continue
                bad = None
                seen = 0
                for w in probes(e, (), file_consts(F, f)[1]):
                    o = one(run_on(A, f, {0: const(F, e, v), 1: ("S", w)}))
                    if o is None or o[0] != "K":
                        continue
                    seen += 1
                    if o[1] != int(w == table[v]):
                        bad = w
                if bad is not None:
                    rep.bad("%s %s" % (ob, bad), "%s compares %s to the text %r" % (ob, "equal" if bad != table[v] else "unequal", bad), f["span"])
                else:
                    rep.undecided(ob, "agrees on %d texts" % seen)
            except Exception as x:
                rep.undecided(ob, repr(x))
    elif tr == "PartialEq":
        for v in vs:
            for w in vs:
                ob = "%s of %s and %s" % (what, v, w)
                try:
                    o = one(run_on(A, f, {0: const(F, e, v), 1: const(F, e, w)}))
                except Exception as x:
                    rep.undecided(ob, repr(x))
                    continue
                verdict(rep, ob, o[1] if o is not None and o[0] == "K" else None, int(v == w), f)


def verdict(rep, ob, got, want, f):
    if got is None:
        rep.undecided(ob, "result not determined")
    elif got != want:
        rep.bad(ob, "%s gives %r, expected %r" % (ob, got, want), f["span"])
    else:
        rep.ok(ob, repr(want))


def outcome(o, e):
    """'Err', or the member inside Ok"""
    if o is None:
        return None
    if o[0] == "Err":
        return "Err"
    if o[0] == "PANIC":
        return "panic"
    if o[0] == "Ok" and isinstance(o[1], tuple) and len(o[1]) == 1 and o[1][0].startswith(e + "::"):
        return o[1][0].split("::")[1]
    return None


def from_text(ctx, rep, A, F, e, table, back, what, f):
    try:
        s = A.summary(f)
    except Exception as x:
        s = None
        why = repr(x)
    exact = s is not None
    words = set()
    if s is not None:
        for cs, o in s:
            for k, x in cs:
                if isinstance(k, tuple) and k[0] == "streq" and "a0" in k[1:] and any(isinstance(y, tuple) and y[0] == "S" for y in k[1:]):
                    words |= {y[1] for y in k[1:] if isinstance(y, tuple) and y[0] == "S"}
                else:
                    exact = False
    if exact:
        # every text is one of the compared words or none of them
        for w in sorted(words | set(back)) + [None]:
            hit = [o for cs, o in s if all((w is not None and ("S", w) in k[1:]) == bool(x) for k, x in cs)]
            got = outcome(hit[0], e) if len(set(map(repr, hit))) == 1 else None
            want = back.get(w, "Err")
            ob = "%s of %s" % (what, "any other text" if w is None else repr(w))
            verdict(rep, ob, got, want, f)
        return
    bad = 0
    seen = 0
    ss, chs, _ = file_consts(F, f)
    for w in probes(e, words | ss, chs):
        try:
            got = outcome(one(run_on(A, f, {0: ("S", w)})), e)
        except Exception as x:
            continue
        if got is None:
            continue
        seen += 1
        if got != back.get(w, "Err"):
            bad += 1
            if bad < 4:
                verdict(rep, "%s of %r" % (what, w), got, back.get(w, "Err"), f)
    if not bad:
        rep.undecided(what, "not a comparison with fixed texts; agrees on %d probed texts" % seen)


def parsing(ctx, rep, e, table, back):
    if not any(f["path"].startswith("crate::parsers") for f in ctx.F.fns):
        return  # a configuration without parsers
    L = ctx.L
    n = 0
    for f in ctx.F.fns:
        if L.G.entries.get(f["path"]) != e or f.get("inst") is None or f.get("trait") or f["path"].startswith("<") or "<impl" in f["path"]:
            continue
        n += 1
        what = "parser of " + e
        try:
            s = L.code(f, e)
            d = L.compare_nf(s.viewed, e)
        except Exception as x:
            rep.undecided(what, repr(x))
            continue
        if d is not None and not d[0] and not d[1] and not s.unks:
            rep.ok(what, "productions are exactly: " + ", ".join("%r => %s" % (w, v) for w, v in sorted(back.items())))
            continue
        m = L.model(s)
        bad = None
        seen = 0
        for w in sorted(set(probes(e)) | set(L.constants(s, e)[0])):
            for tail in ("", " x", ")"):
                r = L.differs(m, e, w + tail)
                seen += 1
                if r:
                    bad = (w + tail, r)
                    break
            if bad:
                break
        if bad:
            rep.bad("%s on %r" % (what, bad[0]), "%s on %r gives %s, expected %s" % (what, bad[0], shortr(bad[1][1]), shortr(bad[1][2])), f["span"])
        else:
            rep.undecided(what, "written differently; agrees on %d texts" % seen)
    if not n:
        rep.undecided("parser of " + e, "not found")


def shortr(r):
    return "rejection" if r is None else "%s after %d characters" % (r[1], r[0])


# ---------------------------------------------------------------- C12
BASIC = [v for k, v in spec.REQUIREMENTS if v not in ("QuantifiedPreconditions", "Fluents", "Adl")]
PARTS = {
    "QuantifiedPreconditions": ["ExistentialPreconditions", "UniversalPreconditions"],
    "Fluents": ["NumericFluents", "ObjectFluents"],
    "Adl": ["Strips", "Typing", "NegativePreconditions", "DisjunctivePreconditions", "Equality", "ExistentialPreconditions", "UniversalPreconditions", "ConditionalEffects"],
}


def contained(a, b):
    """PDDL 3.1: b is a, or part of the composite a (ADL also includes the composite quantified-preconditions)"""
    if a == b:
        return True
    return b in PARTS.get(a, []) or (a == "Adl" and b == "QuantifiedPreconditions")


def C12(ctx, rep):
    A, F = api(ctx), ctx.F
    fns = own_fns(F, "Requirement")
    vs = [v for v in variants_of(F, "Requirement") or [] if v in SPELL["Requirement"]]
    c, x = fns.get((None, "", "contains")), fns.get((None, "", "expand"))
    if c is None:
        rep.undecided("contains", "not found")
    else:
        for v in vs:
            for w in vs:
                ob = "contains %s %s" % (v, w)
                rep.count("pairs")
                try:
                    o = one(run_on(A, c, {0: const(F, "Requirement", v), 1: const(F, "Requirement", w)}))
                except Exception as e:
                    rep.undecided(ob, repr(e))
                    continue
                if o is None or o[0] != "K":
                    rep.undecided(ob, "result not determined" if o is None else txt(o))
                elif bool(o[1]) != contained(v, w):
                    rep.bad("contains_%s_%s" % (v, w), "%s.contains(%s) is %s, by the PDDL 3.1 definitions it is %s" % (v, w, bool(o[1]), contained(v, w)), c["span"])
                else:
                    rep.ok(ob, str(bool(o[1])))
    exp = {}
    if x is None:
        rep.undecided("expand", "not found")
    else:
        for v in vs:
            ob = "expand " + v
            try:
                o = one(run_on(A, x, {0: const(F, "Requirement", v)}))
            except Exception as e:
                rep.undecided(ob, repr(e))
                continue
            l = members(o)
            if l is None:
                rep.undecided(ob, "result not determined")
                continue
            exp[v] = l
            want = PARTS.get(v, [v])
            if sorted(l) != sorted(want):
                rep.bad("expand_" + v, "%s expands to %s, by the PDDL 3.1 definitions to %s" % (v, l, want), x["span"])
            else:
                rep.ok(ob, ", ".join(l))
    effective(ctx, rep, A, F, vs)
    rep.explanation = ("contains is interpreted on all pairs of requirements and expand on all requirements, and compared with the PDDL 3.1 definitions; the effective list is interpreted on the empty list, "
                       "on every list of one and two requirements, on sampled longer ones and on one symbolic list of any length.")
    rep.assumptions += ["the definitions of the composite requirements are those of the PDDL 3.1 BNF (p_tables.PARTS)"]


def members(o):
    if o is None or o[0] != "L":
        return None
    out = []
    for p in o[1]:
        if isinstance(p, tuple) and len(p) == 1 and isinstance(p[0], str) and p[0].startswith("Requirement::"):
            out.append(p[0].split("::")[1])
        else:
            return None
    return out


def effective(ctx, rep, A, F, vs):
    f = own_fns(F, "Requirements").get((None, "", "to_effective"))
    if f is None:
        rep.undecided("effective list", "not found")
        return
    ad = [a for p, a in F.adts.items() if p.startswith("crate::") and p.endswith("::Requirements")]
    if not ad or len(ad[0]["variants"][0]["fields"]) != 1:
        rep.undecided("effective list", "not a plain list any more")
        return

    def wrap(l):
        return ("A", ad[0]["path"], 0, (("L", tuple(("e", const(F, "Requirement", v)) for v in l)),))

    lists = [[]] + [[v] for v in vs] + [[v, w] for v in vs for w in vs]
    import random

    r = random.Random(3)
    lists += [[r.choice(vs) for _ in range(n)] for n in (3, 3, 4, 5, 6, 8, 12) for _ in range(20 if ctx.thorough else 4)]
    lists += [list(vs), list(reversed(vs))]
    bad = und = good = 0
    isset = "Set" in F.tstr(f["output"])
    for l in lists:
        want = sorted({b for v in l for b in PARTS.get(v, [v])}) if l else ["Strips"]
        try:
            o = one(run_on(A, f, {0: wrap(l)}))
            if o is not None and o[0] == "Requirements":
                o = o[1]
            got = members(o)
        except Exception as e:
            got, o = None, repr(e)
        if got is None:
            und += 1
            if und == 1:
                rep.undecided("effective list of " + repr(l), "result not determined: %s" % (txt(o) if isinstance(o, tuple) else o,))
            continue
        if sorted(set(got) if isset else got) != want:
            bad += 1
            if bad <= 3:
                rep.bad("effective_" + "_".join(l), "the effective list of %s is %s, expected (in any order, each once) %s" % (l, got, want), f["span"])
        else:
            good += 1
    rep.count("requirement_lists", len(lists))
    if good:
        rep.ok("effective list of %d lists" % good, "union of the expansions without duplicates; [] gives Strips")
    # any number of requirements: a symbolic list
    ob = "effective list of any list"
    try:
        s = A.summary(f)
    except Exception as e:
        rep.undecided(ob, repr(e))
        return
    import ev

    for cs, o in s:
        empty = any(k[0] == "lenhi" and x == 0 for k, x in cs)
        ps = o[1] if isinstance(o, tuple) and o and o[0] == "L" else o[1][1] if isinstance(o, tuple) and len(o) == 2 and isinstance(o[1], tuple) and o[1][:1] == ("L",) else None
        if ps is None or any(k[0] not in ("lenlo", "lenhi") for k, x in cs):
            rep.undecided(ob, "form not recognised")
            return
        rest = [p for p in ps if not (isinstance(p, tuple) and p and p[0] == "each")]
        loops = [p for p in ps if isinstance(p, tuple) and p and p[0] == "each"]
        if len(loops) != 1 or rest != ([("Requirement::Strips",)] if empty else []):
            rep.undecided(ob, "form not recognised")
            return
        for v in vs:
            try:
                r = ev.Env([("W", "Requirements", (("*", ("L", (("V", "Requirement::" + v, ()),))),))]).parts(tuple(loops))
                if sorted(x[1].split("::")[1] for x in r) != sorted(PARTS.get(v, [v])):
                    raise ValueError("part for %s" % v)
            except Exception as e:
                rep.undecided(ob, repr(e))
                return
    if not isset:
        rep.undecided(ob, "result is not a set")
        return
    rep.ok(ob, "one loop over all requirements, each adding exactly its expansion to a set; the empty list gives Strips")
