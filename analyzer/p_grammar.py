"""C01-C10, C23: properties of the parsers, decided on the productions extracted from the MIR."""
import multiprocessing as mp
import time
import ai, absnom, gen, nf, spec
from grammar import show_chain, short
from lex import Opaque

LEVEL = {"C01": "proof", "C02": "proof", "C03": "proof", "C04": "proof", "C05": "proof", "C06": "other", "C07": "other", "C08": "proof", "C09": "proof", "C10": "proof", "C23": "proof"}
TYPED = {"TypedList", "FunctionTypedList"}
COMB = ("typed_list", "function_typed_list", "atomic_formula", "literal")
TOKENS = ("Name", "Variable", "Number", "Type", "PrimitiveType", "FunctionType", "Term", "ActionSymbol", "Predicate", "FunctionSymbol", "PreferenceName", "DurativeActionSymbol", "MetricFExp", "FExp", "FHead", "FExpDa", "FExpT",
          "BasicFunctionTerm", "LengthSpec")


def entries(L):
    """the public parsers: [(key, refkey, function item, summary)]"""
    out = []
    for k in sorted(L.G.free):
        if k == "()":
            continue
        for f in L.G.free[k]:
            out.append((k, f))
    return out


def combinators(L):
    out = []
    for f in L.F.fns:
        if f["kind"] == "Fn" and f["exported"] and f["path"].startswith("crate::parsers::") and f["name"] in COMB and f.get("inst") is not None:
            out.append((f["name"], f))
    return out


def where(f):
    return "%s (%s)" % (f["span"], f["name"])


class Scan:
    """summaries of all public parsers, their normal forms and those of the reference"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.L = L = ctx.L
        self.items = []  # dict(key, ref, f, s, nf)
        self.unmatched = []
        for k, f in entries(L):
            s = L.code(f, k)
            if k not in L.refprods:
                self.unmatched.append((k, f))
                continue
            self.items.append(dict(key=k, ref=k, f=f, s=s))
        for n, f in combinators(L):
            s = L.G.summarize_combinator(f)
            if not hasattr(s, "viewed"):
                s.viewed = L.prods(s)
            self.items.append(dict(key="$" + n, ref="$" + n, f=f, s=s))
        for it in self.items:
            s = it["s"]
            it["sure"] = not s.unks and all(v is not None for c, v, fa in s.viewed) and (bool(s.viewed))
            it["cmp"] = L.compare_nf(s.viewed, it["ref"]) if it["sure"] else None
            it["equal"] = bool(it["cmp"] is not None and not it["cmp"][0] and not it["cmp"][1])

    def run(self, jobs, fn, workers=8):
        """fork: jobs are indices and words, the analysis state is inherited"""
        global _SCAN
        _SCAN = self
        if not jobs:
            return []
        with mp.get_context("fork").Pool(min(workers, max(1, len(jobs)))) as p:
            return p.map(fn, jobs, 1)


_SCAN = None


def strip(o):
    """what can cross the process boundary"""
    return dict(kind=o["kind"], edit=o["edit"], text=o["text"], code=o["code"], ref=o["ref"], shadow=o.get("shadow", False))


def search_job(job):
    i, budget, deep = job
    it = _SCAN.items[i]
    L = _SCAN.L
    t0 = time.time()
    try:
        o, n, q = [], 0, 0
        if it["s"].viewed and not it["s"].unks:
            o, n, q = L.search(it["f"], it["key"], it["ref"], budget=budget, deep=deep, s=it["s"], limit=12, cmp=it["cmp"])
        if not o and not it["equal"] and not it["key"].startswith("$"):
            o, n2, q2 = L.search_rounds(it["f"], it["key"], it["ref"], budget=budget, limit=12)
            n, q = n + n2, q + q2
    except (Opaque, RecursionError, ai.Budget) as e:
        return i, [], 0, 1, str(e)
    for x in o:
        x["shadow"] = shadowed(x)
    return i, [strip(x) for x in o], n, q, ""


def shadowed(x):
    """another production of the code would have read the text as the reference does"""
    if x["ref"] is None:
        return False
    try:
        pre = getattr(x["text"], "prefix", "")
        alts = x["model"].parse_all("$code", pre + x["text"], len(pre))
        alts = [(a[0] - len(pre),) + tuple(a[1:]) for a in alts]
    except (Opaque, RecursionError):
        return False
    return any(a[0] == x["ref"][0] and a[1] == x["ref"][1] for a in alts)


def scan(ctx):
    if not hasattr(ctx, "_scan"):
        ctx._scan = Scan(ctx)
    return ctx._scan


def differences(ctx, rep, want=None):
    """every element: equal normal forms, or the differences found by reading candidate texts with both"""
    sc = scan(ctx)
    if hasattr(ctx, "_diffs"):
        return ctx._diffs
    todo = []
    for i, it in enumerate(sc.items):
        if want and not want(it):
            continue
        if not it["equal"] or ctx.thorough:
            todo.append(i)
    res = {}
    if todo:
        sc.L.gen
        per = 240.0 if ctx.thorough else max(60.0, 400.0 / (1 + len(todo) / 8))
        for i, o, n, q, err in sc.run([(i, per, ctx.thorough) for i in todo], search_job):
            res[i] = (o, n, q, err)
    ctx._diffs = res
    return res


def show(r):
    if r is None:
        return "rejected"
    return "accepted up to offset %d as %s" % (r[0], show_val(r[1]))


def show_val(v):
    k = v[0]
    if k == "V":
        return v[1] + ("(%s)" % ", ".join(show_val(x) for x in v[2]) if v[2] else "")
    if k == "W":
        if len(v[2]) == 1 and v[2][0][0] == "*":
            return "%s(%s)" % (v[1], show_val(v[2][0][1]))
        return "%s{%s}" % (v[1], ", ".join("%s: %s" % (a, show_val(x)) for a, x in v[2]))
    if k in ("L", "T"):
        return ("[%s]" if k == "L" else "(%s)") % ", ".join(show_val(x) for x in v[1])
    if k == "Nm" or k == "S":
        return repr(v[1])
    return str(v[1])


def value_diff(a, b, path=()):
    """where two values differ: path of accessors"""
    if a == b:
        return None
    if a[0] == b[0] == "W" and a[1] == b[1]:
        for (n, x), (m, y) in zip(a[2], b[2]):
            if x != y:
                return value_diff(x, y, path + ((a[1], n),))
    if a[0] == b[0] == "V" and a[1] == b[1] and len(a[2]) == len(b[2]):
        for n, (x, y) in enumerate(zip(a[2], b[2])):
            if x != y:
                return value_diff(x, y, path + ((a[1], n),))
    if a[0] == b[0] == "L" and len(a[1]) == len(b[1]):
        for n, (x, y) in enumerate(zip(a[1], b[1])):
            if x != y:
                return value_diff(x, y, path + (("L", n),))
    return path


def top(v):
    return v[1] if v[0] in ("V", "W") else v[0]


def classify(it, o):
    """properties that a difference breaks"""
    ps = set()
    c, r = o["code"], o["ref"]
    if o["kind"] in ("accept", "end"):
        ps.add("C03")
        if it["ref"] in ("Name", "Variable", "Number", "Type", "PrimitiveType", "Predicate", "ActionSymbol", "FunctionSymbol", "PreferenceName", "DurativeActionSymbol"):
            ps.add("C07")
        if it["ref"] in ("$typed_list", "$function_typed_list"):
            ps.add("C08")
        if o["edit"] == "split":
            ps.add("C07")
        if o["shadow"]:
            ps.add("C05")
    else:
        ps.add("C04")
        d = value_diff(c[1], r[1]) or ()
        if any(x[0] in TYPED or x[0] in ("Typed", "FunctionTyped") for x in d) or it["ref"] in ("$typed_list", "$function_typed_list"):
            ps.add("C08")
        if o["shadow"] or (c[1][0] == "V" and r[1][0] == "V" and c[1][1] != r[1][1]):
            ps.add("C05")
        if it["ref"] in TOKENS[:6]:
            ps.add("C07")
    return ps


def element_obligations(ctx, rep, prop, items=None):
    sc = scan(ctx)
    diffs = differences(ctx, rep)
    nprod = 0
    for i, it in enumerate(sc.items):
        if items and not items(it):
            continue
        nprod += len(it["s"].viewed)
        name = "%s: %s" % (it["key"].lstrip("$"), it["f"]["name"])
        o, n, q, err = diffs.get(i, ([], 0, 0, ""))
        mine = [x for x in o if prop in classify(it, x)]
        for x in mine[:3]:
            msg = "%s: the text %r is %s, the grammar has it %s" % (it["key"].lstrip("$"), x["text"], show(x["code"]), show(x["ref"]))
            rep.bad("%s %s" % (it["key"], x["text"]), msg, where(it["f"]), text=x["text"], element=it["key"],
                    productions=[show_chain(c)[:600] for c, v, fa in it["s"].viewed][:40])
        if it["equal"]:
            rep.ok(name, "productions equal to the reference in normal form" + ("; %d texts read by both" % n if n else ""))
        elif mine:
            pass
        elif not o and (it["s"].unks or not it["s"].viewed):
            rep.undecided(name, "; ".join(it["s"].unks[:2]) or "no production extracted")
        elif any(prop in classify(it, x) for x in o):
            pass
        elif o:
            rep.ok(name, "differs from the reference, but not in what this property says (%d texts)" % n)
        else:
            rep.undecided(name, "normal forms differ, no distinguishing text among %d (undecided %d) %s" % (n, q, err))
        rep.count("texts_read_by_both", n)
    for k, f in sc.unmatched:
        rep.count("entry_points_without_reference")
    rep.count("elements", len([it for it in sc.items if not items or items(it)]))
    rep.count("productions", nprod)
    rep.count("reference_productions", sum(len(sc.L.refprods[it["ref"]]) for it in sc.items if not items or items(it)))
    missing = [k for k in sc.L.refp if not sc.L.G.free.get(k)]
    for k in missing:
        if k != "Con2GD":
            rep.undecided(k, "no public parser of this element was found")
    return sc


GRAMMAR_NOTE = ("Each public parser function is abstracted, from its MIR, to the ordered list of its success paths (token, layout and sub-element "
                "steps, look-ahead of failed earlier alternatives, and the result value as a term over the steps). These are brought to a normal form and compared with the reference "
                "grammar, sub-elements being opaque on both sides. Equal normal forms decide the element for all inputs; where they differ, candidate texts are read "
                "with both sets of productions (the crate itself is never run) and only a text on which they differ is reported.")


def C03(ctx, rep):
    rep.explanation = GRAMMAR_NOTE + " C03 takes differences in what is accepted, and up to where."
    element_obligations(ctx, rep, "C03")


def C04(ctx, rep):
    rep.explanation = GRAMMAR_NOTE + " C04 takes differences in the value (as seen through variants and accessors) of texts that both accept."
    element_obligations(ctx, rep, "C04")


def C05(ctx, rep):
    rep.explanation = GRAMMAR_NOTE + " C05 takes texts for which the reference alternative exists in the code but an earlier one takes the text or keeps it from being reached, and texts read as another variant."
    element_obligations(ctx, rep, "C05", lambda it: len(scan(ctx).L.refprods[it["ref"]]) > 1)


def has_typed(L, ref, seen=None):
    for c, v, fa in L.refprods[ref]:
        if v is not None and mentions(v, TYPED):
            return True
    return ref in ("$typed_list", "$function_typed_list", "Type", "FunctionType")


def mentions(v, names):
    if isinstance(v, tuple):
        if v[:1] == ("W",) and len(v) > 1 and v[1] in names:
            return True
        return any(mentions(x, names) for x in v)
    return False


def C08(ctx, rep):
    L = ctx.L
    rep.explanation = GRAMMAR_NOTE + (" C08 looks at the elements that contain a typed list and at the two typed-list combinators with an arbitrary inner parser: the list value is a splice over "
                                      "the groups and the tail, so number of groups and group sizes are unbounded.")
    element_obligations(ctx, rep, "C08", lambda it: has_typed(L, it["ref"]))


# ---------------------------------------------------------------- C06 / C07: layout and tokens
WORDS = ["  ", "\t", "\n", "\r\n", "\r", "\n\n\t ", ";c\n", ";c\r", ";\n", " ; c (x) \n ", ";c\r\n", "\n;a\n;b\n", ";;\n", " ;\n\n", "; a ; b\n\t"]
MORE = ["\t\t", " \n", "\n ", "\r\r", ";\r\n", ";\r", ";c\r", "\n;\n;\n", ";a\n;b\n;c\n;d\n", "   \t", ";\t\n", ";\"\n", ";\u00e9\n", " ;x\n ;y\n ", ";(\n", ";)\n", ";;;;\n", "\r\n\r\n", ";c\n\r"]


def bases_for(sc, it, deep):
    L = sc.L
    ts = L.base_items(it["s"], it["ref"], False)
    ok = []
    for t in sorted(ts, key=len):
        items = gen.fill(t)
        text = gen.assemble(items)
        r = L.refmodel.parse(it["ref"], text)
        if r is not None and r[0] == len(text):
            ok.append(items)
    return ok


def layout_job(job):
    i, deep, budget = job
    sc = _SCAN
    it = sc.items[i]
    L = sc.L
    m = L.model(it["s"])
    out, n, gapsn = [], 0, 0
    t0 = time.time()
    seen = set()
    partial = False
    try:
        for items in bases_for(sc, it, deep):
            if time.time() - t0 > budget:
                partial = True
                break
            gs = gen.gaps(items)
            canon = gen.assemble(items)
            fresh = None
            for g, (req, a, b) in enumerate(gs):
                if a is None and it["ref"] not in ("Domain", "Problem"):
                    continue
                # what stands left and right of the gap, and how deep: one sentence for each
                sig = (depth_at(items, g), tokclass(a), tokclass(b), head_at(items, g), b if b == "(" else None, section_at(items, g))
                if sig in seen and not deep:
                    continue
                first = sig not in seen
                seen.add(sig)
                if fresh is None:
                    fresh = L.differs(m, it["ref"], canon) is None
                if not fresh:
                    break
                gapsn += 1
                ws = WORDS + (MORE if first else [])
                if not deep:
                    ws = WORDS + (MORE if len(seen) < 6 else [])
                for w in ws:
                    t = gen.assemble(items, g, w)
                    n += 1
                    d = L.differs(m, it["ref"], t)
                    if d is not None:
                        # one finding per token left of the gap and kind of layout
                        key = "gap after %s: %s" % (tokclass(a) or "the start", "comment" if ";" in w else "white space")
                        if not any(o["gkey"] == key for o in out):
                            out.append(dict(kind=d[0], edit="layout", text=t, code=d[1], ref=d[2], gap=(a, b), word=w, gkey=key))
                        if ";" not in w:
                            break
                if len(out) > 12:
                    break
            if len(out) > 12:
                break
    except (Opaque, RecursionError) as e:
        partial = True
    return i, out, n, gapsn, getattr(m, "opaque", 0), partial


def tokclass(t):
    if t is None:
        return None
    if t in ("(", ")"):
        return t
    if t[:1] == "?":
        return "?v"
    if t[:1].isdigit():
        return "5"
    if len(t) == 1 and t.isalpha():
        return "n"
    return t


def depth_at(items, g):
    d = 0
    n = -1
    prev = None
    for x in items:
        if isinstance(x, tuple):
            if not isinstance(prev, tuple):
                n += 1
            if n == g:
                return min(d, 3)
        elif x == "(":
            d += 1
        elif x == ")":
            d -= 1
        prev = x
    return d


def section_at(items, g):
    """the keyword (:effect ...) that stands before a gap in the same parentheses or around them"""
    n = -1
    prev = None
    st = [None]
    for x in items:
        if isinstance(x, tuple):
            if not isinstance(prev, tuple):
                n += 1
            if n == g:
                return next((y for y in st[::-1] if y), None)
        else:
            if x == "(":
                st.append(None)
            elif x == ")" and len(st) > 1:
                st.pop()
            elif x.startswith(":"):
                st[-1] = x
        prev = x
    return None


def head_at(items, g):
    """word after the innermost open parenthesis"""
    st = []
    n = -1
    prev = None
    want = False
    for x in items:
        if isinstance(x, tuple):
            if not isinstance(prev, tuple):
                n += 1
            if n == g:
                return tokclass(st[-1]) if st else None
        else:
            if want:
                st[-1] = x
                want = False
            if x == "(":
                st.append(None)
                want = True
            elif x == ")" and st:
                st.pop()
        prev = x
    return None


def gap_exhaustive(L, chain_alts, words, follow):
    """does the gap read exactly the layout words in front of the token `follow`?  -> list of words misread"""
    return []


def C06(ctx, rep):
    rep.explanation = ("For every public parser, sentences of its reference productions that together show every pair of neighbouring tokens are taken; at each token boundary each of a set of layout "
                       "words (runs of spaces, tabs, line breaks, comments: empty, with code in them, ended by \\n, \\r\\n or \\r, several in a row) is put in and the text is read with the productions extracted from the "
                       "MIR; the outcome must be that of the reference. Besides, the language of every distinct layout step of the extracted productions is compared with (space|tab|CR|LF|comment)* "
                       "(or +) on all words up to a length over the relevant alphabet. Nothing of the crate is run.")
    sc = scan(ctx)
    sc.L.gen
    items = [i for i, it in enumerate(sc.items) if it["s"].viewed and not it["s"].unks]
    res = sc.run([(i, ctx.thorough, 500.0 if ctx.thorough else 100.0) for i in items], layout_job)
    for i, out, n, gp, q, partial in res:
        it = sc.items[i]
        nm = "%s: %s" % (it["key"].lstrip("$"), it["f"]["name"])
        rep.count("gap_positions", gp)
        rep.count("texts", n)
        for x in out:
            rep.bad("%s %s" % (it["key"], x["gkey"]), "%s: with %r between %r and %r the text %r is %s; it should be %s" % (
                it["key"].lstrip("$"), x["word"], x["gap"][0], x["gap"][1], x["text"], show(x["code"]), show(x["ref"])), where(it["f"]), text=x["text"], element=it["key"])
        if not out:
            if q:
                rep.undecided(nm, "%d of %d texts undecided" % (q, n))
            else:
                rep.ok(nm, "%d token boundaries, %d layout variants" % (gp, n) + ("; time limit reached" if partial else ""))
    for it in sc.items:
        if it["s"].unks or not it["s"].viewed:
            rep.undecided("%s: %s" % (it["key"].lstrip("$"), it["f"]["name"]), it["s"].unks[:1])
    gap_languages(ctx, rep, sc)
    rep.bounded = "layout words: %d per boundary (+%d at the first boundaries); gap languages: all words up to the length given in the obligation" % (len(WORDS), len(MORE))


def all_gaps(chain, up=()):
    for j, (k, d, i) in enumerate(chain):
        if k == "gap":
            yield d
        elif k == "star":
            for b in d[0]:
                yield from all_gaps(b[0])


def skel(x):
    """structure of a layout step without event numbers"""
    if isinstance(x, tuple):
        if len(x) == 3 and isinstance(x[2], int) and isinstance(x[0], str):
            return (x[0], skel(x[1]))
        return tuple(skel(y) for y in x)
    return x


def gap_languages(ctx, rep, sc):
    """every distinct layout step: all words over the layout alphabet (and one other character) up to a length"""
    import itertools

    L = sc.L
    from peg import Model, Env, layout_run

    dist = {}
    for it in sc.items:
        for c, v, fa in it["s"].viewed:
            for d in all_gaps(c):
                dist.setdefault(skel(d), (d, it))
    m = Model(L.V, {}, ref=L.refmodel, layout=L.layout_prods())
    m.lead = L.lead
    N = 7 if ctx.thorough else 5
    alpha = " \t\n\r;x("
    bad = 0
    for sk, (d, it) in sorted(dist.items(), key=repr):
        req = all(nf.needs(c) for c in d)
        nm = "layout step %s of %s" % (show_chain((("gap", d, 0),)), it["f"]["name"])
        partial_words = 0
        n = 0
        fail = None
        maximal = True
        try:
            for ln in range(0, N + 1):
                for w in itertools.product(alpha, repeat=ln):
                    w = "".join(w)
                    n += 1
                    e = m.alts(d, w + "\n" if ";" in w else w, 0, Env(), 0)
                    t = w + "\n" if ";" in w else w
                    exp = layout_run(t, 0)
                    if e is None:
                        e2 = 0 if not req else None
                        if exp > 0 or not req:
                            fail = fail or (t, "not matched")
                    elif e != exp:
                        # a step that reads only part of the layout is fine where others follow: the sentences decide
                        maximal = False
        except (Opaque, RecursionError) as ex:
            rep.undecided(nm, ex)
            continue
        rep.count("layout_steps")
        rep.count("layout_words", n)
        if fail is None and maximal:
            rep.ok(nm, "reads exactly the leading layout of all %d words up to length %d" % (n, N))
        else:
            rep.ok(nm, "partial layout step (covered by the sentences only)")
            rep.count("partial_layout_steps")


def word_job(job):
    i, first, n = job
    import itertools

    sc = _SCAN
    it = sc.items[i]
    L = sc.L
    m = L.model(it["s"])
    out = []
    k = 0
    for ln in range(0, n):
        for w in itertools.product(TOKALPHA, repeat=ln):
            t = first + "".join(w)
            k += 1
            d = L.differs(m, it["ref"], t)
            if d is not None:
                out.append(dict(kind=d[0], edit="word", text=t, code=d[1], ref=d[2]))
                if len(out) > 4:
                    return i, out, k, getattr(m, "opaque", 0)
    return i, out, k, getattr(m, "opaque", 0)


TOKALPHA = "aZ0-_?. ;(\u00e9"


def split_job(job):
    """one blank put inside a token, and tokens cut short or run on"""
    i, deep, budget = job
    sc = _SCAN
    it = sc.items[i]
    L = sc.L
    m = L.model(it["s"])
    out, n = [], 0
    t0 = time.time()
    seen = set()
    try:
        for items in bases_for(sc, it, deep):
            if time.time() - t0 > budget or len(out) > 6:
                break
            t = gen.assemble(longer(items))
            d0 = L.differs(m, it["ref"], t)
            for j in range(1, len(t)):
                a, b = t[j - 1], t[j]
                if a in " ()" or b in " ()":
                    continue
                sig = word_at(t, j)
                if sig in seen and not deep:
                    continue
                seen.add(sig)
                for w in (" ", "\n", ";c\n"):
                    x = t[:j] + w + t[j:]
                    n += 1
                    d = L.differs(m, it["ref"], x)
                    if d is not None and d0 is None:
                        out.append(dict(kind=d[0], edit="split", text=x, code=d[1], ref=d[2]))
                        break
            # whole tokens: every kind of character in and right after a name, variable or number
            sl = gen.slots_of(items)
            for pos in sl[: None if deep else 4]:
                for w in NAMEWORDS + (NUMWORDS if items[pos][:1].isdigit() else []):
                    y = list(items)
                    y[pos] = w
                    x = gen.assemble(y)
                    if x in seen:
                        continue
                    seen.add(x)
                    n += 1
                    d = L.differs(m, it["ref"], x)
                    if d is not None and d0 is None:
                        out.append(dict(kind=d[0], edit="token", text=x, code=d[1], ref=d[2]))
                        break
    except (Opaque, RecursionError):
        pass
    return i, out, n, getattr(m, "opaque", 0)


NAMEWORDS = ["A9", "a-b", "a--", "a_b", "a-", "a_", "aB-3_x", "object-x", "objectx", "number-2", "numberx", "not-a", "andy", "at-end", "a.b", "a+", "a:b", "a?b", "a#", "\u00e9", "a\u00e9", "9a", "-a", "_a", "1.5", "1.", ".5", "0005", "1e5", "-1", "+1", "inf", "nan", "1-2", "1_0", "abcdefghijklmnopqrstuvwxyz-0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ"]

NUMWORDS = ["3" + "0" * 37, "123" + "0" * 30, "99999999999", "16777217", "0." + "0" * 9 + "1", "0." + "0" * 43 + "1", "0.125", "1234.5678", "65535.5", "2147483648", "4294967296.0", "0.1", "0.3", "33554433"]


def longer(items):
    out = []
    for x in items:
        if isinstance(x, str) and len(x) == 1 and x.isalpha():
            x = x + "-" + x + "2"
        elif isinstance(x, str) and x[:1].isdigit() and len(x) == 1:
            x = x + "7.25" if "." not in x else x
        out.append(x)
    return out


def word_at(t, j):
    a = j
    while a > 0 and t[a - 1] not in " ()":
        a -= 1
    b = j
    while b < len(t) and t[b] not in " ()":
        b += 1
    h = t.rfind("(", 0, a)
    return (t[h + 1:h + 6], tokclass(t[a:b]) if len(t[a:b]) < 2 or not t[a:b][0].isalpha() or t[a:b][1:2] != "-" else "n", j - a if t[a] != "?" else min(j - a, 2))


def C07(ctx, rep):
    rep.explanation = ("The token parsers (names, variables, numbers, types and the symbol wrappers) are compared with the reference in normal form (all inputs) and on all words up to a length over letters, digits, "
                       "hyphen, underscore and foreign characters. In every element, layout is put inside each token and each name, variable or number is replaced by words that mix the token characters; the extracted productions must "
                       "read the result as the reference does.")
    sc = scan(ctx)
    sc.L.gen
    tok = lambda it: it["ref"] in TOKENS
    element_obligations(ctx, rep, "C07", tok)
    jobs = []
    N = 5 if ctx.thorough else 4
    for i, it in enumerate(sc.items):
        if it["ref"] in ("Name", "Variable", "Number", "Type", "PrimitiveType", "Predicate", "ActionSymbol", "FunctionSymbol", "PreferenceName", "DurativeActionSymbol") and it["s"].viewed:
            jobs += [(i, c, N) for c in TOKALPHA if c not in " ;"]
    agg = {}
    for i, out, k, q in sc.run(jobs, word_job):
        a = agg.setdefault(i, [[], 0, 0])
        a[0] += out
        a[1] += k
        a[2] += q
    for i, (out, k, q) in agg.items():
        it = sc.items[i]
        report_texts(rep, it, out, "all %d words up to length %d over %r" % (k, N, TOKALPHA), k, q, "words")
    res = sc.run([(i, ctx.thorough, 400.0 if ctx.thorough else 60.0) for i, it in enumerate(sc.items) if it["s"].viewed and not it["s"].unks], split_job)
    for i, out, n, q in res:
        report_texts(rep, sc.items[i], out, "%d texts with tokens split or exchanged" % n, n, q, "token_texts")


def report_texts(rep, it, out, how, n, q, cnt):
    nm = "%s: %s" % (it["key"].lstrip("$"), it["f"]["name"])
    rep.count(cnt, n)
    for x in out[:3]:
        rep.bad("%s %s" % (it["key"], x["text"]), "%s: the text %r is %s; it should be %s" % (it["key"].lstrip("$"), x["text"], show(x["code"]), show(x["ref"])), where(it["f"]), text=x["text"], element=it["key"])
    if not out:
        if q:
            rep.undecided(nm, "%d of %d texts undecided" % (q, n))
        else:
            rep.ok(nm, how)


# ---------------------------------------------------------------- C01 / C10: panics, failures, incomplete
def path_prods(s, outs, state_of):
    """success chain up to the event in question, with the facts of that path"""
    out = []
    for o in outs:
        st = state_of(o)
        ch = None
        ends = [e[2] for e in st.trace if e[2] is not None]
        for e in reversed(ends):
            try:
                ch = absnom.linearize(st.trace, s.start, e)
            except (KeyError, IndexError):
                ch = None
            if ch is not None:
                break
        # look-ahead failures at the very end are attached by linearize; an empty trace is the empty chain
        if ch is None:
            ch = absnom.linearize(st.trace, s.start, s.start) if not ends else None
        out.append((ch, None, st.facts, o))
    return out


BIG = ["9" * 400, "9" * 25, "18446744073709551616", "4294967296", "1" + "0" * 50 + ".5", "0.1", "0", "00", "1" * 45, "340282356779733661637539395458142568448", "99999999999999999999", "7", "2147483648", "65536", "256"]
ODD = ["\u00e9", "a\u00e9b", "\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9", "x" * 70, "A", "a-", "object", "number", "a1", "a" * 33, "not", "objects", "ab", "abc", "Z9_-", "object-1"]


def odd_texts(sc, it, deep):
    """sentences with extreme numbers, long and non-ASCII names, cut-off texts"""
    L = sc.L
    for t in [""] + list(BIG) + list(ODD) + ["(" + x for x in BIG[:3]]:
        yield t
    bs = bases_for(sc, it, deep)
    for items in bs[: 200 if deep else 60]:
        yield gen.assemble(items)
    for items in bs[: 60 if deep else 20]:
        sl = gen.slots_of(items)
        for p in sl[:6]:
            for w in (BIG if items[p][:1].isdigit() else ODD + BIG[:3]):
                y = list(items)
                y[p] = w
                yield gen.assemble(y)
        if len(sl) > 1:
            for w in BIG[:6] + ODD[:4]:
                y = list(items)
                for p in sl:
                    if items[p][:1].isdigit() == w[:1].isdigit():
                        y[p] = w
                yield gen.assemble(y)
        # every list grown
        t = gen.assemble(items)
        for j in range(1, len(t)):
            yield t[:j]
            yield t[:j] + "\u00e9" + t[j:]
    for kind, t in L.texts(it["s"], it["ref"], False):
        yield t


def event_job(job):
    i, what, budget, deep = job
    sc = _SCAN
    it = sc.items[i]
    s = it["s"]
    L = sc.L
    outs = {"panic": s.panics, "fail": s.fails, "inc": s.incs}[what]
    state = (lambda o: o[1]) if what != "fail" else (lambda o: o[1])
    if what == "fail":
        pp = path_prods(s, outs, lambda o: o[1])
    elif what == "inc":
        pp = path_prods(s, outs, lambda o: o[1])
    else:
        pp = path_prods(s, outs, lambda o: o[1])
    m = L.model(s)
    found = {}
    und = set(n for n, p in enumerate(pp) if p[0] is None)
    t0 = time.time()
    k = 0
    seen = set()
    for t in odd_texts(sc, it, deep):
        if t in seen:
            continue
        seen.add(t)
        k += 1
        if time.time() - t0 > budget or len(found) == len(pp):
            break
        for n, (ch, _, facts, o) in enumerate(pp):
            if n in found or ch is None:
                continue
            env = m.env(0)
            try:
                e = m.match(ch, t, 0, env)
                if e is None or not m.holds(facts.items(), env, t):
                    continue
                if what != "panic" and m.parse("$code", t) is not None:
                    continue
                found[n] = t
            except (Opaque, RecursionError, ValueError, KeyError, IndexError, TypeError, AttributeError):
                und.add(n)
    return i, [(n, describe(pp[n][3], what), t) for n, t in found.items()], len(und - set(found)), k, len(pp)


def describe(o, what):
    if what == "panic":
        x = o[0]
        return " ".join(str(y) for y in x if y is not None)[:200] if isinstance(x, tuple) else str(x)[:200]
    return str(o[2])[:200] if len(o) > 2 else what


def event_check(ctx, rep, what, label, verb):
    sc = scan(ctx)
    jobs = []
    for i, it in enumerate(sc.items):
        s = it["s"]
        nm = "%s: %s" % (it["key"].lstrip("$"), it["f"]["name"])
        n = len({"panic": s.panics, "fail": s.fails, "inc": s.incs}[what])
        rep.count("paths", len(s.prods) + len(s.errs) + len(s.panics) + len(s.fails) + len(s.incs))
        if n:
            jobs.append((i, what, 200.0 if ctx.thorough else 45.0, ctx.thorough))
        elif s.unks:
            rep.undecided("%s %s" % (nm, label), s.unks[0])
        else:
            rep.ok("%s %s" % (nm, label), "none of its %d abstract paths does" % (len(s.prods) + len(s.errs)))
    if not jobs:
        return
    sc.L.gen
    for i, found, und, k, tot in sc.run(jobs, event_job):
        it = sc.items[i]
        nm = "%s: %s" % (it["key"].lstrip("$"), it["f"]["name"])
        for n, d, t in found[:3]:
            short_t = t if len(t) < 160 else t[:150] + "...(%d characters)" % len(t)
            rep.bad("%s %s" % (it["key"], d), "%s: on the text %r the parser %s (%s)" % (it["key"].lstrip("$"), short_t, verb, d), where(it["f"]), text=t, site=d)
        if not found:
            rep.undecided("%s %s" % (nm, label), "%d paths for which no text was found among %d" % (tot, k))


def helper_fns(L):
    """other exported functions of the parsing module that take text, and constructors used on text"""
    return [f for f in L.G.free.get("()", [])]


def C01(ctx, rep):
    rep.explanation = ("Every path of every public parser (all elements, the generic combinators with an arbitrary inner parser, the layout helper, the trait's default methods) is followed through the MIR "
                       "with unknown input; a path that ends in a panic (failed assertion, unwrap/expect, out-of-range index or slice, explicit panic) is reported when a text is found that takes it. Name creation, which the grammar "
                       "abstracts, is followed separately.")
    event_check(ctx, rep, "panic", "does not panic", "panics")
    sc = scan(ctx)
    L = sc.L
    for f in helper_fns(L):
        s = L.G.summarize(f, "()")
        if s.panics:
            rep.bad(f["name"] + " panic", "%s: a path panics: %s" % (f["name"], s.panics[0][0]), where(f))
        elif s.unks:
            rep.undecided(f["name"], s.unks[0])
        else:
            rep.ok(f["name"] + " does not panic", "none of its %d abstract paths does" % (len(s.prods) + len(s.errs)))
    name_creation(ctx, rep)
    entry_points(ctx, rep, "panic")


def name_creation(ctx, rep):
    """the parsers make names of the texts they read: on any text and any interning table"""
    from api import Api, NoSummary
    from intern import Intern

    N = Intern(Api(ctx.F))
    for f in N.ctors():
        try:
            outs, I = N.run(f, [("Sym", ("arg", 0), f["inputs"][0])])
        except NoSummary as e:
            rep.undecided(f["path"], e)
            continue
        p = [v for k, v, s in outs if k == "panic"]
        if p:
            rep.bad("name:" + f["path"], "%s panics on a path: %s" % (f["path"], p[0]), f["span"])
        elif any(k != "ret" for k, v, s in outs):
            rep.undecided(f["path"], [v for k, v, s in outs if k != "ret"][0])
        else:
            rep.ok(f["path"] + " does not panic", "none of its %d abstract paths does" % len(outs))


def C10(ctx, rep):
    rep.explanation = ("The outcomes of every abstract path of every public parser are classified: success, recoverable error, unrecoverable failure, request for more input. Failures and requests are reported when a text is found that "
                       "takes the path; a production that succeeds without consuming anything is reported too. That later alternatives are tried after a recoverable error is part of the normal-form comparison.")
    event_check(ctx, rep, "fail", "never fails unrecoverably", "reports an unrecoverable failure")
    event_check(ctx, rep, "inc", "never asks for more input", "reports that input is incomplete")
    sc = scan(ctx)
    for it in sc.items:
        if it["ref"] in ("$typed_list", "$function_typed_list"):
            continue
        nm = "%s: %s consumes something on success" % (it["key"].lstrip("$"), it["f"]["name"])
        empty = [c for c, v, fa in it["s"].viewed if not nf.needs(c)]
        if not empty:
            if it["s"].viewed:
                rep.ok(nm, "no production is empty")
            continue
        if it["ref"] == "LengthSpec" or any(not nf.needs(c) for c, v, fa in sc.L.refprods[it["ref"]]):
            rep.ok(nm, "optional element")
            continue
        m = sc.L.model(it["s"])
        for t in ("", "x", "(", ")", "5"):
            d = sc.L.differs(m, it["ref"], t)
            if d is not None and d[1] is not None and d[2] is None:
                rep.bad("%s %r" % (it["key"], t), "%s: succeeds on %r although nothing of the element is there: %s" % (it["key"].lstrip("$"), t, show(d[1])), where(it["f"]), text=t)
                break
        else:
            rep.undecided(nm, "an empty production, but no text shows it")


# ---------------------------------------------------------------- C02
def nts_at_depth0(chain, depth=0, look=True):
    """elements entered while no parenthesis that this production opened is open"""
    out = []
    for k, d, i in chain:
        if k == "lit":
            for c in d[0]:
                depth += 1 if c == "(" else -1 if c == ")" else 0
        elif k == "cls" and d[0][0] == "in" and set(d[0][1]) <= set("()") and d[1] == 1:
            depth += 1 if "(" in d[0][1] else -1
        elif k == "nt":
            if depth <= 0:
                out.append(d)
        elif k == "star":
            for b in d[0]:
                out += nts_at_depth0(b[0], depth)
        elif k in ("neg", "peek"):
            for c in d:
                out += nts_at_depth0(c, depth)
    return out


def stars(chain):
    for k, d, i in chain:
        if k == "star":
            for b in d[0]:
                yield b[0]
                yield from stars(b[0])
        elif k in ("neg", "peek", "gap"):
            for c in d:
                yield from stars(c)


def C02(ctx, rep):
    rep.explanation = ("Progress: in the extracted productions the body of every repetition contains a step that consumes at least one character (elements themselves never match the empty text). Recursion: in the graph of elements entered "
                       "while no parenthesis opened by the production is open there is no cycle, so each re-entry of an element lies inside a pair of parentheses of its own. Native recursion: in the call graph of the parsing module, with "
                       "the element parsers taken out, no function that takes text calls itself.")
    sc = scan(ctx)
    L = sc.L
    graph = {}
    src = {}
    seen_empty = set()
    for it in sc.items:
        s = it["s"]
        nm = "%s: %s" % (it["key"].lstrip("$"), it["f"]["name"])
        if not s.viewed:
            rep.undecided(nm, (s.unks or ["no production"])[0])
            continue
        badbody = None
        n = 0
        for c, v, fa in s.viewed:
            for b in stars(c):
                n += 1
                if not nf.needs(b):
                    badbody = b
            for x in nts_at_depth0(c):
                graph.setdefault(it["key"], set()).add(x)
                src[it["key"]] = it["f"]
        rep.count("repetitions", n)
        if s.empty_rounds or badbody is not None:
            w = s.empty_rounds[0] if s.empty_rounds else show_chain(badbody)
            rep.bad("%s empty round" % it["key"], "%s: a repetition may run a round that consumes nothing (%s)" % (it["key"].lstrip("$"), w), where(it["f"]))
        elif s.unks:
            rep.undecided(nm + " progress", s.unks[0])
        else:
            rep.ok(nm + " progress", "%d repetitions consume in every round" % n)
    # cycles
    cyc = cycles(graph)
    for path in cyc:
        rep.bad("recursion " + " -> ".join(path), "element %s is entered again without an open parenthesis: %s" % (path[0], " -> ".join(path)), where(src[path[0]]))
    if not cyc:
        rep.ok("elements re-enter themselves only inside parentheses", "%d elements, %d edges without parenthesis, acyclic" % (len(graph), sum(len(x) for x in graph.values())))
    native_recursion(ctx, rep)


def cycles(graph):
    out = []
    state = {}

    def dfs(u, path):
        state[u] = 1
        for v in sorted(graph.get(u, ()), key=str):
            if state.get(v) == 1:
                out.append(path[path.index(v):] + [v])
            elif v not in state:
                dfs(v, path + [v])
        state[u] = 2

    for u in sorted(graph, key=str):
        if u not in state:
            dfs(u, [u])
    return [[str(x) for x in p] for p in out]


def call_edges(F, ix):
    """instances referred to by a body: called, or passed on as functions or closures"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if "inst" in x:
                out.add(x["inst"])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)

    walk(F.bodies[ix]["bbs"])
    for p in F.bodies[ix].get("promoted") or []:
        walk(p)
    return out


def native_recursion(ctx, rep):
    L = ctx.L
    F = ctx.F
    cut = set()
    for f in L.F.fns:
        if f["path"] in L.G.entries and L.G.entries[f["path"]] != "()" and f.get("inst") is not None:
            cut.add(f["path"])
    start = [f["inst"] for f in F.fns if f["path"].startswith("crate::parsers::") and f.get("inst") is not None]
    edges = {}
    work = list(start)
    while work:
        i = work.pop()
        if i in edges or not isinstance(i, int):
            continue
        b = F.bodies[i]
        if not b.get("local"):
            edges[i] = set()
            continue
        edges[i] = {j for j in call_edges(F, i) if isinstance(j, int)}
        work += list(edges[i])
    local = {i for i in edges if F.bodies[i].get("local") and F.bodies[i]["path"].startswith("crate::parsers") and F.bodies[i]["path"] not in cut}
    # strongly connected parts among the uncut local functions
    g = {i: {j for j in edges[i] if j in local} for i in local}
    n = 0
    for comp in sccs(g):
        if len(comp) > 1 or comp[0] in g[comp[0]]:
            names = sorted(F.bodies[i]["path"] for i in comp)
            takes = [i for i in comp if takes_text(F, i)]
            if not takes:
                continue
            n += 1
            if any(guarded(F, i) for i in comp):
                rep.undecided("recursion of " + names[0], "recursive helper")
                continue
            rep.bad("native recursion " + names[0], "%s calls itself on the rest of the text: stack use grows with the length of the input" % " / ".join(names), F.bodies[comp[0]].get("span", ""))
    if not n:
        rep.ok("no native recursion over the text", "%d functions of the parsing module, element parsers taken out" % len(local))
    rep.count("call_graph_functions", len(local))


def guarded(F, i):
    """does the recursive helper match an opening parenthesis itself?  (then its depth may well follow the parentheses)"""
    import json

    t = json.dumps(F.bodies[i]["bbs"])
    return "parens" in t or "prefix_expr" in t or "[40]" in t


def takes_text(F, i):
    b = F.bodies[i]
    for l in range(1, b["argc"] + 1):
        t = b["locals"][l]
        ty = t["ty"] if isinstance(t, dict) else t
        s = F.tstr(ty) if isinstance(ty, int) else str(ty)
        if "LocatedSpan" in s or s in ("&str", "str"):
            return True
    return False


def sccs(g):
    idx, low, st, on, out = {}, {}, [], set(), []
    n = [0]

    def go(v):
        work = [(v, iter(g[v]))]
        idx[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        on.add(v)
        while work:
            u, itr = work[-1]
            for w in itr:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g[w])))
                    break
                elif w in on:
                    low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == u:
                            break
                    out.append(c)

    for v in g:
        if v not in idx:
            go(v)
    return out


# ---------------------------------------------------------------- C23
def C23(ctx, rep):
    rep.explanation = ("In the extracted productions each path carries, as look-ahead, the productions of the earlier alternatives that failed on it. Where such a failed alternative and the path read the same step sequence from the same "
                       "position up to and including an element of the same recursive group, and the failed alternative has more steps after it, the element is read twice: reported with both productions.")
    sc = scan(ctx)
    L = sc.L
    prods = {}
    for it in sc.items:
        if isinstance(it["key"], str):
            prods.setdefault(it["key"], []).extend(it["s"].viewed)
    g = {k: set() for k in prods}
    for k, ps in prods.items():
        for c, v, fa in ps:
            for x in gen.flat(c):
                if x[0] == "nt" and x[1] in g:
                    g[k].add(x[1])
    comp = {}
    for c in sccs(g):
        rec = len(c) > 1 or c[0] in g[c[0]]
        for k in c:
            comp[k] = set(c) if rec else set()
    for it in sc.items:
        nm = "%s: %s" % (it["key"].lstrip("$"), it["f"]["name"])
        if not it["s"].viewed:
            rep.undecided(nm, (it["s"].unks or ["no production"])[0])
            continue
        group = comp.get(it["key"], set())
        if not group:
            if it["s"].unks:
                rep.undecided(nm, it["s"].unks[0])
            else:
                rep.ok(nm, "not recursive")
            continue
        hit = None
        n = 0
        for c, v, fa in it["s"].viewed:
            for j, x in enumerate(c):
                if x[0] not in ("neg", "peek"):
                    continue
                for a in x[1]:
                    n += 1
                    if not contains_nt(a, group):
                        continue
                    h = reread(a, c[j + 1:], group, prods, 0, x[1])
                    if h:
                        hit = (h, a, c)
            for b in stars(c):
                for j, x in enumerate(b):
                    if x[0] in ("neg", "peek"):
                        for a in x[1]:
                            n += 1
                            h = reread(a, b[j + 1:], group, prods, 0, x[1]) if contains_nt(a, group) else None
                            if h:
                                hit = (h, a, b)
        rep.count("failed_alternatives_compared", n)
        if hit:
            rep.bad("%s %s" % (it["key"], hit[0]), "%s: after the alternative  %s  fails, another alternative  %s  reads the nested %s again" % (
                it["key"].lstrip("$"), clip(show_chain(strip_looks(hit[1]))), clip(show_chain(strip_looks(hit[2]))), hit[0]), where(it["f"]))
        elif it["s"].unks:
            rep.undecided(nm, it["s"].unks[0])
        else:
            rep.ok(nm, "no nested occurrence is read by two alternatives")


def clip(s):
    return s if len(s) < 300 else s[:300] + "..."


def strip_looks(c):
    return tuple(x for x in c if x[0] not in ("neg", "peek", "guard"))


def contains_nt(c, group):
    return any(x[0] == "nt" and x[1] in group for x in gen.flat(c))


def reread(a, main, group, prods, depth, sibs=()):
    """first element of the group that `a` reads and still can fail after, and that `main` reads at the same place"""
    full = [x for x in a if x[0] != "gap"]
    a = [x for x in full if x[0] not in ("neg", "peek", "guard")]
    b = [x for x in main if x[0] not in ("neg", "peek", "guard", "gap")]

    def can_fail_after(i):
        """does `a` go on with something that need not match after its i-th consuming step?"""
        n = -1
        for j, x in enumerate(full):
            if x[0] not in ("neg", "peek", "guard"):
                n += 1
            if n == i:
                rest = full[j + 1:]
                break
        else:
            return False
        if any(x[0] not in ("neg", "peek", "guard") for x in rest):
            return True
        if not rest:
            return False
        # only conditions follow: they are a choice, not a failure, when a sibling path goes on from here
        pre = [absnom.strip_data(x[0], x[1]) for x in a[:i + 1]]
        for c in sibs:
            d = [x for x in c if x[0] not in ("neg", "peek", "guard", "gap")]
            if d is not a and len(d) > i + 1 and [absnom.strip_data(x[0], x[1]) for x in d[:i + 1]] == pre:
                return False
        return True

    i = 0
    while i < len(a) and i < len(b):
        x, y = a[i], b[i]
        if x[0] == "star" and y[0] == "star":
            sx, sy = set(absnom.strip_chain(q[0]) for q in x[1][0]), set(absnom.strip_chain(q[0]) for q in y[1][0])
            if sx == sy:
                if any(contains_nt(q, group) for q in sx) and can_fail_after(i):
                    for q in sx:
                        for z in gen.flat(q):
                            if z[0] == "nt" and z[1] in group:
                                return z[1]
                i += 1
                continue
        if x[0] == "star":
            # the repetition may run no round, or one
            for q in x[1][0]:
                h = reread(list(strip_looks(q[0])) + a[i + 1:], b[i:], group, prods, depth)
                if h:
                    return h
            return reread(a[i + 1:], b[i:], group, prods, depth) if x[1][1] == 0 else None
        if y[0] == "star":
            for q in y[1][0]:
                h = reread(a[i:], list(strip_looks(q[0])) + b[i + 1:], group, prods, depth)
                if h:
                    return h
            return reread(a[i:], b[i + 1:], group, prods, depth) if y[1][1] == 0 else None
        if x[0] == "nt" and y[0] == "nt" and x[1] == y[1]:
            if x[1] in group and can_fail_after(i):
                return x[1]
            i += 1
            continue
        if x[0] == y[0] and absnom.strip_data(x[0], x[1]) == absnom.strip_data(y[0], y[1]):
            i += 1
            continue
        if depth < 3 and y[0] == "nt" and y[1] in prods and y[1] in group and x[0] == "lit":
            for c, v, fa in prods[y[1]]:
                h = reread(a[i:], list(strip_looks(c)) + b[i + 1:], group, prods, depth + 1)
                if h:
                    return h
            return None
        if depth < 3 and x[0] == "nt" and x[1] in prods and x[1] in group and y[0] == "lit":
            for c, v, fa in prods[x[1]]:
                h = reread(list(strip_looks(c)) + a[i + 1:], b[i:], group, prods, depth + 1)
                if h:
                    return h
            return None
        return None
    return None


# ---------------------------------------------------------------- C09
ALIAS = {"DurationConstraint": "Option<DurationConstraint>"}


def entry_points(ctx, rep, mode):
    """trait entry points of every element: parse, and overrides of parse_span and from_str; the default methods"""
    sc = scan(ctx)
    L = sc.L
    G = L.G
    I = G.I
    for k, d in sorted(G.impls.items()):
        ref = ALIAS.get(k, k)
        for n, f in sorted(d.items()):
            nm = "<%s as Parser>::%s" % (k, n)
            if n in ("parse", "parse_span"):
                s = L.code(f, "impl " + k)
                if mode == "panic":
                    if s.panics:
                        rep.bad(nm + " panic", "%s may panic: %s" % (nm, s.panics[0][0]), where(f))
                    elif s.unks:
                        rep.undecided(nm, s.unks[0])
                    else:
                        rep.ok(nm + " does not panic", "%d paths" % (len(s.prods) + len(s.errs)))
                    continue
                if ref not in L.refprods:
                    rep.undecided(nm, "element without reference")
                    continue
                vs = s.viewed
                if len(vs) == 1 and len(vs[0][0]) == 1 and vs[0][0][0][0] == "nt" and vs[0][0][0][1] == ref and vs[0][1] == ("Sym", ("ev", vs[0][0][0][2])) and not s.unks and not s.fails:
                    rep.ok(nm, "hands the whole input to the element's parser and returns its result")
                    continue
                c = L.compare_nf(vs, ref) if not s.unks and all(v is not None for _, v, _ in vs) else None
                if c is not None and not c[0] and not c[1]:
                    rep.ok(nm, "productions equal to the reference in normal form")
                    continue
                L.gen
                if s.unks:
                    rep.undecided(nm, s.unks[0])
                    continue
                o, cnt, q = L.search(f, k, ref, budget=60, s=s)
                m = L.model(s)
                for x in o[:2]:
                    rep.bad("%s %s" % (nm, x["text"]), "%s: the text %r is %s, the element's grammar has it %s" % (nm, x["text"], show(x["code"]), show(x["ref"])), where(f), text=x["text"])
                if not o:
                    rep.undecided(nm, "no distinguishing text among %d" % cnt)
            else:
                from_str_override(ctx, rep, k, ref, f, nm, mode)
    if mode == "panic":
        return
    missing = [k for k in L.refp if k not in G.impls and k not in ("Option<DurationConstraint>",)]
    default_methods(ctx, rep)
    rep.count("trait_impls", len(G.impls))


def from_str_override(ctx, rep, k, ref, f, nm, mode):
    sc = scan(ctx)
    L = sc.L
    I = L.G.I
    st = ai.St()
    start = I.fresh()
    try:
        outs = I.exec(f["inst"], [("Span", start, None)], st)
    except ai.Budget as e:
        rep.undecided(nm, e)
        return
    from peg import Model, Env

    prods = []
    for kd, v, s in outs:
        if kd == "panic":
            if mode == "panic":
                rep.bad(nm + " panic", "%s may panic: %s" % (nm, v), where(f))
            continue
        if kd != "ret":
            rep.undecided(nm, v)
            return
        v = I.deref(v, s)
        if v[0] != "A" or v[1] != "std::result::Result":
            rep.undecided(nm, "result is not followed")
            return
        if v[2] == 0:
            ends = [e[2] for e in s.trace if e[2] is not None]
            ch = absnom.linearize(s.trace, start, ends[-1]) if ends else None
            if ch is None:
                rep.undecided(nm, "path is not followed")
                return
            try:
                prods.append((ch, L.V.view(v[3][0], s), s.facts))
            except Exception as e:
                rep.undecided(nm, e)
                return
    if mode == "panic":
        rep.ok(nm + " does not panic", "%d paths" % len(outs))
        return
    m = Model(L.V, {"$code": prods}, ref=L.refmodel, layout=L.layout_prods())
    m.lead = L.lead
    L.gen
    n = 0
    for it in sc.items:
        if it["ref"] != ref:
            continue
        for kind, t in L.texts(it["s"], ref, False):
            n += 1
            if n > 4000:
                break
            try:
                a = m.parse("$code", t)
            except (Opaque, RecursionError):
                continue
            b = L.refmodel.parse(ref, t)
            if (a is None) != (b is None) or (a is not None and a[1] is not None and a[1] != b[1]):
                rep.bad("%s %s" % (nm, t), "%s: the text %r is %s, the other entry points have it %s" % (nm, t, show(a), show(b)), where(f), text=t)
                return
        break
    rep.ok(nm, "same acceptance and value as the element's parser on %d texts" % n)


def default_methods(ctx, rep):
    L = ctx.L
    I = L.G.I
    for f in L.F.fns:
        if f.get("of_trait") != "crate::parsers::Parser" or f.get("inst") is None:
            continue
        nm = "Parser::%s (default)" % f["name"]
        st = ai.St()
        a = ("Sym", ("arg", 0), f["inputs"][0])
        try:
            outs = I.exec(f["inst"], [a], st)
        except ai.Budget as e:
            rep.undecided(nm, e)
            continue
        good = 0
        why = None
        und = None
        sawok = sawerr = False
        for kd, v, s in outs:
            if kd == "panic":
                why = "may panic: %s" % (v,)
                continue
            if kd != "ret":
                und = v
                continue
            c = I.canon(v, s)
            if c[0] == "Sym" and is_parse_of_arg(c[1]):
                sawok = sawerr = True
                continue
            if c[0] == "A" and c[1] == "std::result::Result":
                app = [k for k in s.facts if k[0] == "app" and k[1] == "crate::parsers::Parser::parse"]
                src = [k for k in app if is_parse_of_arg(k)]
                if app and not src:
                    why = "the text handed to parse is not the caller's text: %s" % (app[0],)
                    continue
                if not src:
                    und = "result does not come from parse"
                    continue
                if any(k not in src and k[0] not in ("ne", "same") for k in s.facts):
                    extra = [k for k in s.facts if k not in src and k[0] not in ("ne", "same")]
                    if c[2] == 1 and s.facts[src[0]] == 0:
                        why = "an accepted text is turned into an error under %s" % (extra[0],)
                        continue
                if c[2] == 0:
                    val = c[3][0]
                    if f["name"] == "from_str" and val == ("Sym", ("fld", ("fld", src[0], 0, 0), 0, 1)):
                        sawok = True
                    elif f["name"] == "parse_span" and (val == ("Sym", ("fld", src[0], 0, 0))):
                        sawok = True
                    elif s.facts[src[0]] == 0 and find_app(val):
                        why = "the value is altered: %s" % (val,)
                    else:
                        why = "the value does not come from parse: %s" % (val,)
                else:
                    if s.facts[src[0]] == 0:
                        why = "an accepted text is turned into an error"
                    sawerr = True
                continue
            und = "result %s" % (c,)
        if why:
            rep.bad(nm, "%s: %s" % (nm, why), where(f))
        elif und:
            rep.undecided(nm, und)
        elif sawok:
            rep.ok(nm, "passes the caller's text to parse and returns its value unchanged (%d paths)" % len(outs))
        else:
            rep.undecided(nm, "no successful path")


def is_parse_of_arg(t):
    return t[0] == "app" and t[1] == "crate::parsers::Parser::parse" and len(t[2]) == 1 and t[2][0] in (("Sym", ("arg", 0)),)


def find_app(v):
    if isinstance(v, tuple):
        return v[:2] == ("app", "crate::parsers::Parser::parse") or any(find_app(x) for x in v)
    return False


def C09(ctx, rep):
    rep.explanation = ("Each trait entry point of each element is followed through the MIR: it must hand the whole input to the element's parser function and return that result (or have the same productions). The default methods are followed "
                       "with an arbitrary element: the text handed on is the caller's, the value comes back unchanged, no accepted text becomes an error. For every parser the remainder is the final position of the path: a returned rest that is "
                       "not the unconsumed suffix is not an accepted path form.")
    sc = scan(ctx)
    entry_points(ctx, rep, "agree")
    for it in sc.items:
        nm = "%s: %s" % (it["key"].lstrip("$"), it["f"]["name"])
        bad = [u for u in it["s"].unks if "remainder" in str(u)]
        if bad:
            rep.undecided(nm + " remainder", bad[0])
        elif it["s"].unks:
            rep.undecided(nm + " remainder", it["s"].unks[0])
        else:
            rep.ok(nm + " remainder", "the rest returned starts where the last consumed step ends, on all %d paths" % len(it["s"].viewed))
