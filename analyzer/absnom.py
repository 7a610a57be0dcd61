"""Models of nom 7 combinators on abstract input positions.

A parser applied at an abstract position yields its success paths (each a trace of events between
positions) and at most one recoverable-failure state, which carries the negation of those paths.
"""
from absstd import opaque_part, mentions, OPT, RES, UNIT, NONE, some, ok, err, ret, last, parts_of, truth, frz, split_adt

NERR = "nom::Err"


# ------------------------------------------------------------------ positions, chains
EVPOS = {}  # event -> (position before, position after)
EVKEY = {}  # event -> element read there


def ev(st, ident, p, q, kind, data):
    EVPOS[ident] = (p, q)
    if kind == "nt":
        EVKEY[ident] = data
    st.trace = st.trace + ((ident, p, q, kind, data),)


def linearize(trace, start, end, strip=False):
    """Canonical chain of the path start..end: items (kind, data, id) with look-ahead items attached."""
    prod = {}
    by_from = {}
    for e in trace:
        if e[2] is not None:
            prod[e[2]] = e
        by_from.setdefault(e[1], []).append(e)
    main = []
    p = end
    while p != start:
        e = prod.get(p)
        if e is None:
            return None
        main.append(e)
        p = e[1]
    main.reverse()
    onmain = set(id(e) for e in main)
    out = []

    def side_chains(e):
        """maximal chains beginning with side event e"""
        subs = by_from.get(e[2], [])
        cont = [x for x in subs if x[3] not in ("neg", "peek")]
        head = [item(e)] + [item(x) for x in subs if x[3] in ("neg", "peek")]
        if not cont:
            return [head]
        return [head + c for x in cont for c in side_chains(x)]

    def item(e):
        return (e[3], e[4], 0 if strip else e[0])

    p = start
    i = 0
    while True:
        seen = set()
        for e in by_from.get(p, []):
            if id(e) in onmain:
                continue
            if e[3] in ("neg", "peek"):
                it = (e[3], e[4], 0)
                if it not in seen:
                    seen.add(it)
                    out.append(it)
            else:
                for c in side_chains(e):
                    it = ("peek", (strip_chain(tuple(c)),), 0)
                    if it not in seen:
                        seen.add(it)
                        out.append(it)
        if p == end:
            break
        e = main[i]
        out.append(item(e))
        p = e[2]
        i += 1
    # a negation right after a repetition that merely says "no further round" is implied
    res = []
    for it in out:
        if it[0] == "neg" and res:
            k = len(res) - 1
            while k >= 0 and res[k][0] in ("neg", "peek"):
                k -= 1
            if k >= 0 and res[k][0] == "star" and set(it[1]) <= set(strip_chain(c[0]) for c in res[k][1][0]):
                continue
        res.append(it)
    return tuple(res)


def strip_chain(chain):
    return tuple((k, strip_data(k, d), 0) for k, d, _ in chain)


def strip_data(k, d):
    if k == "star":
        return (tuple((strip_chain(c),) for c, *_ in d[0]), d[1], d[2])
    return d


def text_of(I, st, p, q):
    """Literal text between two positions when it is known, else None."""
    prod = {e[2]: e for e in st.trace if e[2] is not None}
    out = []
    while q != p:
        e = prod.get(q)
        if e is None or e[3] != "lit" or e[4][1]:
            return None
        out.append(e[4][0])
        q = e[1]
    return "".join(reversed(out))


def span_text(I, v, st):
    """text value of a span"""
    if v[2] is None:
        return v
    t = text_of(I, st, v[1], v[2])
    if t is not None:
        return ("S", t)
    ch = linearize(st.trace, v[1], v[2])
    if ch is None:
        return v
    I.texts[(v[1], v[2])] = ch
    return v


# ------------------------------------------------------------------ applying
def P(kind, *ch):
    return ("P", kind) + ch


class Out:
    pass


def merge(I, raw, span, st, canfail=None):
    """one recoverable failure carrying the negation of all success paths"""
    oks = [r for r in raw if r[0] == "ok"]
    errs = [r for r in raw if r[0] == "err"]
    rest = [r for r in raw if r[0] not in ("ok", "err")]
    outs = oks + rest
    if errs:
        s = st.copy()
        prods = []
        n0 = len(st.trace)
        for r in oks:
            g = guard_of(st, r[3])
            ch = linearize(r[3].trace[n0:], span[1], r[1][1], strip=not g)
            if ch is None:
                ch = (("opaque", None, 0),)
            if g:
                ch = ch + (("guard", g, 0),)
            prods.append(ch)
        if prods:
            ev(s, I.fresh(), span[1], None, "neg", tuple(dict.fromkeys(prods)))
        outs.append(("err", s))
    return outs


def guard_of(st0, st):
    if st0.facts == st.facts:
        return None
    d = frozenset((k, x) for k, x in st.facts.items() if st0.facts.get(k) != x and k[0] not in ("same",))
    return d or None


def is_layout_char(c):
    return c in " \t\r\n"


def layout_chain(chain):
    """ 'yes' | 'eps' | None """
    com = False
    some_ = False
    for k, d, _ in chain:
        if k in ("neg", "peek"):
            continue
        if k == "gap":
            some_ = True
            continue
        if k == "lit":
            t = d[0]
            for c in t:
                if c == ";":
                    com = True
                elif not is_layout_char(c) and not com:
                    return None
                if c in "\r\n":
                    com = False
            some_ = True
            continue
        if k == "cls":
            cs = d[0]
            if cs[0] == "in" and all(is_layout_char(c) for c in cs[1]):
                some_ = True
                continue
            if com:
                continue
            return None
        if k == "star":
            for c, *_r in d[0]:
                r = layout_chain((("lit", (";", False), 0),) + c if com else c)
                if r is None:
                    return None
            some_ = True
            continue
        if k == "eof":
            continue
        return None
    return "yes" if some_ else "eps"


TRANSP = ("map", "value", "seq", "alt", "opt", "many", "seplist", "ref", "fn", "recognize", "foldmany", "count")


def apply(I, p, span, st):
    """-> outcomes ('ok',span,val,st) ('err',st) ('fail',st,why) ('inc',st) ('panic',v,st) ('unk',v,st)"""
    pv = I.deref(p, st)
    if pv[0] != "P":
        raw = apply_fn(I, p, pv, span, st)
        raw = merge(I, raw, span, st)
    elif pv[1] in ("lit", "cls", "nt"):
        return atom(I, pv, span, st)
    else:
        raw = KINDS[pv[1]](I, pv, span, st)
        raw = merge(I, raw, span, st)
    # collapse layout-only sub-parsers
    oks = [r for r in raw if r[0] == "ok"]
    if oks and span[2] is None and all(r[0] in ("ok", "err") for r in raw):
        n0 = len(st.trace)
        kinds = []
        chains = []
        for r in oks:
            new = r[3].trace[n0:]
            if len(oks) == 1 and len(new) == 1 and new[0][3] == "gap":
                return raw
            if not simple_value(r[2], r[3]):
                return raw
            ch = linearize(new, span[1], r[1][1], strip=True)
            if ch is None:
                return raw
            k = layout_chain(ch)
            if k is None:
                return raw
            kinds.append(k)
            chains.append(ch)
        if "yes" in kinds:
            vals = set(I.canon(r[2], r[3]) for r in oks)
            ident = I.fresh()
            q = I.fresh()
            s = st.copy()
            ev(s, ident, span[1], q, "gap", tuple(dict.fromkeys(chains)))
            val = vals.pop() if len(vals) == 1 and oks[0][2] == UNIT else ("Span", span[1], q)
            out = [("ok", ("Span", q, None), val, s)]
            if any(r[0] == "err" for r in raw):
                s2 = st.copy()
                ev(s2, I.fresh(), span[1], None, "neg", tuple((("gap", (c,), 0),) for c in chains) if False else ((("gap", tuple(dict.fromkeys(chains)), 0),),))
                out.append(("err", s2))
            return out
    return raw


def simple_value(v, st):
    t = v[0]
    if t in ("Span", "S", "Txt", "K"):
        return True
    if t == "T":
        return all(simple_value(x, st) for x in v[1])
    if t == "L":
        return True
    if t == "A":
        return v[1] == OPT and all(simple_value(x, st) for x in v[3])
    if t == "Sym":
        return v[1][0] == "gapval"
    return False


def atom(I, pv, span, st):
    kind, data = pv[1], pv[2]
    if span[2] is not None:
        return bounded_atom(I, pv, span, st)
    ident = I.fresh()
    q = I.fresh()
    s = st.copy()
    if kind == "cls" and data[2] == 0:
        return [("ok", span, span, s)]
    gap = False
    if kind == "cls" and data[0][0] == "in" and all(is_layout_char(c) for c in data[0][1]):
        gap = True
    if kind == "lit" and data[0] and all(is_layout_char(c) for c in data[0]):
        gap = True
    if gap:
        item = ((kind, data, 0),)
        ev(s, ident, span[1], q, "gap", (item,))
        neg = (("gap", (item,), 0),)
    else:
        ev(s, ident, span[1], q, kind, data)
        neg = ((kind, data, 0),)
    val = ("Span", span[1], q)
    if kind == "nt":
        val = ("Sym", ("ev", ident), pv[3])
    out = [("ok", ("Span", q, None), val, s)]
    if kind == "cls" and len(pv) > 3 and pv[3] == "char":
        out = [("ok", ("Span", q, None), ("Sym", ("char", ("Txt", span[1], q)), None), s)]
        if len(data[0][1]) == 1 and data[0][0] == "in":
            out = [("ok", ("Span", q, None), ("K", ord(data[0][1])), s)]
    if kind == "lit" and len(pv) > 3 and pv[3] == "char":
        out = [("ok", ("Span", q, None), ("K", ord(data[0])), s)]
    if kind == "cls" and data[1] == 0:
        return out
    if kind == "lit" and data[0] == "":
        return [("ok", span, ("S", ""), st.copy())]
    s2 = st.copy()
    ev(s2, I.fresh(), span[1], None, "neg", (neg,))
    out.append(("err", s2))
    return out


def bounded_atom(I, pv, span, st):
    return [("unk", "parser on a bounded sub-text", st)]


def apply_fn(I, p, pv, span, st):
    if pv[0] == "Sym":
        return atom(I, ("P", "nt", ("param", pv[1]), None), span, st)
    if pv[0] == "S":
        return atom(I, ("P", "lit", (pv[1], False)), span, st)
    outs = []
    for k, v, s in I.call(p if p[0] == "R" else pv, [span], st.copy()):
        outs.extend(from_result(I, k, v, s))
    return outs


def from_result(I, k, v, s):
    if k != "ret":
        return [(k, v, s)]
    v = I.deref(v, s)
    if v[0] == "Sym":
        return [("unk", "opaque parser result " + str(v[1])[:100], s)]
    if v[0] != "A" or v[1] != RES:
        return [("unk", "parser result " + str(v)[:100], s)]
    if v[2] == 0:
        t = I.deref(v[3][0], s)
        if t[0] != "T":
            return [("unk", "parser result pair", s)]
        sp = I.deref(t[1][0], s)
        if sp[0] != "Span":
            return [("unk", "parser remainder " + str(sp)[:80], s)]
        return [("ok", sp, t[1][1], s)]
    e = I.deref(v[3][0], s)
    if e[0] == "A" and e[1] == NERR:
        return [[("inc", s)], [("err", s)], [("fail", s, I.stack[-1][1] if I.stack else "")]][e[2]]
    if e[0] == "Sym" and e[1][0] == "nomerr":
        return [("err", s)]
    return [("err", s)]


def to_result(I, o):
    k = o[0]
    e = ("Sym", ("err",), None)
    if k == "ok":
        return ("ret", ok(("T", (o[1], o[2]))), o[3])
    if k == "err":
        return ("ret", err(("A", NERR, 1, (e,))), o[1])
    if k == "fail":
        return ("ret", err(("A", NERR, 2, (e,))), o[1])
    if k == "inc":
        return ("ret", err(("A", NERR, 0, (e,))), o[1])
    return o


def call_parser(I, f, args, st):
    sp = I.deref(args[0], st)
    if sp[0] == "T" and len(sp[1]) == 1:
        sp = I.deref(sp[1][0], st)
    if sp[0] == "S":
        return [("unk", "parser on literal text", st)]
    if sp[0] != "Span":
        return [("unk", "parser input " + str(sp)[:60], st)]
    return [to_result(I, o) for o in apply(I, f, sp, st)]


# ------------------------------------------------------------------ kinds
def k_seq(I, pv, span, st):
    """('P','seq',(parsers...),selector) selector: 'tuple' | index"""
    cur = [(span, (), st)]
    outs = []
    for q in pv[2]:
        nxt = []
        for sp, vals, s in cur:
            for o in apply(I, q, sp, s):
                if o[0] == "ok":
                    nxt.append((o[1], vals + (o[2],), o[3]))
                else:
                    outs.append(o)
        cur = nxt
    sel = pv[3]
    for sp, vals, s in cur:
        if sel == "tuple":
            v = ("T", vals)
        elif sel == "unit":
            v = UNIT
        elif isinstance(sel, tuple):
            v = ("T", tuple(vals[i] for i in sel))
        else:
            v = vals[sel]
        outs.append(("ok", sp, v, s))
    return outs


def k_alt(I, pv, span, st):
    outs = []
    cur = st
    for q in pv[2]:
        if cur is None:
            break
        nxt = None
        for o in apply(I, q, span, cur):
            if o[0] == "err":
                nxt = o[1]
            else:
                outs.append(o)
        cur = nxt
    if cur is not None:
        outs.append(("err", cur))
    return outs


def k_map(I, pv, span, st):
    outs = []
    for o in apply(I, pv[2], span, st):
        if o[0] != "ok":
            outs.append(o)
            continue
        for k, v, s in I.call(pv[3], [o[2]], o[3]):
            outs.append(("ok", o[1], v, s) if k == "ret" else (k, v, s))
    return outs


def k_map_opt(I, pv, span, st):
    outs = []
    good = pv[4]  # variant index of success: Option 1 / Result 0
    for o in apply(I, pv[2], span, st):
        if o[0] != "ok":
            outs.append(o)
            continue
        for k, v, s in I.call(pv[3], [o[2]], o[3]):
            if k != "ret":
                outs.append((k, v, s))
                continue
            for v2, s2 in split_adt(I, v, s):
                if v2[0] != "A":
                    outs.append(("unk", "map_opt result", s2))
                elif v2[2] == good:
                    outs.append(("ok", o[1], v2[3][0], s2))
                else:
                    outs.append(("err", s2))
    return outs


def k_verify(I, pv, span, st):
    outs = []
    for o in apply(I, pv[2], span, st):
        if o[0] != "ok":
            outs.append(o)
            continue
        for k, v, s in I.call(pv[3], [("R", ("val", I.freeze(o[2], o[3])), ())], o[3]):
            if k != "ret":
                outs.append((k, v, s))
                continue
            tr = truth(I, v, s)
            if tr is None:
                outs.append(("unk", "verify predicate", s))
                continue
            for b, s2 in tr:
                outs.append(("ok", o[1], o[2], s2) if b else ("err", s2))
    return outs


def k_and_then(I, pv, span, st):
    """p then q on the text p matched"""
    outs = []
    for o in apply(I, pv[2], span, st):
        if o[0] != "ok":
            outs.append(o)
            continue
        txt = I.deref(o[2], o[3])
        if txt[0] == "Sym" and txt[1][0] == "gapval":
            outs.append(("unk", "and_then on layout", o[3]))
            continue
        if txt[0] != "Span":
            outs.append(("unk", "and_then on " + txt[0], o[3]))
            continue
        q = I.deref(pv[3], o[3])
        r = inner_number(I, q, txt, o[3])
        if r is not None:
            for kd, val, s in r:
                outs.append(("ok", o[1], val, s) if kd == "ok" else ("fail", s, val) if kd == "fail" else (kd, s))
            continue
        outs.append(("unk", "and_then with an unknown inner parser", o[3]))
    return outs


def inner_number(I, q, txt, st):
    """A number parser run on an already delimited text."""
    if q[0] == "Fn":
        fp = I.F.callees[q[1]].get("rpath") or I.F.callees[q[1]]["path"]
        if fp.startswith("nom::number::complete::"):
            ty = {"float": "f32", "double": "f64"}.get(fp.split("::")[3].split("<")[0])
            if ty:
                q = ("P", "float", ty)
    if q[0] == "P" and q[1] in ("float", "all_consuming") or q[0] == "P" and q[1] == "rest":
        if q[1] == "all_consuming":
            return inner_number(I, I.deref(q[2], st), txt, st)
        if q[1] == "rest":
            return [("ok", txt, st)]
        ty = q[2]
        if text_is_number(I, txt, st, ty):
            return [("ok", ("Sym", ("num", ty, I.canon(txt, st)), I.number_ty(ty)), st)]
        # the number in front of the delimited text is taken, whatever follows it is dropped
        s2, s3 = st.copy(), st.copy()
        r = []
        c = I.canon(txt, st)
        if I.assume_bool(st, ("nomnum", ty, c), 1):
            r.append(("ok", ("Sym", ("num", ty, c), I.number_ty(ty)), st))
        if I.assume_bool(s2, ("nomnum", ty, c), 0):
            r.append(("err", None, s2))
        if I.assume_bool(s3, ("nomnum", ty, c), 0) and I.assume_bool(s3, ("nomexp", ty, c), 1):
            r.append(("fail", "malformed exponent", s3))
        return r
    if q[0] == "P" and q[1] == "map":
        r = inner_number(I, I.deref(q[2], st), txt, st)
        if r is None:
            return None
        out = []
        for kd, v, s in r:
            if kd != "ok":
                out.append((kd, v, s))
                continue
            for k, v2, s2 in I.call(q[3], [v], s):
                out.append(("ok", v2, s2) if k == "ret" else (k, v2, s2))
        return out
    return None


def text_is_number(I, v, st, ty):
    """Does every text this value can be belong to the (total) decimal syntax of f32/f64?"""
    if ty not in ("f32", "f64"):
        return False
    v = I.deref(v, st)
    if v[0] == "S":
        import re

        return re.fullmatch(r"\d+(\.\d*)?|\.\d+", v[1]) is not None
    if v[0] in ("Span", "Txt") and v[2] is not None:
        ch = linearize(st.trace, v[1], v[2], strip=True)
        return ch is not None and I.lex_subset(ch, "decimal")
    return False


def k_opt(I, pv, span, st):
    outs = []
    for o in apply(I, pv[2], span, st):
        if o[0] == "ok":
            outs.append(("ok", o[1], some(o[2]), o[3]))
        elif o[0] == "err":
            outs.append(("ok", span, NONE, o[1]))
        else:
            outs.append(o)
    return outs


def k_value(I, pv, span, st):
    outs = []
    for o in apply(I, pv[3], span, st):
        if o[0] == "ok":
            outs.append(("ok", o[1], pv[2], o[3]))
        else:
            outs.append(o)
    return outs


def k_recognize(I, pv, span, st):
    outs = []
    for o in apply(I, pv[2], span, st):
        if o[0] == "ok":
            t = ("Span", span[1], o[1][1])
            v = span_text(I, t, o[3])
            if pv[3]:
                v = ("T", (v, o[2]))
            outs.append(("ok", o[1], t if not pv[3] else v, o[3]))
        else:
            outs.append(o)
    return outs


def k_peek(I, pv, span, st):
    outs = []
    for o in apply(I, pv[2], span, st):
        if o[0] == "ok":
            s = st.copy()
            n0 = len(st.trace)
            ch = linearize(o[3].trace[n0:], span[1], o[1][1], strip=True)
            ev(s, I.fresh(), span[1], None, "peek", (ch,))
            outs.append(("ok", span, o[2], s))
        else:
            outs.append(o)
    return outs


def k_not(I, pv, span, st):
    outs = []
    for o in apply(I, pv[2], span, st):
        if o[0] == "ok":
            outs.append(("err", o[3]))
        elif o[0] == "err":
            outs.append(("ok", span, UNIT, o[1]))
        else:
            outs.append(o)
    return outs


def k_cut(I, pv, span, st):
    outs = []
    for o in apply(I, pv[2], span, st):
        outs.append(("fail", o[1], "cut") if o[0] == "err" else o)
    return outs


def k_cond(I, pv, span, st):
    outs = []
    for b, s in truth(I, pv[2], st) or []:
        if b:
            for o in apply(I, pv[3], span, s):
                outs.append(("ok", o[1], some(o[2]), o[3]) if o[0] == "ok" else o)
        else:
            outs.append(("ok", span, NONE, s))
    return outs


def k_eof(I, pv, span, st):
    s = st.copy()
    q = I.fresh()
    ev(s, I.fresh(), span[1], q, "eof", None)
    s2 = st.copy()
    ev(s2, I.fresh(), span[1], None, "neg", ((("eof", None, 0),),))
    return [("ok", ("Span", q, None), ("S", ""), s), ("err", s2)]


def k_all_consuming(I, pv, span, st):
    return k_seq(I, ("P", "seq", (pv[2], P("eof")), 0), span, st)


def k_success(I, pv, span, st):
    return [("ok", span, pv[2], st.copy())]


def k_fail(I, pv, span, st):
    return [("err", st.copy())]


def k_into(I, pv, span, st):
    outs = []
    for o in apply(I, pv[2], span, st):
        if o[0] != "ok":
            outs.append(o)
            continue
        outs.append(("unk", "nom into()", o[3]))
    return outs


def k_flat_map(I, pv, span, st):
    outs = []
    for o in apply(I, pv[2], span, st):
        if o[0] != "ok":
            outs.append(o)
            continue
        for k, v, s in I.call(pv[3], [o[2]], o[3]):
            if k != "ret":
                outs.append((k, v, s))
            else:
                outs.extend(apply(I, v, o[1], s))
    return outs


def star_of(I, item, span, st, lo, hi):
    """repetition event; -> (event outcome or None, other outcomes, prods [(chain, conds, value, state)])"""
    start = I.fresh()
    s0 = st.copy()
    s0.trace = ()
    bodies = []
    other = []
    for o in apply(I, item, ("Span", start, None), s0):
        if o[0] == "ok":
            ch = linearize(o[3].trace, start, o[1][1])
            bodies.append((ch, guard_of(st, o[3]) or frozenset(), I.freeze(o[2], o[3]), o[3], o[1][1] == start))
        elif o[0] == "err":
            pass
        else:
            other.append(o)
    return start, bodies, other


def after_rounds(I, sb, st, bodies, span, start):
    """state of something that happens in a round, some complete rounds having gone before"""
    s = sb.copy()
    mine = s.trace
    s.trace = st.trace
    data = (tuple((b[0] + ((("guard", b[1], 0),) if b[1] else ()),) for b in bodies if not b[4]), 0, None)
    ev(s, I.fresh(), span[1], start, "star", data)
    s.trace = s.trace + mine
    return s


def k_many(I, pv, span, st):
    """('P','many',item,min,max,collect) collect: 'list'|'count'|('fold',init,f)"""
    item, lo, hi, coll = pv[2], pv[3], pv[4], pv[5]
    if hi is not None and hi <= 3:
        return k_many_small(I, item, lo, hi, coll, span, st)
    start, bodies, other = star_of(I, item, span, st, lo, hi)
    if I.unroll and coll != "count" and not other and any(b[0] is None or layout_chain(strip_chain(b[0])) is None for b in bodies):
        return k_unrolled(I, item, lo, coll, span, st)
    outs = []
    for o in other:
        # panics/failures inside a round: report with the state before the repetition
        if o[0] == "unk":
            outs.append((o[0], o[1], o[2]))
        elif o[0] == "panic":
            outs.append((o[0], o[1], after_rounds(I, o[2], st, bodies, span, start)))
        else:
            outs.append((o[0], after_rounds(I, o[1], st, bodies, span, start)) + tuple(o[2:]))
    if any(b[4] for b in bodies):
        I.note_empty_round(pv, bodies)
        bodies = [b for b in bodies if not b[4]]
    ident = I.fresh()
    q = I.fresh()
    s = st.copy()
    n = set(x for b in bodies for x in b[3].notes)
    if n - set(s.notes):
        s.notes = s.notes + tuple(sorted(n - set(s.notes), key=repr))
    data = (tuple((b[0] + ((("guard", b[1], 0),) if b[1] else ()),) for b in bodies), lo, hi)
    ev(s, ident, span[1], q, "star", data)
    key = ("ev", ident)
    which = lambda i: frozenset([(("body", key), i)]) if len(bodies) > 1 else frozenset()
    ps = (("sp", key, tuple((b[1] | which(i), (("e", b[2]),)) for i, b in enumerate(bodies))),)
    if coll == "list":
        outs.append(("ok", ("Span", q, None), ("L", ps), s))
    elif coll == "count":
        outs.append(("ok", ("Span", q, None), ("Sym", ("len", key), None), s))
    else:
        for k, v, s2 in I.call(coll[1], [], s):
            if k != "ret":
                outs.append((k, v, s2))
                continue
            import absstd

            for k3, v3, s3 in absstd.m_fold(I, {"path": "fold"}, [("It", ps), v, coll[2]], s2, None) or [("unk", "fold", s2)]:
                outs.append(("ok", ("Span", q, None), v3, s3) if k3 == "ret" else (k3, v3, s3))
    if lo > 0:
        outs.append(("err", st.copy()))
    return outs


def k_unrolled(I, item, lo, coll, span, st):
    """repetition of few rounds, one after another; texts with more rounds are left open"""
    outs, oks = [], []
    cur = [(span, (), st)]
    for i in range(I.unroll + 1):
        nxt = []
        for sp, vals, s in cur:
            for o in apply(I, item, sp, s):
                if o[0] == "ok":
                    if o[1] == sp:
                        outs.append(("unk", "round without progress", o[3]))
                    elif i == I.unroll:
                        outs.append(("unk", "more rounds than are looked at", o[3]))
                    else:
                        nxt.append((o[1], vals + (o[2],), o[3]))
                elif o[0] == "err":
                    if i >= lo:
                        oks.append((sp, vals, o[1]))
                    else:
                        outs.append(o)
                else:
                    outs.append(o)
        cur = nxt
    for sp, vals, s in oks:
        if coll == "list":
            outs.append(("ok", sp, ("L", tuple(("e", x) for x in vals)), s))
            continue
        import absstd

        for k, v, s2 in I.call(coll[1], [], s):
            if k != "ret":
                outs.append((k, v, s2))
                continue
            for k3, v3, s3 in absstd.m_fold(I, {"path": "fold"}, [("It", tuple(("e", x) for x in vals)), v, coll[2]], s2, None) or [("unk", "fold", s2)]:
                outs.append(("ok", sp, v3, s3) if k3 == "ret" else (k3, v3, s3))
    return outs


def k_many_small(I, item, lo, hi, coll, span, st):
    outs = []
    cur = [(span, (), st)]
    for i in range(hi):
        nxt = []
        for sp, vals, s in cur:
            for o in apply(I, item, sp, s):
                if o[0] == "ok":
                    nxt.append((o[1], vals + (o[2],), o[3]))
                elif o[0] == "err":
                    if i >= lo:
                        outs.append(("ok", sp, vals, o[1]))
                    else:
                        outs.append(o)
                else:
                    outs.append(o)
        cur = nxt
    for sp, vals, s in cur:
        outs.append(("ok", sp, vals, s))
    res = []
    for o in outs:
        if o[0] == "ok":
            if coll == "list":
                v = ("L", tuple(("e", x) for x in o[2]))
            elif coll == "count":
                v = ("K", len(o[2]))
            else:
                res.append(("unk", "bounded fold", o[3]))
                continue
            res.append(("ok", o[1], v, o[3]))
        else:
            res.append(o)
    return res


def k_seplist(I, pv, span, st):
    """separated_list: first item, then (sep item)*"""
    sep, item, lo = pv[2], pv[3], pv[4]
    outs = []
    tail = P("many", P("seq", (sep, item), 1), 0, None, "list")
    for o in apply(I, item, span, st):
        if o[0] == "err":
            if lo == 0:
                outs.append(("ok", span, ("L", ()), o[1]))
            else:
                outs.append(o)
        elif o[0] == "ok":
            for o2 in apply(I, tail, o[1], o[3]):
                if o2[0] == "ok":
                    l = I.deref(o2[2], o2[3])
                    outs.append(("ok", o2[1], ("L", (("e", o[2]),) + l[1]), o2[3]))
                else:
                    outs.append(o2)
        else:
            outs.append(o)
    return outs


def k_many_till(I, pv, span, st):
    # many items until the terminator matches: star of (not term, item) then term
    item, term = pv[2], pv[3]
    body = P("seq", (P("not", term), item), 1)
    return k_seq(I, ("P", "seq", (P("many", body, 0, None, "list"), term), "tuple"), span, st)


def k_float(I, pv, span, st):
    if span[2] is not None:
        return [("unk", "number parser on a bounded sub-text", st)]
    ident, q = I.fresh(), I.fresh()
    s = st.copy()
    ev(s, ident, span[1], q, "num", pv[2])
    s2 = st.copy()
    ev(s2, I.fresh(), span[1], None, "neg", ((("num", pv[2], 0),),))
    outs = [("ok", ("Span", q, None), ("Sym", ("num", pv[2], ("Span", span[1], q)), I.number_ty(pv[2])), s), ("err", s2)]
    if pv[2] in ("f32", "f64"):
        # nom commits to an exponent once it has read the letter
        bad = st.copy()
        i3, q3 = I.fresh(), I.fresh()
        ev(bad, i3, span[1], q3, "numfail", pv[2])
        outs.append(("fail", bad, "malformed exponent"))
    return outs


def k_rest(I, pv, span, st):
    return atom(I, ("P", "cls", (("not", ""), 0, None)), span, st)


def k_streaming(I, pv, span, st):
    s = st.copy()
    outs = apply(I, pv[2], span, st)
    return outs + [("inc", s)]


def k_complete(I, pv, span, st):
    outs = []
    for o in apply(I, pv[2], span, st):
        outs.append(("err", o[1]) if o[0] == "inc" else o)
    return outs


def k_unknown(I, pv, span, st):
    return [("unk", "unmodelled parser " + str(pv[2]), st)]


KINDS = {
    "seq": k_seq, "alt": k_alt, "map": k_map, "map_opt": k_map_opt, "verify": k_verify, "and_then": k_and_then,
    "opt": k_opt, "value": k_value, "recognize": k_recognize, "peek": k_peek, "not": k_not, "cut": k_cut, "cond": k_cond,
    "eof": k_eof, "all_consuming": k_all_consuming, "success": k_success, "fail": k_fail, "into": k_into, "flat_map": k_flat_map,
    "many": k_many, "seplist": k_seplist, "many_till": k_many_till, "float": k_float, "rest": k_rest, "streaming": k_streaming,
    "complete": k_complete, "unknown": k_unknown,
}

# ------------------------------------------------------------------ constructors
ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
DIGIT = "0123456789"


def S(v):
    return ("ret", v)


def items(I, v, st):
    v = I.deref(v, st)
    if v[0] == "T":
        return list(v[1])
    if v[0] == "L" and all(p[0] == "e" for p in v[1]):
        return [p[1] for p in v[1]]
    return None


def lit(I, v, st):
    v = I.deref(v, st)
    if v[0] == "S":
        return v[1]
    if v[0] == "K":
        return chr(v[1])
    if v[0] == "L":
        return None
    return None


def charset(I, v, st):
    """char set from a list of characters (&str or [char])"""
    v = I.deref(v, st)
    if v[0] == "S":
        return "".join(sorted(set(v[1])))
    if v[0] == "L" and all(p[0] == "e" and p[1][0] == "K" for p in v[1]):
        return "".join(sorted(set(chr(p[1][1]) for p in v[1])))
    return None


PROBE = [chr(i) for i in range(128)] + ["\u00e9", "\u00df", "\u0434", "\u4e2d", "\u0663", "\u2028", "\u00a0", "\U0001f600"]


def pred_class(I, f, st):
    """character class of a predicate: evaluated abstractly on each character of the alphabet"""
    yes = []
    no = []
    for c in PROBE:
        rs = I.call(f, [("K", ord(c))], st.copy())
        vals = set()
        for k, v, s in rs:
            if k != "ret":
                return None
            v = I.deref(v, s)
            if v[0] != "K":
                return None
            vals.add(v[1])
        if len(vals) != 1:
            return None
        (yes if vals.pop() else no).append(c)
    non = [c for c in yes if ord(c) > 127]
    if not non:
        return ("in", "".join(yes))
    if all(c in yes for c in PROBE if ord(c) > 127):
        return ("not", "".join(no))
    return ("in+", "".join(yes))


def mk(I, fn, args, st, dty):
    path = fn["path"]
    name = last(path)
    stream = "::streaming::" in path
    r = mk2(I, name, path, args, st, fn)
    if r is None:
        return None
    if stream:
        r = P("streaming", r)
    return [("ret", r, st)]


def cls(cs, lo, hi, ch=None):
    if ch:
        return ("P", "cls", (cs, lo, hi), ch)
    return ("P", "cls", (cs, lo, hi))


def mk2(I, name, path, a, st, fn):
    mod = path.split("::")[1] if path.startswith("nom::") else ""
    fr = lambda v: I.freeze(v, st)
    if mod == "sequence":
        if name in ("tuple",):
            xs = items(I, a[0], st)
            return P("seq", tuple(fr(x) for x in xs), "tuple") if xs is not None else None
        if name == "pair":
            return P("seq", (fr(a[0]), fr(a[1])), "tuple")
        if name == "preceded":
            return P("seq", (fr(a[0]), fr(a[1])), 1)
        if name == "terminated":
            return P("seq", (fr(a[0]), fr(a[1])), 0)
        if name == "delimited":
            return P("seq", (fr(a[0]), fr(a[1]), fr(a[2])), 1)
        if name == "separated_pair":
            return P("seq", (fr(a[0]), fr(a[1]), fr(a[2])), (0, 2))
    if mod == "branch":
        xs = items(I, a[0], st)
        if name == "alt" and xs is not None:
            return P("alt", tuple(fr(x) for x in xs))
        return P("unknown", path)
    if mod == "combinator":
        if name == "map":
            return P("map", fr(a[0]), fr(a[1]))
        if name == "map_opt":
            return P("map_opt", fr(a[0]), fr(a[1]), 1)
        if name == "map_res":
            return P("map_opt", fr(a[0]), fr(a[1]), 0)
        if name == "map_parser":
            return P("and_then", fr(a[0]), fr(a[1]))
        if name == "flat_map":
            return P("flat_map", fr(a[0]), fr(a[1]))
        if name == "opt":
            return P("opt", fr(a[0]))
        if name == "cond":
            return P("cond", a[0], fr(a[1]))
        if name == "value":
            return P("value", fr(a[0]), fr(a[1]))
        if name == "verify":
            return P("verify", fr(a[0]), fr(a[1]))
        if name == "recognize":
            return P("recognize", fr(a[0]), False)
        if name == "consumed":
            return P("recognize", fr(a[0]), True)
        if name == "peek":
            return P("peek", fr(a[0]))
        if name == "not":
            return P("not", fr(a[0]))
        if name == "cut":
            return P("cut", fr(a[0]))
        if name == "complete":
            return P("complete", fr(a[0]))
        if name == "all_consuming":
            return P("all_consuming", fr(a[0]))
        if name == "success":
            return P("success", fr(a[0]))
        if name == "into":
            return P("into", fr(a[0]))
        return P("unknown", path)
    if mod == "error" and name == "context":
        return P("seq", (fr(a[1]),), 0)
    if mod == "multi":
        if name == "many0":
            return P("many", fr(a[0]), 0, None, "list")
        if name == "many1":
            return P("many", fr(a[0]), 1, None, "list")
        if name in ("many0_count", "many1_count"):
            return P("many", fr(a[0]), int(name[4]), None, "count")
        if name == "many_m_n":
            lo, hi = I.deref(a[0], st), I.deref(a[1], st)
            if lo[0] == hi[0] == "K":
                return P("many", fr(a[2]), lo[1], hi[1] if hi[1] < 1 << 31 else None, "list")
        if name in ("separated_list0", "separated_list1"):
            return P("seplist", fr(a[0]), fr(a[1]), int(name[-1]))
        if name in ("fold_many0", "fold_many1"):
            return P("many", fr(a[0]), int(name[-1]), None, ("fold", fr(a[1]), fr(a[2])))
        if name == "many_till":
            return P("many_till", fr(a[0]), fr(a[1]))
        if name == "count":
            n = I.deref(a[1], st)
            if n[0] == "K":
                return P("many", fr(a[0]), n[1], n[1], "list")
        return P("unknown", path)
    if mod == "bytes":
        if name in ("tag", "tag_no_case"):
            t = lit(I, a[0], st)
            return ("P", "lit", (t, name == "tag_no_case")) if t is not None else P("unknown", "tag of non-constant text")
        if name == "is_a":
            cs = charset(I, a[0], st)
            return cls(("in", cs), 1, None) if cs is not None else P("unknown", path)
        if name == "is_not":
            cs = charset(I, a[0], st)
            return cls(("not", cs), 1, None) if cs is not None else P("unknown", path)
        if name in ("take_while", "take_while1", "take_till", "take_till1"):
            cs = pred_class(I, a[0], st)
            if cs is None:
                return P("unknown", path)
            if "till" in name:
                cs = {"in": ("not", cs[1]), "not": ("in", cs[1])}.get(cs[0])
                if cs is None:
                    return P("unknown", path)
            return cls(cs, 1 if name.endswith("1") else 0, None)
        if name == "take_while_m_n":
            cs = pred_class(I, a[2], st)
            lo, hi = I.deref(a[0], st), I.deref(a[1], st)
            if cs is not None and lo[0] == hi[0] == "K":
                return cls(cs, lo[1], hi[1])
        return P("unknown", path)
    if mod == "character":
        if name == "char":
            t = lit(I, a[0], st)
            return ("P", "lit", (t, False), "char") if t is not None else P("unknown", path)
        if name in ("one_of", "none_of"):
            cs = charset(I, a[0], st)
            if cs is None:
                return P("unknown", path)
            return cls(("in" if name == "one_of" else "not", cs), 1, 1, "char")
        if name == "satisfy":
            cs = pred_class(I, a[0], st)
            return cls(cs, 1, 1, "char") if cs is not None else P("unknown", path)
        if name in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"):
            return P("float", name)
        base = {"alpha": ALPHA, "digit": DIGIT, "alphanumeric": "".join(sorted(ALPHA + DIGIT)), "multispace": "\t\n\r ", "space": "\t ",
                "hex_digit": DIGIT + "abcdefABCDEF"}
        if name[:-1] in base and name[-1] in "01":
            return cls(("in", "".join(sorted(base[name[:-1]]))), int(name[-1]), None)
        if name == "newline":
            return ("P", "lit", ("\n", False), "char")
        if name == "tab":
            return ("P", "lit", ("\t", False), "char")
        if name == "crlf":
            return ("P", "lit", ("\r\n", False))
        if name == "line_ending":
            return P("alt", (("P", "lit", ("\n", False)), ("P", "lit", ("\r\n", False))))
        if name == "not_line_ending":
            return cls(("not", "\r\n"), 0, None)
        if name == "anychar":
            return cls(("not", ""), 1, 1, "char")
        return P("unknown", path)
    if mod == "number":
        if name in ("float", "double"):
            return P("float", {"float": "f32", "double": "f64"}[name])
        return P("unknown", path)
    return None


DIRECT = ("multispace0", "multispace1", "space0", "space1", "alpha0", "alpha1", "digit0", "digit1", "alphanumeric0", "alphanumeric1",
          "newline", "tab", "crlf", "line_ending", "not_line_ending", "anychar", "float", "double", "eof", "rest", "fail", "recognize_float",
          "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "hex_digit0", "hex_digit1", "rest_len")


def direct(I, fn, args, st, dty):
    """nom functions that are themselves parsers: called with the input"""
    name = last(fn["path"])
    if name in ("eof", "rest", "fail"):
        p = P(name)
    elif name in ("rest_len", "recognize_float"):
        p = P("unknown", name)
    else:
        p = mk2(I, name, fn["path"], [], st, fn)
    if "::streaming::" in fn["path"]:
        p = P("streaming", p)
    return call_parser(I, p, args, st)


def m_parser_method(I, fn, args, st, dty):
    name = last(fn["path"])
    fr = lambda v: I.freeze(v, st)
    if name == "parse":
        return I.call(args[0], args[1:], st)
    if name == "map":
        return [("ret", P("map", fr(args[0]), fr(args[1])), st)]
    if name == "and_then":
        return [("ret", P("and_then", fr(args[0]), fr(args[1])), st)]
    if name == "flat_map":
        return [("ret", P("flat_map", fr(args[0]), fr(args[1])), st)]
    if name == "and":
        return [("ret", P("seq", (fr(args[0]), fr(args[1])), "tuple"), st)]
    if name == "or":
        return [("ret", P("alt", (fr(args[0]), fr(args[1]))), st)]
    if name == "into":
        return [("ret", P("into", fr(args[0])), st)]
    return None


def m_oneshot(I, fn, args, st, dty):
    """legacy direct-application forms are not modelled"""
    return None


def m_fragment(I, fn, args, st, dty):
    d = I.deref(args[0], st)
    if d[0] == "Span":
        return ret(span_text(I, d, st), st)
    if d[0] in ("S", "Txt"):
        return ret(d, st)
    return None


def m_span_new(I, fn, args, st, dty):
    d = I.deref(args[0], st)
    return ret(d, st)


def m_error(I, fn, args, st, dty):
    return ret(("Sym", ("err",), dty), st)


def m_finish(I, fn, args, st, dty):
    return None


def register(I):
    I.texts = {}
    for m in ("parse", "map", "and_then", "flat_map", "and", "or", "into"):
        I.models["nom::Parser::" + m] = m_parser_method
    I.models["nom_locate::LocatedSpan::<T, X>::fragment"] = m_fragment
    I.models["nom_locate::LocatedSpan::<T, X>::into_fragment"] = m_fragment
    I.models["nom_locate::LocatedSpan::<T, X>::into_fragment_and_extra"] = m_fragment
    I.models["nom_locate::LocatedSpan::<T>::new"] = m_span_new
    I.models["nom::error::make_error"] = m_error
    I.models["nom::error::ParseError::from_error_kind"] = m_error
    I.models["nom::error::ParseError::append"] = m_error
    I.models["nom::error::Error::<I>::new"] = m_error


def nom_call(I, fn, args, st, dty):
    p = fn["path"]
    if not p.startswith("nom::"):
        return None
    parts = p.split("::")
    if parts[1] in ("sequence", "branch", "combinator", "multi", "bytes", "character", "number", "error"):
        name = parts[-1]
        if name in DIRECT and len(args) == 1 and parts[1] in ("character", "number", "combinator"):
            a = I.deref(args[0], st)
            if a[0] == "Span":
                return direct(I, fn, args, st, dty)
        return mk(I, fn, args, st, dty)
    return None


# ------------------------------------------------------------------ loops
class Probe(Exception):
    pass


def summarize_loop(I, ix, b, fid, st, header, blocks):
    its = [c for c, v in st.mem.items() if v[0] == "It" and any(p[0] == "sp" for p in v[1])]
    spans = [c for c, v in st.mem.items() if c[0] == fid and v[0] == "Span" and v[2] is None]
    if not its and not spans:
        return None
    # which iterator does the loop advance?
    I.probes.append([])
    try:
        I.probe_on = True
        outs = I._run(ix, b, fid, st.copy(), header, blocks, header)
    finally:
        hits = I.probes.pop()
        I.probe_on = bool(I.probes)
    cells = [c for c in dict.fromkeys(hits) if c in st.mem]
    if cells:
        return loop_over(I, ix, b, fid, st, header, blocks, cells[0])
    if spans:
        backs = [o for o in outs if o[0] == "back"]
        if any(o[0] == "unk" for o in outs) or not backs:
            return None
        moved = [c for c in spans if all(o[2].mem.get(c) != st.mem[c] for o in backs)]
        if len(moved) == 1 and all(len(o[2].trace) > len(st.trace) for o in backs):
            if I.unroll:
                return "unroll"
            return loop_parse(I, ix, b, fid, st, header, blocks, moved[0])
    return None


def split_outs(outs):
    backs = [o[2] for o in outs if o[0] == "back"]
    exits = [(o[2], o[1]) for o in outs if o[0] == "exit"]
    rest = [o for o in outs if o[0] not in ("back", "exit")]
    return backs, exits, rest


def acc_paths(I, old, new, path=()):
    """paths at which a list value changed"""
    if old == new:
        return []
    if old[0] == "L" and new[0] == "L":
        return [path]
    if old[0] == new[0] == "A" and old[1:3] == new[1:3] and len(old[3]) == len(new[3]):
        r = []
        for i, (x, y) in enumerate(zip(old[3], new[3])):
            q = acc_paths(I, x, y, path + (i,))
            if q is None:
                return None
            r += q
        return r
    if old[0] == new[0] == "T" and len(old[1]) == len(new[1]):
        r = []
        for i, (x, y) in enumerate(zip(old[1], new[1])):
            q = acc_paths(I, x, y, path + (i,))
            if q is None:
                return None
            r += q
        return r
    if old[0] == "K" and new[0] == "K" and old[1] in (0, 1) and new[1] in (0, 1):
        return [path + ("bool",)]
    return None


def changed_cells(I, st, states, skip, fid, live):
    accs, bools = {}, {}
    for s in states:
        for c, v in st.mem.items():
            if c in skip or c not in s.mem or s.mem[c] is v:
                continue
            if c[0] == fid and c[1] not in live:
                continue
            ps = acc_paths(I, v, s.mem[c])
            if ps is None:
                # temporaries that are always rewritten before use are harmless only if never read; give up
                if v[0] in ("Unk",):
                    continue
                return None
            for p in ps:
                if p and p[-1] == "bool":
                    bools[(c, p[:-1])] = 1
                else:
                    accs[(c, p)] = 1
    return list(accs), list(bools)


def loop_over(I, ix, b, fid, st, header, blocks, cell):
    done, conts = [], []
    work = [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 200:
            return None
        it = s.mem[cell]
        if it[0] != "It":
            return None
        parts = it[1]
        if not parts or parts[0][0] == "e":
            bk, ex, rest = split_outs(I._run(ix, b, fid, s.copy(), header, blocks, header))
            work.extend(bk)
            conts.extend(ex)
            done.extend(rest)
            continue
        if opaque_part(parts[0]):
            return None
        key, prods = parts[0][1], parts[0][2]
        # one generic round per production
        rounds = []
        plain = []
        for conds, sub in prods:
            s0 = s.copy()
            for k, x in conds:
                s0.facts[k] = x
            if any(q[0] != "e" for q in sub):
                return None
            s0.mem[cell] = ("It", sub)
            if not sub:
                continue
            plain.append((s0, len(sub)))

        def run_round(mod):
            res = []
            for s0, k in plain:
                cur = [s0.copy()]
                for c in cur:
                    mod(c)
                exits_, rest_ = [], []
                for _ in range(k):
                    nx = []
                    for c in cur:
                        bk, ex, rest = split_outs(I._run(ix, b, fid, c, header, blocks, header))
                        nx += bk
                        exits_ += ex
                        rest_ += rest
                    cur = nx
                res.append((cur, exits_, rest_))
            return res

        first = run_round(lambda c: None)
        allb = [x for r in first for x in r[0]]
        ch = changed_cells(I, s, allb, {cell}, fid, I.live_at(ix, header, blocks))
        if ch is None:
            return None
        accs, bools = ch
        exits = [x for r in first for x in r[1]]
        rests = [x for r in first for x in r[2]]
        if accs and bools:
            return None
        delta = lambda s2: frozenset((k, x) for k, x in s2.facts.items() if s.facts.get(k) != x)
        if accs:
            if exits or any(r[0] == "ret" for r in rests):
                return None
            marks = {a: ("sp", ("ACC", I.fresh()), ()) for a in accs}

            def setmarks(c):
                for (cc, p), m in marks.items():
                    I.store(c, cc, p, ("L", (m,)))

            rr = run_round(setmarks)
            newp = {a: [] for a in accs}
            for cur, ex_, rest_ in rr:
                done.extend(r for r in rest_ if r[0] in ("panic", "unk"))
                for c in cur:
                    for a, m in marks.items():
                        v = I.load(c, a[0], a[1])
                        if v[0] != "L" or not v[1] or v[1][0] != m or m in v[1][1:]:
                            return None
                        add = (delta(c), tuple(frz(I, q, c) for q in v[1][1:]))
                        if mentions(add, {x[1] for x in marks.values()}):
                            return None  # what is added depends on what was added before
                        newp[a].append(add)
            s2 = s.copy()
            for a in accs:
                old = I.load(s2, a[0], a[1])
                I.store(s2, a[0], a[1], ("L", old[1] + (("sp", key, tuple(newp[a])),)))
            s2.mem[cell] = ("It", parts[1:])
            work.append(s2)
            continue
        if bools:
            if exits or any(r[0] == "ret" for r in rests) or len(bools) > 1:
                return None
            done.extend(r for r in rests if r[0] in ("panic", "unk"))
            bc = bools[0]
            a0 = I.load(s, bc[0], bc[1])[1]
            hits = frozenset(delta(c) for c in allb if I.load(c, bc[0], bc[1]) != ("K", a0))
            rr = run_round(lambda c: I.store(c, bc[0], bc[1], ("K", 1 - a0)))
            for cur, ex_, rest_ in rr:
                if ex_ or any(I.load(c, bc[0], bc[1]) != ("K", 1 - a0) for c in cur):
                    return None
            for hit, s3 in any_split(I, key, hits, s):
                s3 = s3.copy()
                s3.mem[cell] = ("It", parts[1:])
                if hit:
                    I.store(s3, bc[0], bc[1], ("K", 1 - a0))
                work.append(s3)
            continue
        # no accumulation: possibly an early exit
        stops = [("exit", x[0], x[1]) for x in exits] + [("ret", x[2], x[1]) for x in rests if x[0] == "ret"]
        done.extend(r for r in rests if r[0] in ("panic", "unk"))
        if stops:
            hits = frozenset(delta(x[1]) for x in stops)
            for hit, s3 in any_split(I, key, hits, s):
                s3 = s3.copy()
                if not hit:
                    s3.mem[cell] = ("It", parts[1:])
                    work.append(s3)
                    continue
                seen = set()
                for kind, sx, v in stops:
                    if kind == "ret":
                        if v[0] == "K":
                            if v in seen:
                                continue
                            seen.add(v)
                            s4 = s3.copy()
                            done.append(("ret", v, s4))
                        else:
                            done.append(("ret", v, sx))
                    else:
                        # restore the facts to the generic ones, keep the memory
                        s4 = sx.copy()
                        s4.facts = dict(s3.facts)
                        sig = (v, tuple(sorted(((c, repr(x)) for c, x in s4.mem.items() if c[0] == fid), key=repr)))
                        if sig in seen:
                            continue
                        seen.add(sig)
                        conts.append((s4, v))
        else:
            s2 = s.copy()
            s2.mem[cell] = ("It", parts[1:])
            work.append(s2)
    return done, conts


def any_split(I, key, hits, s):
    import absstd

    if not hits:
        return [(0, s)]
    if frozenset() in hits:
        r = absstd.len_ge(I, ("Sym", ("len", key), None), 1, s)
    else:
        r = I.boolsym(("any", key, hits), s)
    return truth(I, r, s)


def loop_parse(I, ix, b, fid, st, header, blocks, cell):
    start = I.fresh()

    def one(mod):
        s0 = st.copy()
        s0.trace = ()
        s0.mem[cell] = ("Span", start, None)
        mod(s0)
        return s0, split_outs(I._run(ix, b, fid, s0.copy(), header, blocks, header))

    base, (backs, ex, rest) = one(lambda c: None)
    ch = changed_cells(I, base, backs, {cell}, fid, I.live_at(ix, header, blocks))
    if ch is None or ch[1]:
        return None
    accs = ch[0]
    marks = {a: ("sp", ("ACC", I.fresh()), ()) for a in accs}

    def setmarks(c):
        for (cc, p), m in marks.items():
            I.store(c, cc, p, ("L", (m,)))

    base, (backs, ex, rest) = one(setmarks)
    bodies = []
    for s in backs:
        q = s.mem[cell]
        chn = linearize(s.trace, start, q[1])
        if chn is None or q[1] == start:
            return None
        g = guard_of(base, s) or frozenset()
        adds = {}
        for a, m in marks.items():
            v = I.load(s, a[0], a[1])
            if v[0] != "L" or not v[1] or v[1][0] != m or m in v[1][1:]:
                return None
            adds[a] = tuple(frz(I, x, s) for x in v[1][1:])
        bodies.append((chn, g, adds))
    ident, q = I.fresh(), I.fresh()
    s = st.copy()
    pos = st.mem[cell][1]
    ev(s, ident, pos, q, "star", (tuple((c + ((("guard", g, 0),) if g else ()),) for c, g, _ in bodies), 0, None))
    s.mem[cell] = ("Span", q, None)
    which = lambda i: frozenset([(("body", ("ev", ident)), i)]) if len(bodies) > 1 else frozenset()
    for a in accs:
        old = I.load(s, a[0], a[1])
        I.store(s, a[0], a[1], ("L", old[1] + (("sp", ("ev", ident), tuple((g | which(i), ad[a]) for i, (_, g, ad) in enumerate(bodies))),)))
    bk, ex, rest = split_outs(I._run(ix, b, fid, s, header, blocks, header))
    return rest, ex
