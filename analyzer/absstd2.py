"""More std models: functions on sequences whose elements are enumerated one by one, and on known texts.

Every model here is exact; where the sequence is symbolic or a comparison is not decided, the model declines (None) and the call
is treated as unknown.
"""
from absstd import (FALSE, NONE, ORD, TRUE, UNIT, cell_of, err, iterable_parts, last, ok, parts_of, reg, ret, some, split_adt, truth, MODELS, m_reorder, m_str_case, m_str_pred, m_strip, m_reverse)
import fl as flt

IT = "std::iter::Iterator::"
VEC = ("std::vec::Vec::<T, A>::", "std::vec::Vec::<T>::")
SL = ("core::slice::<impl [T]>::", "std::slice::<impl [T]>::", "alloc::slice::<impl [T]>::")
STR = ("core::str::<impl str>::", "std::str::<impl str>::", "alloc::str::<impl str>::")
STRING = ("std::string::String::", "alloc::string::String::")
SETS = ("std::collections::HashSet::<T, S, A>::", "std::collections::HashSet::<T, S>::", "std::collections::HashSet::<T>::", "std::collections::BTreeSet::<T, A>::", "std::collections::BTreeSet::<T>::",
        "std::collections::BTreeSet::<T, A>::")
WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def REF(v):
    return ("R", ("val", v), ())


def enum(ps):
    """values of an enumerated sequence, None when some part is symbolic"""
    if ps is None or any(p[0] != "e" for p in ps):
        return None
    return [p[1] for p in ps]


def conc(I, v, st):
    return enum(parts_of(I, v, st))


def It(vs):
    return ("It", tuple(("e", v) for v in vs))


def L(vs):
    return ("L", tuple(("e", v) for v in vs))


def steps(items, acc, st, step, done):
    """step(item, acc, st) -> [(tag, x, st)] with tag: ret (next accumulator), stop (final value), or another outcome kind"""
    outs = []
    cur = [(acc, st)]
    for it in items:
        nxt = []
        for a, s in cur:
            for k, x, s2 in step(it, a, s.copy()):
                if k == "ret":
                    nxt.append((x, s2))
                elif k == "stop":
                    outs.append(("ret", x, s2))
                else:
                    outs.append((k, x, s2))
        cur = nxt
    for a, s in cur:
        r = done(a, s)
        outs += r if isinstance(r, list) else [("ret", r, s)]
    return outs


def ask(I, f, args, s, yes, no):
    """call a predicate; yes/no(state) -> outcome triples"""
    out = []
    for k, r, s2 in I.call(f, args, s):
        if k != "ret":
            out.append((k, r, s2))
            continue
        tr = truth(I, r, s2)
        if tr is None:
            out.append(("unk", "predicate", s2))
            continue
        for b, s3 in tr:
            out.append((yes if b else no)(s3))
    return out


# ------------------------------------------------------------------ comparing
def bodies_by_path(I):
    c = I.__dict__.get("_by_path")
    if c is None:
        c = {}
        for i, b in enumerate(I.F.bodies):
            c.setdefault(b["path"], i)
        I.__dict__["_by_path"] = c
    return c


def own(I, v, trait, meth):
    if v[0] == "A" and v[1].startswith("crate::"):
        c = bodies_by_path(I)
        p = "<%s as %s>::%s" % (v[1], trait, meth)
        if p in c:
            return c[p]
        for q, i in c.items():
            if q.startswith("<" + v[1] + "<") and q.endswith(" as %s>::%s" % (trait, meth)):
                return i
    return None


def deep_eq(I, a, b, st):
    """[(0/1, st)], or None"""
    from absstd import eq_values

    if I.cut is not None:
        # a check may supply equality of its own leaves
        for x in (a,):
            fn = {"path": "std::cmp::PartialEq::eq"}
            r = I.cut(I, fn, None, [REF(a), REF(b)], st, None)
            if r is not None and all(k == "ret" for k, _, _ in r):
                out = []
                for k, v, s in r:
                    t = truth(I, v, s)
                    if t is None:
                        return None
                    out += t
                return out
    da, db = I.deref(a, st), I.deref(b, st)
    ix = own(I, da, "std::cmp::PartialEq", "eq") or own(I, db, "std::cmp::PartialEq", "eq") if (da[0] == "A" and db[0] == "A" and da[1] == db[1]) else None
    if ix is not None:
        out = []
        for k, v, s in I.exec(ix, [REF(I.freeze(da, st)), REF(I.freeze(db, st))], st.copy()):
            if k != "ret":
                return None
            t = truth(I, v, s)
            if t is None:
                return None
            out += t
        return out
    la, lb = (x[1] if x[0] in ("L", "It") else None for x in (da, db))
    if la is not None and lb is not None:
        la, lb = enum(la), enum(lb)
        if la is None or lb is None:
            return None
        return eq_all(I, la, lb, st)
    if da[0] == "T" and db[0] == "T":
        return eq_all(I, list(da[1]), list(db[1]), st)
    if da[0] == "A" and db[0] == "A" and da[1] == db[1]:
        if da[2] != db[2]:
            return [(0, st)]
        return eq_all(I, list(da[3]), list(db[3]), st)
    r = eq_values(I, da, db, st)
    return truth(I, r, st) if r is not None else None


def eq_all(I, xs, ys, st):
    if len(xs) != len(ys):
        return [(0, st)]
    out, cur = [], [st]
    for x, y in zip(xs, ys):
        nxt = []
        for s in cur:
            t = deep_eq(I, x, y, s)
            if t is None:
                return None
            for b, s2 in t:
                if b:
                    nxt.append(s2)
                else:
                    out.append((0, s2))
        cur = nxt
    return out + [(1, s) for s in cur]


def order_of(I, a, b, st):
    """-1/0/1 when decided on this state, None otherwise"""
    da, db = I.deref(a, st), I.deref(b, st)
    for tr, m in (("std::cmp::Ord", "cmp"), ("std::cmp::PartialOrd", "partial_cmp")):
        ix = own(I, da, tr, m) if da[0] == "A" and db[0] == "A" and da[1] == db[1] else None
        if ix is not None:
            outs = I.exec(ix, [REF(I.freeze(da, st)), REF(I.freeze(db, st))], st.copy())
            if len(outs) != 1 or outs[0][0] != "ret":
                return None
            v = I.deref(outs[0][1], outs[0][2])
            if v[0] == "A" and v[1].endswith("::Option"):
                v = v[3][0] if v[3] else ("?",)
            return v[2] - 1 if v[0] == "A" and v[1] == ORD else None
    if da[0] == "K" and db[0] == "K":
        return (da[1] > db[1]) - (da[1] < db[1])
    if da[0] == "S" and db[0] == "S":
        x, y = da[1].encode(), db[1].encode()
        return (x > y) - (x < y)
    if da[0] == "Fl" and db[0] == "Fl":
        c = flt.cmp(da, db)
        return None if c is None else c - 1
    if da[0] == "T" and db[0] == "T" or (da[0] == "A" and db[0] == "A" and da[1] == db[1]):
        if da[0] == "A" and da[2] != db[2]:
            return -1 if da[2] < db[2] else 1
        for x, y in zip(da[-1], db[-1]):
            c = order_of(I, x, y, st)
            if c != 0:
                return c
        return 0
    la, lb = (enum(x[1]) if x[0] in ("L", "It") else None for x in (da, db))
    if la is not None and lb is not None:
        for x, y in zip(la, lb):
            c = order_of(I, x, y, st)
            if c != 0:
                return c
        return (len(la) > len(lb)) - (len(la) < len(lb))
    return None


def ord_value(c):
    return ("A", ORD, c + 1, ())


def ord_result(I, v, st):
    v = I.deref(v, st)
    return v[2] - 1 if v[0] == "A" and v[1] == ORD else None


class Undecided(Exception):
    pass


def sort_values(I, vs, st, cmpf):
    import functools

    def c(a, b):
        r = cmpf(a, b)
        if r is None:
            raise Undecided()
        return r

    return sorted(vs, key=functools.cmp_to_key(c))


def cmp_by(I, st, f=None, key=None):
    """comparison function over values: natural, by comparator closure, or by key closure (all on the same state)"""
    def one(fv, args):
        outs = I.call(fv, args, st.copy())
        if len(outs) != 1 or outs[0][0] != "ret":
            raise Undecided()
        return outs[0][1], outs[0][2]

    if f is not None:
        def c(a, b):
            v, s = one(f, [REF(a), REF(b)])
            return ord_result(I, v, s)
        return c
    if key is not None:
        def c(a, b):
            v, s = one(key, [REF(a)])
            w, s2 = one(key, [REF(b)])
            return order_of(I, I.freeze(v, s), I.freeze(w, s2), st)
        return c
    return lambda a, b: order_of(I, a, b, st)


# ------------------------------------------------------------------ iterators
def adaptor(g):
    def m(I, fn, args, st, dty):
        vs = conc(I, args[0], st)
        if vs is None:
            return None
        # a by-reference iterator keeps the rest afterwards
        if args[0][0] == "R" and args[0][1][0] != "val":
            c = cell_of(I, args[0], st)
            if c is not None and c[1][0] != "val":
                v = I.load(st, c[1], c[2])
                if v[0] == "It" and last(fn["path"]) not in ("by_ref",):
                    I.store(st, c[1], c[2], I.unk("partly consumed iterator"))
        return g(I, last(fn["path"]), vs, args, st, dty)

    return m


def g_find(I, n, vs, args, st, dty):
    f = args[1]
    back = n.startswith("r") and n != "reduce"
    order = list(enumerate(vs))
    if back:
        order.reverse()

    def step(iv, a, s):
        i, v = iv
        if n in ("find", "rfind"):
            return ask(I, f, [REF(v)], s, lambda s2: ("stop", some(v), s2), lambda s2: ("ret", a, s2))
        if n in ("position", "rposition"):
            return ask(I, f, [v], s, lambda s2: ("stop", some(("K", i)), s2), lambda s2: ("ret", a, s2))
        out = []  # find_map
        for k, r, s2 in I.call(f, [v], s):
            if k != "ret":
                out.append((k, r, s2))
                continue
            for r2, s3 in split_adt(I, r, s2):
                if r2[0] != "A":
                    out.append(("unk", "find_map", s3))
                else:
                    out.append(("stop", r2, s3) if r2[2] == 1 else ("ret", a, s3))
        return out

    return steps(order, None, st, step, lambda a, s: NONE)


def g_while(I, n, vs, args, st, dty):
    f = args[1]
    # acc: (taking/skipping flag, kept values)
    def step(v, a, s):
        on, kept = a
        if n == "take_while":
            if not on:
                return [("ret", a, s)]
            return ask(I, f, [REF(v)], s, lambda s2: ("ret", (True, kept + (v,)), s2), lambda s2: ("ret", (False, kept), s2))
        if n == "skip_while":
            if not on:
                return [("ret", (False, kept + (v,)), s)]
            return ask(I, f, [REF(v)], s, lambda s2: ("ret", (True, kept), s2), lambda s2: ("ret", (False, kept + (v,)), s2))
        out = []  # map_while
        if not on:
            return [("ret", a, s)]
        for k, r, s2 in I.call(f, [v], s):
            if k != "ret":
                out.append((k, r, s2))
                continue
            for r2, s3 in split_adt(I, r, s2):
                if r2[0] != "A":
                    out.append(("unk", "map_while", s3))
                else:
                    out.append(("ret", (True, kept + (r2[3][0],)) if r2[2] == 1 else (False, kept), s3))
        return out

    return steps(vs, (True, ()), st, step, lambda a, s: It(a[1]))


def g_pick(I, n, vs, args, st, dty):
    if n == "last":
        return ret(some(vs[-1]) if vs else NONE, st)
    k = I.deref(args[1], st)
    if k[0] != "K":
        return None
    if n == "nth_back":
        vs = list(reversed(vs))
    return ret(some(vs[k[1]]) if k[1] < len(vs) else NONE, st)


def m_nth(I, fn, args, st, dty):
    c = cell_of(I, args[0], st)
    vs = conc(I, args[0], st)
    k = I.deref(args[1], st)
    if vs is None or k[0] != "K":
        return None
    back = last(fn["path"]) == "nth_back"
    i = k[1]
    if c is not None and c[1][0] != "val":
        rest = (vs[: max(0, len(vs) - i - 1)] if back else vs[i + 1:])
        I.store(st, c[1], c[2], It(rest))
    if back:
        vs = list(reversed(vs))
    return ret(some(vs[i]) if i < len(vs) else NONE, st)


def g_extreme(I, n, vs, args, st, dty):
    if not vs:
        return ret(NONE, st)
    try:
        if n.endswith("_by_key"):
            c = cmp_by(I, st, key=args[1])
        elif n.endswith("_by"):
            c = cmp_by(I, st, f=args[1])
        else:
            c = cmp_by(I, st)
        best = vs[0]
        for v in vs[1:]:
            r = c(best, v)
            if r is None:
                return None
            if (n.startswith("max") and r <= 0) or (n.startswith("min") and r > 0):
                best = v
    except Undecided:
        return None
    return ret(some(best), st)


def g_sum(I, n, vs, args, st, dty):
    ds = [I.deref(v, st) for v in vs]
    if not all(d[0] == "K" for d in ds):
        return None
    r = 0 if n == "sum" else 1
    for d in ds:
        r = r + d[1] if n == "sum" else r * d[1]
    return ret(("K", r), st) if r < 2 ** 31 else None


def g_enumerate(I, n, vs, args, st, dty):
    return ret(It([("T", (("K", i), v)) for i, v in enumerate(vs)]), st)


def g_step_by(I, n, vs, args, st, dty):
    k = I.deref(args[1], st)
    if k[0] != "K":
        return None
    if k[1] == 0:
        return [("panic", ("step_by(0)",), st)]
    return ret(It(vs[:: k[1]]), st)


def g_inspect(I, n, vs, args, st, dty):
    def step(v, a, s):
        return [("ret", a, s2) if k == "ret" else (k, r, s2) for k, r, s2 in I.call(args[1], [REF(v) if n == "inspect" else v], s)]

    return steps(vs, None, st, step, lambda a, s: It(vs) if n == "inspect" else UNIT)


def g_partition(I, n, vs, args, st, dty):
    def step(v, a, s):
        return ask(I, args[1], [REF(v)], s, lambda s2: ("ret", (a[0] + (v,), a[1]), s2), lambda s2: ("ret", (a[0], a[1] + (v,)), s2))

    t = I.tk(dty) if dty is not None else {"k": "?"}
    if t["k"] == "tuple" and not all(I.tk(e).get("def", "").endswith("::Vec") for e in t["e"]):
        return None
    return steps(vs, ((), ()), st, step, lambda a, s: ("T", (L(a[0]), L(a[1]))))


def g_unzip(I, n, vs, args, st, dty):
    ds = [I.deref(v, st) for v in vs]
    if not all(d[0] == "T" and len(d[1]) == 2 for d in ds):
        return None
    t = I.tk(dty) if dty is not None else {"k": "?"}
    if t["k"] == "tuple" and not all(I.tk(e).get("def", "").endswith("::Vec") for e in t["e"]):
        return None
    return ret(("T", (L([d[1][0] for d in ds]), L([d[1][1] for d in ds]))), st)


def g_reduce(I, n, vs, args, st, dty):
    if not vs:
        return ret(NONE, st)
    return steps(vs[1:], vs[0], st, lambda v, a, s: I.call(args[1], [a, v], s), lambda a, s: some(a))


def g_rfold(I, n, vs, args, st, dty):
    return steps(list(reversed(vs)), args[1], st, lambda v, a, s: I.call(args[2], [a, v], s), lambda a, s: a)


def g_cmp_iter(I, n, vs, args, st, dty):
    outs = []
    for kd, ps, s in iterable_parts(I, args[1], st):
        if kd != "ret":
            outs.append((kd, ps, s))
            continue
        ws = enum(ps)
        if ws is None:
            return None
        if n in ("eq", "ne"):
            t = eq_all(I, vs, ws, s)
            if t is None:
                return None
            outs += [("ret", ("K", b if n == "eq" else 1 - b), s2) for b, s2 in t]
            continue
        c = order_of(I, L(vs), L(ws), s)
        if c is None:
            return None
        r = {"cmp": ord_value(c), "partial_cmp": some(ord_value(c)), "lt": ("K", int(c < 0)), "le": ("K", int(c <= 0)), "gt": ("K", int(c > 0)), "ge": ("K", int(c >= 0))}[n]
        outs.append(("ret", r, s))
    return outs


def g_size_hint(I, n, vs, args, st, dty):
    return ret(("T", (("K", len(vs)), some(("K", len(vs))))), st)


def m_size_hint(I, fn, args, st, dty):
    vs = conc(I, args[0], st)
    return None if vs is None else g_size_hint(I, "", vs, args, st, dty)


def m_peek(I, fn, args, st, dty):
    vs = conc(I, args[0], st)
    if vs is None:
        return None
    return ret(some(REF(vs[0])) if vs else NONE, st)


def m_by_ref(I, fn, args, st, dty):
    return ret(args[0], st)


# ------------------------------------------------------------------ slices and vectors
def m_slice(I, fn, args, st, dty):
    """functions that only look at a slice"""
    n = last(fn.get("rpath") or fn["path"])
    d = I.deref(args[0], st)
    if d[0] in ("S", "By"):
        return None
    vs = conc(I, d, st)
    if vs is None:
        return None
    a = [I.deref(x, st) for x in args[1:]]
    if n in ("get", "get_mut"):
        if a[0][0] == "K":
            return ret(some(REF(vs[a[0][1]])) if a[0][1] < len(vs) else NONE, st)
        r = span_of(a[0], len(vs))
        if r is None:
            return None
        lo, hi = r
        return ret(some(L(vs[lo:hi])) if lo <= hi <= len(vs) else NONE, st)
    if n == "split_first":
        return ret(some(("T", (REF(vs[0]), L(vs[1:])))) if vs else NONE, st)
    if n == "split_last":
        return ret(some(("T", (REF(vs[-1]), L(vs[:-1])))) if vs else NONE, st)
    if n == "split_at":
        if a[0][0] != "K":
            return None
        if a[0][1] > len(vs):
            return [("panic", ("split_at",), st)]
        return ret(("T", (L(vs[: a[0][1]]), L(vs[a[0][1]:]))), st)
    if n in ("windows", "chunks", "chunks_exact"):
        if a[0][0] != "K" or a[0][1] == 0:
            return None
        k = a[0][1]
        if n == "windows":
            return ret(It([L(vs[i:i + k]) for i in range(len(vs) - k + 1)]), st)
        out = [L(vs[i:i + k]) for i in range(0, len(vs), k)]
        if n == "chunks_exact" and len(vs) % k:
            out = out[:-1]
        return ret(It(out), st)
    if n in ("starts_with", "ends_with"):
        ws = conc(I, args[1], st)
        if ws is None:
            return None
        if len(ws) > len(vs):
            return ret(FALSE, st)
        t = eq_all(I, vs[: len(ws)] if n == "starts_with" else vs[len(vs) - len(ws):], ws, st)
        return None if t is None else [("ret", ("K", b), s) for b, s in t]
    if n == "contains":
        def step(v, acc, s):
            t = deep_eq(I, v, args[1], s)
            if t is None:
                return [("unk", "contains", s)]
            return [("stop", TRUE, s2) if b else ("ret", acc, s2) for b, s2 in t]
        return steps(vs, None, st, step, lambda acc, s: FALSE)
    if n in ("concat", "join"):
        ds = [I.deref(v, st) for v in vs]
        if all(x[0] == "S" for x in ds) and (n == "concat" or a[0][0] == "S"):
            return ret(("S", ("" if n == "concat" else a[0][1]).join(x[1] for x in ds)), st)
        if n == "concat":
            es = [enum(x[1]) if x[0] == "L" else None for x in ds]
            if all(e is not None for e in es):
                return ret(L(sum(es, [])), st)
        return None
    if n == "repeat":
        return ret(L(vs * a[0][1]), st) if a[0][0] == "K" and a[0][1] < 50 else None
    if n in ("is_sorted",):
        cs = [order_of(I, x, y, st) for x, y in zip(vs, vs[1:])]
        return None if None in cs else ret(("K", int(all(c <= 0 for c in cs))), st)
    if n in ("binary_search", "binary_search_by", "binary_search_by_key"):
        try:
            if n == "binary_search":
                c = lambda v: order_of(I, v, args[1], st)
            elif n == "binary_search_by":
                def c(v):
                    outs = I.call(args[1], [REF(v)], st.copy())
                    return ord_result(I, outs[0][1], outs[0][2]) if len(outs) == 1 and outs[0][0] == "ret" else None
            else:
                return None
            cs = [c(v) for v in vs]
        except Undecided:
            return None
        if None in cs or any(x > y for x, y in zip(cs, cs[1:])):
            return None  # not sorted: unspecified result
        eqs = [i for i, x in enumerate(cs) if x == 0]
        if len(eqs) > 1:
            return None
        if eqs:
            return ret(ok(("K", eqs[0])), st)
        return ret(err(("K", sum(1 for x in cs if x < 0))), st)
    return None


def span_of(r, n):
    """(lo, hi) of a range value with known ends"""
    if r[0] != "A":
        return None
    k = r[1].rsplit("::", 1)[-1]
    f = [x[1] if x[0] == "K" else None for x in r[3]]
    if k == "RangeFull":
        return 0, n
    if k == "Range" and None not in f:
        return f[0], f[1]
    if k == "RangeFrom" and None not in f:
        return f[0], max(n, f[0])
    if k == "RangeTo" and None not in f:
        return 0, f[0]
    if k == "RangeToInclusive" and None not in f:
        return 0, f[0] + 1
    if k == "RangeInclusive" and None not in f[:2] and (len(f) < 3 or f[2] in (0, None)):
        return f[0], f[1] + 1
    return None


def m_vec(I, fn, args, st, dty):
    """functions that change a vector (or slice) in place"""
    n = last(fn.get("rpath") or fn["path"])
    c = cell_of(I, args[0], st)
    if c is None or c[1][0] == "val":
        return None
    v = I.load(st, c[1], c[2])
    vs = conc(I, v, st)
    if vs is None:
        return fall(I, fn, args, st, dty, n)
    a = [I.deref(x, st) for x in args[1:]]

    def put(ws, s=st):
        I.store(s, c[1], c[2], L(ws))

    num = a[0][1] if a and a[0][0] == "K" else None
    if n == "truncate":
        if num is None:
            return fall(I, fn, args, st, dty, n)
        put(vs[:num])
        return ret(UNIT, st)
    if n in ("remove", "swap_remove"):
        if num is None:
            return fall(I, fn, args, st, dty, n)
        if num >= len(vs):
            return [("panic", (n + " out of range",), st)]
        x = vs[num]
        if n == "remove":
            put(vs[:num] + vs[num + 1:])
        else:
            ws = list(vs)
            ws[num] = ws[-1]
            put(ws[:-1])
        return ret(x, st)
    if n == "swap":
        j = a[1][1] if a[1][0] == "K" else None
        if num is None or j is None:
            return fall(I, fn, args, st, dty, n)
        if max(num, j) >= len(vs):
            return [("panic", ("swap out of range",), st)]
        ws = list(vs)
        ws[num], ws[j] = ws[j], ws[num]
        put(ws)
        return ret(UNIT, st)
    if n in ("rotate_left", "rotate_right"):
        if num is None:
            return fall(I, fn, args, st, dty, n)
        if num > len(vs):
            return [("panic", (n,), st)]
        k = num if n == "rotate_left" else len(vs) - num
        put(vs[k:] + vs[:k])
        return ret(UNIT, st)
    if n == "split_off":
        if num is None:
            return None
        if num > len(vs):
            return [("panic", (n,), st)]
        put(vs[:num])
        return ret(L(vs[num:]), st)
    if n == "drain":
        r = span_of(a[0], len(vs))
        if r is None:
            return fall(I, fn, args, st, dty, n)
        lo, hi = r
        if not lo <= hi <= len(vs):
            return [("panic", (n,), st)]
        put(vs[:lo] + vs[hi:])
        return ret(It(vs[lo:hi]), st)
    if n == "resize":
        if num is None or num > 50:
            return None
        put(vs[:num] + [args[2]] * max(0, num - len(vs)))
        return ret(UNIT, st)
    if n in ("retain", "retain_mut"):
        def step(v, kept, s):
            return ask(I, args[1], [REF(v)], s, lambda s2: ("ret", kept + (v,), s2), lambda s2: ("ret", kept, s2))

        def done(kept, s):
            put(list(kept), s)
            return UNIT

        return steps(vs, (), st, step, done)
    if n in ("dedup", "dedup_by_key", "dedup_by"):
        def step(v, kept, s):
            if not kept:
                return [("ret", (v,), s)]
            if n == "dedup":
                t = deep_eq(I, kept[-1], v, s)
            elif n == "dedup_by":
                return ask(I, args[1], [REF(v), REF(kept[-1])], s, lambda s2: ("ret", kept, s2), lambda s2: ("ret", kept + (v,), s2))
            else:
                o1 = I.call(args[1], [REF(kept[-1])], s)
                if len(o1) != 1 or o1[0][0] != "ret":
                    return [("unk", n, s)]
                o2 = I.call(args[1], [REF(v)], o1[0][2])
                if len(o2) != 1 or o2[0][0] != "ret":
                    return [("unk", n, s)]
                t = deep_eq(I, o1[0][1], o2[0][1], o2[0][2])
            if t is None:
                return [("unk", n, s)]
            return [("ret", kept if b else kept + (v,), s2) for b, s2 in t]

        def done(kept, s):
            put(list(kept), s)
            return UNIT

        return steps(vs, (), st, step, done)
    if n.startswith("sort"):
        try:
            if n in ("sort", "sort_unstable"):
                cf = cmp_by(I, st)
            elif n in ("sort_by", "sort_unstable_by"):
                cf = cmp_by(I, st, f=args[1])
            else:
                cf = cmp_by(I, st, key=args[1])
            ws = sort_values(I, vs, st, cf)
        except Undecided:
            if I.unroll and len(vs) < 5:
                return sort_split(I, vs, st, n, args, put)
            return fall(I, fn, args, st, dty, n)
        put(ws)
        return ret(UNIT, st)
    return None


def sort_split(I, vs, st, n, args, put):
    """a stable sort of few values by cases of their order"""
    def value(kd, v, s):
        if kd != "ret":
            return [(kd, v, s)]
        out = []
        for w, s2 in split_adt(I, v, s):
            if w[0] != "A" or w[1] != ORD:
                out.append(("unk", "sort", s2))
            else:
                out.append(("ret", w[2] - 1, s2))
        return out

    def cmp(a, b, s):
        a, b = REF(a), REF(b)
        if n in ("sort_by", "sort_unstable_by"):
            return [y for x in I.call(args[1], [a, b], s) for y in value(*x)]
        if n in ("sort", "sort_unstable"):
            return order_split(I, a, b, s, value)
        out = []
        for k, x, s1 in I.call(args[1], [a], s):
            if k != "ret":
                out.append((k, x, s1))
                continue
            for k2, y, s2 in I.call(args[1], [b], s1):
                if k2 != "ret":
                    out.append((k2, y, s2))
                    continue
                out += order_split(I, x, y, s2, value)
        return out

    outs = []
    cur = [((), st)]
    for v in vs:
        nxt = []
        for acc, s in cur:
            todo = [(len(acc), s)]
            while todo:
                i, s1 = todo.pop()
                if i == 0:
                    nxt.append(((v,) + acc, s1))
                    continue
                for k, c, s2 in cmp(acc[i - 1], v, s1.copy()):
                    if k != "ret":
                        outs.append((k, c, s2))
                    elif c > 0:
                        todo.append((i - 1, s2))
                    else:
                        nxt.append((acc[:i] + (v,) + acc[i:], s2))
        cur = nxt
    for acc, s in cur:
        put(list(acc), s)
        outs.append(("ret", UNIT, s))
    return outs


def order_split(I, a, b, s, value):
    da, db = I.deref(a, s), I.deref(b, s)
    c = order_of(I, da, db, s)
    if c is not None:
        return [("ret", c, s)]
    for tr, m in (("std::cmp::Ord", "cmp"),):
        ix = own(I, da, tr, m) or own(I, db, tr, m)
        if ix is not None:
            return [y for x in I.exec(ix, [REF(I.freeze(da, s)), REF(I.freeze(db, s))], s.copy()) for y in value(*x)]
    if any(x[0] not in ("K", "S", "Sym", "Nm") for x in (da, db)):
        return [("unk", "order of " + da[0], s)]
    t = ("cmp", I.canon(da, s), I.canon(db, s))
    out = []
    for i in range(3):
        if t in s.facts:
            if s.facts[t] != i:
                continue
            out.append(("ret", i - 1, s))
            continue
        s2 = s.copy()
        s2.facts[t] = i
        out.append(("ret", i - 1, s2))
    return out


def fall(I, fn, args, st, dty, n):
    return m_reorder(I, fn, args, st, dty)


# ------------------------------------------------------------------ sets
def set_cell(I, a, st):
    c = cell_of(I, a, st)
    if c is None or c[1][0] == "val":
        return None, None
    v = I.load(st, c[1], c[2])
    return c, enum(parts_of(I, v, st))


def canon_set(I, ps, st):
    """distinct values of an enumerated collection, None when some equality is open"""
    out = []
    for v in ps:
        hit = False
        for w in out:
            t = deep_eq(I, v, w, st)
            if t is None or len(t) != 1:
                return None
            hit = hit or bool(t[0][0])
        if not hit:
            out.append(v)
    return out


def m_set(I, fn, args, st, dty):
    n = last(fn.get("rpath") or fn["path"])
    if n in ("insert", "remove", "take", "replace", "get", "contains"):
        c, vs = set_cell(I, args[0], st)
        if c is None:
            vs = conc(I, args[0], st)
        if vs is None:
            return None

        def upd(s, ws):
            I.store(s, c[1], c[2], ("Set", tuple(("e", x) for x in ws)))

        # acc: index of the element found
        def step(iv, a, s):
            i, v = iv
            t = deep_eq(I, v, args[1], s)
            if t is None:
                return [("unk", "set membership", s)]
            out = []
            for b, s2 in t:
                if not b:
                    out.append(("ret", a, s2))
                    continue
                if n == "remove" or n == "take":
                    upd(s2, [w for j, w in enumerate(vs) if j != i])
                    # the collection may list an element twice: remove all copies
                out.append(("stop", {"insert": FALSE, "remove": TRUE, "contains": TRUE, "take": some(v), "get": some(REF(v)), "replace": some(v)}[n], s2))
            return out

        def done(a, s):
            if n in ("insert", "replace"):
                upd(s, vs + [args[1]])
            return {"insert": TRUE, "remove": FALSE, "contains": FALSE, "take": NONE, "get": NONE, "replace": NONE}[n]

        if n in ("remove", "take", "insert", "replace") and c is None:
            return None
        vs2 = canon_set(I, vs, st)
        if vs2 is None:
            return None
        vs = vs2
        return steps(list(enumerate(vs)), None, st, step, done)
    if n == "retain":
        c, vs = set_cell(I, args[0], st)
        if vs is None:
            return None

        def step(v, kept, s):
            return ask(I, args[1], [REF(v)], s, lambda s2: ("ret", kept + (v,), s2), lambda s2: ("ret", kept, s2))

        def done(kept, s):
            I.store(s, c[1], c[2], ("Set", tuple(("e", x) for x in kept)))
            return UNIT

        return steps(vs, (), st, step, done)
    vs = conc(I, args[0], st)
    if vs is None:
        return None
    vs = canon_set(I, vs, st)
    if vs is None:
        return None
    if n == "len":
        return ret(("K", len(vs)), st)
    if n == "is_empty":
        return ret(("K", int(not vs)), st)
    ws = conc(I, args[1], st)
    ws = canon_set(I, ws, st) if ws is not None else None
    if ws is None:
        return None

    def member(x, ys):
        for y in ys:
            t = deep_eq(I, x, y, st)
            if t is None or len(t) != 1:
                raise Undecided()
            if t[0][0]:
                return True
        return False

    try:
        if n == "union":
            r = vs + [w for w in ws if not member(w, vs)]
        elif n == "intersection":
            r = [v for v in vs if member(v, ws)]
        elif n == "difference":
            r = [v for v in vs if not member(v, ws)]
        elif n == "symmetric_difference":
            r = [v for v in vs if not member(v, ws)] + [w for w in ws if not member(w, vs)]
        elif n == "is_subset":
            return ret(("K", int(all(member(v, ws) for v in vs))), st)
        elif n == "is_superset":
            return ret(("K", int(all(member(w, vs) for w in ws))), st)
        elif n == "is_disjoint":
            return ret(("K", int(not any(member(v, ws) for v in vs))), st)
        else:
            return None
    except Undecided:
        return None
    return ret(It(r), st)


# ------------------------------------------------------------------ texts
def text(I, v, st):
    d = I.deref(v, st)
    return d[1] if d[0] == "S" else None


def pattern(I, p, st):
    """list of ('s', text) alternatives, or a predicate on characters; None when unknown"""
    d = I.deref(p, st)
    if d[0] == "S":
        return ("s", d[1])
    if d[0] == "K":
        return ("c", lambda ch: ord(ch) == d[1])
    if d[0] == "L":
        vs = enum(d[1])
        if vs is None:
            return None
        ds = [I.deref(x, st) for x in vs]
        if all(x[0] == "K" for x in ds):
            cs = {x[1] for x in ds}
            return ("c", lambda ch: ord(ch) in cs)
        return None
    if d[0] in ("Clo", "Fn", "PyF"):
        def f(ch):
            outs = I.call(d, [("K", ord(ch))], st.copy())
            if len(outs) != 1 or outs[0][0] != "ret":
                raise Undecided()
            b = I.deref(outs[0][1], outs[0][2])
            if b[0] != "K":
                raise Undecided()
            return bool(b[1])
        return ("c", f)
    return None


def find_all(s, pat):
    """non-overlapping matches [(start, end)]"""
    out = []
    if pat[0] == "s":
        q = pat[1]
        if q == "":
            return [(i, i) for i in range(len(s) + 1)]
        i = s.find(q)
        while i >= 0:
            out.append((i, i + len(q)))
            i = s.find(q, i + len(q))
        return out
    return [(i, i + 1) for i, ch in enumerate(s) if pat[1](ch)]


def rfind_all(s, pat):
    if pat[0] == "s" and pat[1]:
        out, e = [], len(s)
        i = s.rfind(pat[1], 0, e)
        while i >= 0:
            out.append((i, i + len(pat[1])))
            i = s.rfind(pat[1], 0, i)
        return out
    return list(reversed(find_all(s, pat)))


def b_off(s, i):
    return len(s[:i].encode())


ASCII_UP = {i: i - 32 for i in range(97, 123)}
ASCII_LO = {i: i + 32 for i in range(65, 91)}


def ascii_lower(s):
    return s.translate(ASCII_LO)


def m_text(I, fn, args, st, dty):
    n = last(fn.get("rpath") or fn["path"])
    s = text(I, args[0], st)
    if s is None:
        return old(I, fn, args, st, dty, n)
    try:
        r = text_fn(I, n, s, args, st)
    except Undecided:
        return None
    return r if r is None else ret(r, st)


def old(I, fn, args, st, dty, n):
    if n in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case"):
        return m_str_pred(I, fn, args, st, dty)
    if n in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end"):
        return m_str_case(I, fn, args, st, dty)
    if n in ("strip_prefix", "strip_suffix"):
        return m_strip(I, fn, args, st, dty)
    return None


def text_fn(I, n, s, args, st):
    S = lambda x: ("S", x)
    if n in ("trim", "trim_start", "trim_end", "trim_left", "trim_right"):
        a = s.lstrip(WS) if n in ("trim", "trim_start", "trim_left") else s
        return S(a.rstrip(WS) if n in ("trim", "trim_end", "trim_right") else a)
    if n in ("trim_ascii", "trim_ascii_start", "trim_ascii_end"):
        w = "\t\n\x0c\r "
        a = s.lstrip(w) if n != "trim_ascii_end" else s
        return S(a.rstrip(w) if n != "trim_ascii_start" else a)
    if n == "to_ascii_lowercase":
        return S(ascii_lower(s))
    if n == "to_ascii_uppercase":
        return S(s.translate(ASCII_UP))
    if n == "to_lowercase":
        return S(s.lower())
    if n == "to_uppercase":
        return S(s.upper())
    if n in ("char_indices",):
        return It([("T", (("K", b_off(s, i)), ("K", ord(c)))) for i, c in enumerate(s)])
    if n == "lines":
        ls = s.split("\n")
        if ls and ls[-1] == "":
            ls.pop()
        return It([S(x[:-1] if x.endswith("\r") else x) for x in ls])
    if n == "split_whitespace":
        out, cur = [], ""
        for ch in s:
            if ch in WS:
                if cur:
                    out.append(cur)
                cur = ""
            else:
                cur += ch
        if cur:
            out.append(cur)
        return It([S(x) for x in out])
    if n == "split_ascii_whitespace":
        return It([S(x) for x in s.translate({ord(c): " " for c in "\t\n\x0c\r"}).split(" ") if x])
    if n == "is_char_boundary":
        k = I.deref(args[1], st)
        if k[0] != "K":
            return None
        return ("K", int(k[1] in {b_off(s, i) for i in range(len(s) + 1)}))
    if n == "repeat":
        k = I.deref(args[1], st)
        return S(s * k[1]) if k[0] == "K" and k[1] < 100 else None
    if n in ("get",):
        r = span_of(I.deref(args[1], st), len(s.encode()))
        if r is None:
            return None
        offs = {b_off(s, i): i for i in range(len(s) + 1)}
        if r[0] in offs and r[1] in offs and r[0] <= r[1]:
            return some(S(s[offs[r[0]]:offs[r[1]]]))
        return NONE
    if n == "is_ascii":
        return ("K", int(s.isascii()))
    if n == "eq_ignore_ascii_case":
        o = text(I, args[1], st)
        return None if o is None else ("K", int(ascii_lower(s) == ascii_lower(o)))
    if n == "split_at":
        k = I.deref(args[1], st)
        offs = {b_off(s, i): i for i in range(len(s) + 1)}
        if k[0] != "K" or k[1] not in offs:
            return None
        return ("T", (S(s[: offs[k[1]]]), S(s[offs[k[1]]:])))
    if n in ("splitn", "rsplitn"):
        k = I.deref(args[1], st)
        p = pattern(I, args[2], st)
        if k[0] != "K" or p is None or p == ("s", ""):
            return None
        if k[1] == 0:
            return It([])
        if n == "splitn":
            out, pos = [], 0
            for a, b in find_all(s, p)[: k[1] - 1]:
                out.append(s[pos:a])
                pos = b
            return It([S(x) for x in out + [s[pos:]]])
        out, pos = [], len(s)
        for a, b in rfind_all(s, p)[: k[1] - 1]:
            out.append(s[b:pos])
            pos = a
        return It([S(x) for x in out + [s[:pos]]])
    if n in ("replace", "replacen"):
        p = pattern(I, args[1], st)
        o = text(I, args[2], st)
        if p is None or o is None:
            return None
        ms = find_all(s, p)
        if n == "replacen":
            k = I.deref(args[3], st)
            if k[0] != "K":
                return None
            ms = ms[: k[1]]
        out, pos = "", 0
        for a, b in ms:
            out += s[pos:a] + o
            pos = b
        return S(out + s[pos:])
    if len(args) < 2:
        return None
    p = pattern(I, args[1], st)
    if p is None:
        return None
    if n in ("starts_with", "ends_with", "contains", "find", "rfind", "strip_prefix", "strip_suffix", "split_once", "rsplit_once"):
        ms = find_all(s, p)
        if n == "contains":
            return ("K", int(bool(ms)))
        if n == "find":
            return some(("K", b_off(s, ms[0][0]))) if ms else NONE
        if n == "rfind":
            ms = rfind_all(s, p)
            return some(("K", b_off(s, ms[0][0]))) if ms else NONE
        if n == "split_once":
            return some(("T", (S(s[: ms[0][0]]), S(s[ms[0][1]:])))) if ms else NONE
        if n == "rsplit_once":
            ms = rfind_all(s, p)
            return some(("T", (S(s[: ms[0][0]]), S(s[ms[0][1]:])))) if ms else NONE
        if n in ("starts_with", "strip_prefix"):
            m = s.startswith(p[1]) if p[0] == "s" else bool(s) and p[1](s[0])
            if n == "starts_with":
                return ("K", int(m))
            return some(S(s[len(p[1]) if p[0] == "s" else 1:])) if m else NONE
        m = s.endswith(p[1]) if p[0] == "s" else bool(s) and p[1](s[-1])
        if n == "ends_with":
            return ("K", int(m))
        return some(S(s[: len(s) - (len(p[1]) if p[0] == "s" else 1)])) if m else NONE
    if n in ("trim_matches", "trim_start_matches", "trim_end_matches", "trim_left_matches", "trim_right_matches"):
        if p[0] == "s":
            q = p[1]
            if not q or n == "trim_matches":
                return None
            if "start" in n or "left" in n:
                while s.startswith(q):
                    s = s[len(q):]
            else:
                while s.endswith(q):
                    s = s[: -len(q)]
            return S(s)
        if n in ("trim_matches", "trim_start_matches", "trim_left_matches"):
            while s and p[1](s[0]):
                s = s[1:]
        if n in ("trim_matches", "trim_end_matches", "trim_right_matches"):
            while s and p[1](s[-1]):
                s = s[:-1]
        return S(s)
    if n in ("split", "rsplit", "split_terminator", "split_inclusive", "matches", "match_indices"):
        if p == ("s", ""):
            return None
        ms = find_all(s, p)
        if n == "matches":
            return It([S(s[a:b]) for a, b in ms])
        if n == "match_indices":
            return It([("T", (("K", b_off(s, a)), S(s[a:b]))) for a, b in ms])
        out, pos = [], 0
        for a, b in ms:
            out.append(s[pos:b] if n == "split_inclusive" else s[pos:a])
            pos = b
        out.append(s[pos:])
        if n in ("split_terminator", "split_inclusive") and out[-1] == "":
            out.pop()
        if n == "rsplit":
            out.reverse()
        return It([S(x) for x in out])
    return None


def m_string(I, fn, args, st, dty):
    """functions that change a String in place"""
    n = last(fn.get("rpath") or fn["path"])
    c = cell_of(I, args[0], st)
    if c is None or c[1][0] == "val":
        return None
    v = I.load(st, c[1], c[2])
    if v[0] != "S":
        return None
    s = v[1]
    a = [I.deref(x, st) for x in args[1:]]
    offs = {b_off(s, i): i for i in range(len(s) + 1)}

    def put(x):
        I.store(st, c[1], c[2], ("S", x))

    if n == "clear":
        put("")
        return ret(UNIT, st)
    if n == "pop":
        if not s:
            return ret(NONE, st)
        put(s[:-1])
        return ret(some(("K", ord(s[-1]))), st)
    if n == "make_ascii_lowercase":
        put(ascii_lower(s))
        return ret(UNIT, st)
    if n == "make_ascii_uppercase":
        put(s.translate(ASCII_UP))
        return ret(UNIT, st)
    if n == "retain":
        p = pattern(I, args[1], st)
        if p is None or p[0] != "c":
            return None
        try:
            put("".join(ch for ch in s if p[1](ch)))
        except Undecided:
            return None
        return ret(UNIT, st)
    if not a or a[0][0] != "K" and n != "drain":
        return None
    if n in ("truncate", "remove", "insert", "insert_str", "split_off"):
        k = a[0][1]
        if n == "truncate" and k >= len(s.encode()):
            return ret(UNIT, st)
        if k not in offs or (n == "remove" and offs[k] >= len(s)):
            return [("panic", (n,), st)]
        i = offs[k]
        if n == "truncate":
            put(s[:i])
            return ret(UNIT, st)
        if n == "remove":
            put(s[:i] + s[i + 1:])
            return ret(("K", ord(s[i])), st)
        if n == "split_off":
            put(s[:i])
            return ret(("S", s[i:]), st)
        x = chr(a[1][1]) if a[1][0] == "K" else a[1][1] if a[1][0] == "S" else None
        if x is None:
            return None
        put(s[:i] + x + s[i:])
        return ret(UNIT, st)
    if n == "drain":
        r = span_of(a[0], len(s.encode()))
        if r is None or r[0] not in offs or r[1] not in offs:
            return None
        put(s[: offs[r[0]]] + s[offs[r[1]]:])
        return ret(It([("K", ord(x)) for x in s[offs[r[0]]:offs[r[1]]]]), st)
    return None


CHARF = {
    "to_ascii_lowercase": lambda c: ord(ascii_lower(chr(c))),
    "to_ascii_uppercase": lambda c: ord(chr(c).translate(ASCII_UP)),
}


def m_charf(I, fn, args, st, dty):
    d = I.deref(args[0], st)
    n = last(fn.get("rpath") or fn["path"])
    if d[0] != "K":
        return None
    if n in CHARF:
        return ret(("K", CHARF[n](d[1])), st)
    if n == "len_utf8":
        return ret(("K", len(chr(d[1]).encode())), st)
    if n == "eq_ignore_ascii_case":
        o = I.deref(args[1], st)
        return ret(("K", int(ascii_lower(chr(d[1])) == ascii_lower(chr(o[1])))), st) if o[0] == "K" else None
    if n in ("to_lowercase", "to_uppercase"):
        s = chr(d[1])
        return ret(It([("K", ord(x)) for x in (s.lower() if n == "to_lowercase" else s.upper())]), st)
    if n == "to_digit":
        k = I.deref(args[1], st)
        if k[0] != "K":
            return None
        ch = chr(d[1])
        v = int(ch, 36) if ch.isascii() and ch.isalnum() else 99
        return ret(some(("K", v)) if v < k[1] else NONE, st)
    return None


def m_maxmin(I, fn, args, st, dty):
    c = order_of(I, args[0], args[1], st)
    if c is None:
        return None
    n = last(fn["path"])
    return ret(args[1] if (n == "max") == (c <= 0) and not (n == "min" and c <= 0) else args[0], st) if n == "max" else ret(args[0] if c <= 0 else args[1], st)


def m_from_ref(I, fn, args, st, dty):
    return ret(L([I.deref(args[0], st)]), st)


def m_bool_then(I, fn, args, st, dty):
    tr = truth(I, args[0], st)
    if tr is None:
        return None
    out = []
    for b, s in tr:
        if not b:
            out.append(("ret", NONE, s))
        elif last(fn["path"]) == "then_some":
            out.append(("ret", some(args[1]), s))
        else:
            out += [(k, some(r) if k == "ret" else r, s2) for k, r, s2 in I.call(args[1], [], s)]
    return out


def install():
    for n in ("find", "find_map", "position", "rposition"):
        reg(adaptor(g_find), IT + n)
    reg(adaptor(g_find), "std::iter::DoubleEndedIterator::rfind")
    for n in ("take_while", "skip_while", "map_while"):
        reg(adaptor(g_while), IT + n)
    reg(adaptor(g_pick), IT + "last")
    reg(m_nth, IT + "nth", "std::iter::DoubleEndedIterator::nth_back")
    for n in ("max", "min", "max_by", "min_by", "max_by_key", "min_by_key"):
        reg(adaptor(g_extreme), IT + n)
    for n in ("sum", "product"):
        reg(adaptor(g_sum), IT + n)
    reg(adaptor(g_enumerate), IT + "enumerate")
    reg(adaptor(g_step_by), IT + "step_by")
    reg(adaptor(g_inspect), IT + "inspect", IT + "for_each")
    reg(adaptor(g_partition), IT + "partition")
    reg(adaptor(g_unzip), IT + "unzip")
    reg(adaptor(g_reduce), IT + "reduce")
    reg(adaptor(g_rfold), "std::iter::DoubleEndedIterator::rfold")
    for n in ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge"):
        reg(adaptor(g_cmp_iter), IT + n)
    reg(m_size_hint, IT + "size_hint")
    reg(m_by_ref, IT + "by_ref")
    reg(m_peek, "std::iter::Peekable::<I>::peek")
    for c in SL + VEC:
        for n in ("get", "split_first", "split_last", "split_at", "windows", "chunks", "chunks_exact", "starts_with", "ends_with", "concat", "join", "repeat", "is_sorted",
                  "binary_search", "binary_search_by"):
            reg(m_slice, c + n)
        for n in ("truncate", "remove", "swap_remove", "swap", "rotate_left", "rotate_right", "split_off", "drain", "resize", "retain", "retain_mut", "dedup", "dedup_by", "dedup_by_key",
                  "sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key"):
            reg(m_vec, c + n)
        reg(contains_or_old, c + "contains")
    for c in SETS:
        for n in ("insert", "remove", "take", "replace", "get", "contains", "retain", "union", "intersection", "difference", "symmetric_difference", "is_subset", "is_superset", "is_disjoint", "len", "is_empty"):
            o = MODELS.get(c + n)
            reg(both(m_set, o), c + n)
    for c in STR:
        for n in ("trim", "trim_start", "trim_end", "trim_left", "trim_right", "trim_ascii", "trim_ascii_start", "trim_ascii_end", "to_ascii_lowercase", "to_ascii_uppercase", "to_lowercase", "to_uppercase", "char_indices", "lines",
                  "split_whitespace", "split_ascii_whitespace", "is_char_boundary", "repeat", "get", "is_ascii", "eq_ignore_ascii_case", "split_at", "splitn", "rsplitn", "replace", "replacen",
                  "starts_with", "ends_with", "contains", "find", "rfind", "strip_prefix", "strip_suffix", "split_once", "rsplit_once", "trim_matches", "trim_start_matches",
                  "trim_end_matches", "trim_left_matches", "trim_right_matches", "split", "rsplit", "split_terminator", "split_inclusive", "matches", "match_indices"):
            reg(m_text, c + n)
        for n in ("make_ascii_lowercase", "make_ascii_uppercase"):
            reg(m_string, c + n)
    for c in STRING:
        for n in ("clear", "pop", "retain", "truncate", "remove", "insert", "insert_str", "split_off", "drain"):
            reg(m_string, c + n)
    for c in ("core::char::methods::<impl char>::", "std::char::methods::<impl char>::", "core::num::<impl u8>::", "std::num::<impl u8>::"):
        for n in ("to_ascii_lowercase", "to_ascii_uppercase", "len_utf8", "eq_ignore_ascii_case", "to_lowercase", "to_uppercase", "to_digit"):
            reg(m_charf, c + n)
    reg(m_maxmin, "std::cmp::Ord::max", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::min")
    reg(m_from_ref, "core::slice::from_ref", "std::slice::from_ref", "std::array::from_ref", "core::slice::raw::from_ref", "std::slice::raw::from_ref")
    for n in ("then", "then_some"):
        reg(m_bool_then, "core::bool::<impl bool>::" + n, "std::bool::<impl bool>::" + n)


def both(a, b):
    def m(I, fn, args, st, dty):
        r = a(I, fn, args, st, dty)
        return r if r is not None or b is None else b(I, fn, args, st, dty)

    return m


def contains_or_old(I, fn, args, st, dty):
    from absstd import m_contains

    d = I.deref(args[0], st)
    if d[0] in ("L", "It") and all(p[0] == "e" for p in d[1]):
        r = m_slice(I, fn, args, st, dty)
        if r is not None and not any(k == "unk" for k, _, _ in r):
            return r
    return m_contains(I, fn, args, st, dty)


install()
