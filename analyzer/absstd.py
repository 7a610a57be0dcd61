"""Models of the std/core/alloc functions the crate uses (value-flow semantics on abstract values)."""

import fl as flt

ORD = "std::cmp::Ordering"
OPT = "std::option::Option"
RES = "std::result::Result"
UNIT = ("T", ())
TRUE = ("K", 1)
FALSE = ("K", 0)
NONE = ("A", OPT, 0, ())


def some(v):
    return ("A", OPT, 1, (v,))


def ok(v):
    return ("A", RES, 0, (v,))


def err(v):
    return ("A", RES, 1, (v,))


def ret(v, st):
    return [("ret", v, st)]


def last(p):
    """Last path segment, generics stripped."""
    return p.rsplit("::", 1)[-1]


# ------------------------------------------------------------------ lists
def opaque_part(p):
    """elements nothing is known about: the content of a list before an arbitrary round of a loop, or after a call that rearranged it"""
    return p[0] == "sp" and not p[2] and (p[1][0] == "ACC" or len(p[1]) > 1 and isinstance(p[1][1], tuple) and p[1][1][:1] == ("L",))


def mentions(x, terms):
    if isinstance(x, tuple):
        if x in terms:
            return True
        return any(mentions(y, terms) for y in x)
    if isinstance(x, (frozenset, set, list)):
        return any(mentions(y, terms) for y in x)
    return False


def set_order(I, v, ps, st):
    """the elements of a set in the order of iteration: unknown, and without the doubles"""
    v = I.deref(v, st)
    if v[0] == "Set" and (any(p[0] != "e" for p in ps) or I.unroll and len(ps) > 1):
        return (("sp", ("unordered", ("L", canon_parts(I, ps, st, 0))), ()),)
    return ps


def parts_of(I, v, st, opaque=False):
    """Sequence of parts of an iterable value, or None.  opaque: the caller does not look at the elements."""
    v = I.deref(v, st)
    t = v[0]
    if t in ("L", "It", "Set"):
        if not opaque and any(opaque_part(p) for p in v[1]):
            return None
        return v[1]
    if t == "Sym":
        ety = I.elem_ty(v[2]) if v[2] is not None else None
        tk = I.tk(I.F.peel(v[2])) if v[2] is not None else {"k": "?"}
        if tk["k"] == "adt":
            d = tk["def"]
            if d == OPT:
                f = st.facts.get(v[1])
                if f == 0:
                    return ()
                x = ("Sym", ("fld", v[1], 1, 0), ety)
                if f == 1:
                    return (("e", x),)
                return (("sp", ("opt", v[1]), ((frozenset([(v[1], 1)]), (("e", x),)),)),)
            if not (d.startswith("std::") or d.startswith("alloc::") or d.startswith("core::")):
                return None
        return sym_parts(I, v[1], ety, st)
    if t == "A" and v[1] == OPT:
        return (("e", v[3][0]),) if v[2] == 1 else ()
    return None


def sym_parts(I, term, ety, st):
    """Parts of a symbolic sequence, using what is known about its length."""
    lo, hi = len_bounds(st, term)
    if hi is not None and lo == hi:
        return tuple(("e", ("Sym", ("idx", term, i), ety)) for i in range(lo))
    return (("sp", term, ((frozenset(), (("e", ("Sym", ("elt", term), ety)),)),)),)


def len_bounds(st, t):
    return st.facts.get(("lenlo", t), 0), st.facts.get(("lenhi", t))


def length(I, v, st):
    v = I.deref(v, st)
    if v[0] == "By":
        return ("K", len(v[1]))
    if v[0] == "S":
        return ("K", len(v[1].encode()))
    if v[0] in ("Txt", "Span"):
        return ("Sym", ("len", I.canon(v, st)), None)
    if v[0] == "Sym":
        lo, hi = len_bounds(st, v[1])
        if hi is not None and lo == hi:
            return ("K", lo)
        return ("Sym", ("len", v[1]), None)
    ps = parts_of(I, v, st, True)
    if ps is None:
        return I.unk("length of " + v[0])
    if all(p[0] == "e" for p in ps):
        return ("K", len(ps))
    n = sum(1 for p in ps if p[0] == "e")
    key = []
    for p in ps:
        if p[0] == "sp":
            key.append(("splen", p[1], tuple((c, sum(1 for q in x if q[0] == "e")) for c, x in p[2])))
    if n == 0 and len(key) == 1:
        return ("Sym", ("len", ("L", canon_parts(I, ps, st, 0))), None)
    return ("Sym", ("len", ("L", canon_parts(I, ps, st, 0))), None)


def is_empty(I, v, st):
    v = I.deref(v, st)
    if v[0] == "S":
        return ("K", int(v[1] == ""))
    if v[0] in ("Txt", "Span"):
        return I.boolsym(("streq", I.canon(v, st), ("S", "")), st)
    if v[0] == "Sym":
        return len_eq(I, ("Sym", ("len", v[1]), None), 0, st)
    ps = parts_of(I, v, st, True)
    if ps is None:
        return I.unk("is_empty of " + v[0])
    if any(p[0] == "e" for p in ps):
        return FALSE
    if not ps:
        return TRUE
    return len_eq(I, length(I, v, st), 0, st)


def len_eq(I, l, n, st):
    if l[0] == "K":
        return ("K", int(l[1] == n))
    t = l[1][1]
    lo, hi = len_bounds(st, t)
    if n < lo or (hi is not None and n > hi):
        return FALSE
    if hi is not None and lo == hi == n:
        return TRUE
    f = st.facts.get(("leneq", t, n))
    if f is not None:
        return ("K", f)
    return ("Sym", ("leneq", t, n), None)


def len_ge(I, l, n, st):
    if l[0] == "K":
        return ("K", int(l[1] >= n))
    t = l[1][1]
    lo, hi = len_bounds(st, t)
    if lo >= n:
        return TRUE
    if hi is not None and hi < n:
        return FALSE
    if n == 1:
        r = len_eq(I, l, 0, st)
        return ("K", 1 - r[1]) if r[0] == "K" else ("Sym", ("not", r[1]), None)
    return ("Sym", ("lenge", t, n), None)


def assume_len(I, st, term, val):
    """assume_bool for ('leneq'|'lenge', t, n)."""
    kind, t, n = term
    lo, hi = len_bounds(st, t)
    if kind == "leneq":
        if val:
            if n < lo or (hi is not None and n > hi):
                return False
            lo = hi = n
        else:
            if lo == n:
                lo = n + 1
            elif hi == n:
                hi = n - 1
            else:
                st.facts[term] = 0
    else:
        if val:
            lo = max(lo, n)
        else:
            hi = n - 1 if hi is None else min(hi, n - 1)
    if hi is not None and lo > hi:
        return False
    if lo:
        st.facts[("lenlo", t)] = lo
    if hi is not None:
        st.facts[("lenhi", t)] = hi
    return True


def index(I, v, i, st):
    v = I.deref(v, st)
    if not isinstance(i, int):
        i = I.deref(i, st)
        if i[0] == "K":
            i = i[1]
    if v[0] == "Sym":
        if isinstance(i, int):
            if i < 0:
                return ("Sym", ("idxend", v[1], i), I.elem_ty(v[2]))
            return ("Sym", ("idx", v[1], i), I.elem_ty(v[2]))
        return ("Sym", ("idx", v[1], I.canon(i, st)), I.elem_ty(v[2]))
    ps = parts_of(I, v, st)
    if ps is None:
        return I.unk("index of " + v[0])
    if isinstance(i, int):
        if i >= 0:
            if all(p[0] == "e" for p in ps[: i + 1]) and len(ps) > i:
                return ps[i][1]
        else:
            if all(p[0] == "e" for p in ps[i:]) and len(ps) >= -i:
                return ps[i][1]
    return ("Sym", ("idx", ("L", canon_parts(I, ps, st, 0)), i if isinstance(i, int) else I.canon(i, st)), None)


def subslice(I, v, a, b, fe, st):
    v = I.deref(v, st)
    ps = parts_of(I, v, st)
    if ps is None:
        return I.unk("subslice")
    if v[0] == "Sym" and not all(p[0] == "e" for p in ps):
        return ("Sym", ("sub", v[1], a, b, fe), v[2])
    if fe:
        if b == 0 and all(p[0] == "e" for p in ps[:a]):
            return ("L", tuple(ps[a:]))
        if all(p[0] == "e" for p in ps):
            return ("L", tuple(ps[a : len(ps) - b]))
    elif all(p[0] == "e" for p in ps):
        return ("L", tuple(ps[a:b]))
    return I.unk("subslice")


def canon_parts(I, parts, st, depth):
    out = []
    for p in parts:
        if p[0] == "e":
            out.append(("e", I.canon(p[1], st, depth + 1)))
        else:
            prods = []
            for conds, sub in p[2]:
                s2 = st
                if conds:
                    s2 = st.copy()
                    for k, x in conds:
                        s2.facts[k] = x
                prods.append((conds, canon_parts(I, sub, s2, depth + 1)))
            out.append(("sp", p[1], tuple(prods)))
    return tuple(out)


def canon_list(I, v, st, depth):
    ps = canon_parts(I, v[1], st, depth)
    if len(ps) == 1 and ps[0][0] == "sp":
        key, prods = ps[0][1], ps[0][2]
        if len(prods) == 1 and not prods[0][0] and prods[0][1] == (("e", ("Sym", ("elt", key))),):
            return ("Sym", key)
    if ps and all(p[0] == "e" and p[1][0] == "Sym" and p[1][1][0] == "idx" and p[1][1][2] == i for i, p in enumerate(ps)):
        base = ps[0][1][1][1]
        if all(p[1][1][1] == base for p in ps):
            lo, hi = len_bounds(st, base)
            if lo == hi == len(ps):
                return ("Sym", base)
    return ("L", ps)


class NeedUnknown(Exception):
    pass


CHANGED = ("take", "skip", "rev", "step_by", "truncate", "dedup")


def changed(I, name, ps, st, extra, dty):
    """an iterator over a list of which only the call that changes it is known"""
    key = (name, ("L", canon_parts(I, ps, st, 0))) + extra
    t = dty
    for _ in range(6):
        k = I.tk(I.F.peel(t)) if t is not None else {"k": "?"}
        args = [a for a in k.get("args", ()) if isinstance(a, int)] if k["k"] == "adt" else []
        if not args:
            break
        t = args[0]
        if not k["def"].startswith("std::iter::"):
            I.changed_ty.setdefault(key, t)
            break
    return ("It", (("sp", key, ()),))


def parts_open(I, v, st):
    """parts for a caller that goes through the elements in order: also those of a list after rev, take and the like"""
    ps = parts_of(I, v, st, True)
    if ps is None or any(opaque_part(p) and p[1][0] not in CHANGED for p in ps):
        return None
    return ps


def map_parts(I, parts, f, st):
    """f(value, st) -> outcomes with value = tuple of parts.  -> (list of (parts, st)), other outcomes"""
    cur = [((), st)]
    other = []
    for p in parts:
        nxt = []
        for acc, s in cur:
            if p[0] == "e":
                for kd, v, s2 in f(p[1], s.copy()):
                    if kd == "ret":
                        nxt.append((acc + v, s2))
                    else:
                        other.append((kd, v, s2))
            else:
                np = []
                alts = p[2]
                if not alts and p[1][0] in CHANGED:
                    # the elements themselves of a list after a call that changes it
                    alts = ((frozenset(), (("e", ("Sym", ("elt", p[1]), I.changed_ty.get(p[1]))),)),)
                for conds, sub in alts:
                    s0 = s.copy()
                    feas = True
                    for k, x in sorted(conds, key=repr):
                        if s0.facts.get(k, x) != x:
                            feas = False
                        s0.facts[k] = x
                    if not feas:
                        continue
                    rs, ot = map_parts(I, sub, f, s0)
                    other.extend(ot)
                    for sp2, s2 in rs:
                        if mem_changed(s, s2):
                            other.append(("unk", "closure over a symbolic sequence has side effects", s2))
                            continue
                        extra = frozenset((k, x) for k, x in s2.facts.items() if s.facts.get(k) != x)
                        np.append((extra, tuple(frz(I, q, s2) for q in sp2)))
                        s = note_union(s, s2)
                nxt.append((acc + (("sp", p[1], tuple(np)),), s))
        cur = nxt
    return cur, other


def note_union(s, s2):
    if s2.notes != s.notes:
        s = s.copy()
        s.notes = s2.notes
    return s


def frz(I, p, st):
    if p[0] == "e":
        return ("e", I.freeze(p[1], st))
    return p


def mem_changed(s, s2):
    for k, v in s.mem.items():
        if k in s2.mem and s2.mem[k] is not v and s2.mem[k] != v:
            return True
    return s2.trace is not s.trace and s2.trace != s.trace


def list_out(kind, cur, other):
    return [("ret", (kind, ps), s) for ps, s in cur] + other


def truth(I, v, st):
    """Split an abstract boolean: [(bool, st)]"""
    v = I.deref(v, st)
    if v[0] == "K":
        return [(v[1], st)]
    if v[0] == "Sym":
        term, neg = v[1], False
        if term[0] == "not":
            term, neg = term[1], True
        out = []
        for b in (0, 1):
            s = st.copy()
            if I.assume_bool(s, term, b):
                out.append((1 - b if neg else b, s))
        return out
    return None


def m_map(I, fn, args, st, dty):
    ps = parts_open(I, args[0], st)
    if ps is None:
        return None
    f = args[1]

    def g(v, s):
        return [(k, (("e", r),) if k == "ret" else r, s2) for k, r, s2 in I.call(f, [v], s)]

    cur, other = map_parts(I, ps, g, st)
    return list_out("It", cur, other)


def m_filter(I, fn, args, st, dty):
    ps = parts_open(I, args[0], st)
    if ps is None:
        return None
    f = args[1]

    def g(v, s):
        out = []
        for k, r, s2 in I.call(f, [("R", ("val", v), ())], s):
            if k != "ret":
                out.append((k, r, s2))
                continue
            tr = truth(I, r, s2)
            if tr is None:
                out.append(("unk", "filter predicate", s2))
                continue
            for b, s3 in tr:
                out.append(("ret", (("e", v),) if b else (), s3))
        return out

    cur, other = map_parts(I, ps, g, st)
    return list_out("It", cur, other)


def m_filter_map(I, fn, args, st, dty):
    ps = parts_open(I, args[0], st)
    if ps is None:
        return None
    f = args[1]

    def g(v, s):
        out = []
        for k, r, s2 in I.call(f, [v], s):
            if k != "ret":
                out.append((k, r, s2))
                continue
            for r2, s3 in split_adt(I, r, s2):
                q = parts_of(I, r2, s3)
                if q is None:
                    out.append(("unk", "filter_map result", s3))
                else:
                    out.append(("ret", q, s3))
        return out

    cur, other = map_parts(I, ps, g, st)
    return list_out("It", cur, other)


def split_adt(I, v, st):
    """Split a symbolic enum into its variants: [(value, st)]"""
    d = I.deref(v, st)
    if d[0] != "Sym":
        return [(d, st)]
    ad = I.variants(d[2])
    if ad is None or ad["kind"] != "enum":
        return [(d, st)]
    f = st.facts.get(d[1])
    if f is not None:
        return [(I.expand(d, st), st)]
    out = []
    for i in range(len(ad["variants"])):
        s = st.copy()
        if I.assume_variant(s, d[1], i):
            out.append((I.expand(d, s), s))
    return out


def iterable_parts(I, v, st):
    """parts of anything IntoIterator: collections, options, or local types through their own impl."""
    d = I.deref(v, st)
    ps = parts_of(I, d, st, True)
    if ps is not None:
        return [("ret", set_order(I, d, ps, st), st)]
    # a local type: run its IntoIterator impl
    body = into_iter_impl(I, d, v)
    if body is None:
        return [("unk", "iteration over " + str(d)[:60], st)]
    out = []
    for k, r, s2 in I.exec(body, [v], st):
        if k == "ret":
            q = parts_of(I, r, s2)
            out.append(("ret", q, s2) if q is not None else ("unk", "into_iter", s2))
        else:
            out.append((k, r, s2))
    return out


def into_iter_impl(I, d, v):
    name = None
    if d[0] == "A":
        name = d[1]
    elif d[0] == "Sym" and d[2] is not None:
        t = I.tk(I.F.peel(d[2]))
        name = t.get("def")
    if name is None:
        return None
    for i, b in enumerate(I.F.bodies):
        if b["path"].endswith("as std::iter::IntoIterator>::into_iter") and b["path"].startswith("<" + name + " ") or (
            b["path"].startswith("<" + name + "<") and b["path"].endswith("as std::iter::IntoIterator>::into_iter")
        ):
            return i
    return None


def m_flat_map(I, fn, args, st, dty):
    ps = parts_open(I, args[0], st)
    if ps is None:
        return None
    f = args[1]

    def g(v, s):
        out = []
        for k, r, s2 in I.call(f, [v], s):
            if k != "ret":
                out.append((k, r, s2))
            else:
                out.extend(iterable_parts(I, r, s2))
        return out

    cur, other = map_parts(I, ps, g, st)
    return list_out("It", cur, other)


def m_flatten(I, fn, args, st, dty):
    ps = parts_open(I, args[0], st)
    if ps is None:
        return None

    def g(v, s):
        out = []
        for v2, s2 in split_adt(I, v, s):
            out.extend(iterable_parts(I, v2, s2))
        return out

    cur, other = map_parts(I, ps, g, st)
    return list_out("It", cur, other)


def m_ident_iter(I, fn, args, st, dty):
    ps = parts_of(I, args[0], st)
    if ps is None:
        return None
    return ret(("It", set_order(I, args[0], ps, st)), st)


def m_into_iter(I, fn, args, st, dty):
    a = args[0]
    d = I.deref(a, st)
    if d[0] == "It":
        # an iterator is its own iterator; keep by-reference iterators by reference
        return ret(a if a[0] == "R" and a[1][0] != "val" else d, st)
    ps = parts_of(I, d, st)
    if ps is None:
        if d[0] == "A" or (d[0] == "Sym" and d[2] is not None and I.tk(I.F.peel(d[2])).get("def", "").startswith("crate::")):
            body = into_iter_impl(I, d, a)
            if body is not None:
                return I.exec(body, [a], st)
        if d[0] == "Sym":
            return ret(("It", sym_parts(I, d[1], I.elem_ty(d[2]) if d[2] is not None else None, st)), st)
        return None
    return ret(("It", set_order(I, d, ps, st)), st)


def m_collect(I, fn, args, st, dty):
    """collect / from_iter"""
    t = I.tk(dty) if dty is not None else {"k": "?"}
    d = t.get("def", "")
    outs = []
    src = args[0]
    for kd, ps, s in iterable_parts(I, src, st):
        if kd != "ret":
            outs.append((kd, ps, s))
            continue
        if d.endswith("::HashSet") or d.endswith("::BTreeSet"):
            if I.unroll and 1 < len(ps) < 5 and all(p[0] == "e" for p in ps):
                outs.extend(distinct(I, ps, s))
            else:
                outs.append(("ret", ("Set", ps), s))
        elif d.endswith("::Vec") or d == "std::boxed::Box" or d == "std::collections::VecDeque":
            outs.append(("ret", ("L", ps), s))
        elif d.endswith("::String"):
            outs.append(("ret", concat_text(I, ps, s), s))
        elif d in (OPT, RES):
            outs.extend(collect_try(I, ps, s, d, t))
        else:
            body = from_iter_impl(I, d)
            if body is not None:
                outs.extend(I.exec(body, [("It", ps)], s))
            else:
                outs.append(("unk", "collect into " + d, s))
    return outs


def distinct(I, ps, st):
    """a set of the elements, by cases of which are equal"""
    from absstd2 import deep_eq

    outs = []
    cur = [((), st)]
    for p in ps:
        nxt = []
        for acc, s in cur:
            rest = [s]
            for w in acc:
                more = []
                for s2 in rest:
                    t = deep_eq(I, p[1], w[1], s2)
                    if t is None:
                        outs.append(("unk", "set membership", s2))
                        continue
                    for b, s3 in t:
                        if b:
                            nxt.append((acc, s3))
                        else:
                            more.append(s3)
                rest = more
            nxt += [(acc + (p,), s2) for s2 in rest]
        cur = nxt
    return outs + [("ret", ("Set", acc), s) for acc, s in cur]


def collect_try(I, ps, st, d, t):
    good = 1 if d == OPT else 0
    cur = [((), st)]
    outs = []
    for p in ps:
        nxt = []
        for acc, s in cur:
            if p[0] == "e":
                for v, s2 in split_adt(I, p[1], s):
                    if v[0] != "A":
                        outs.append(("unk", "collect of options", s2))
                    elif v[2] == good:
                        nxt.append((acc + (("e", v[3][0]),), s2))
                    else:
                        outs.append(("ret", v, s2))
            else:
                outs.append(("unk", "collect of symbolic options", s))
        cur = nxt
    for acc, s in cur:
        outs.append(("ret", ("A", d, good, (("L", acc),)), s))
    return outs


def from_iter_impl(I, name):
    for i, b in enumerate(I.F.bodies):
        p = b["path"]
        if (p.startswith("<" + name + " as ") or p.startswith("<" + name + "<")) and "FromIterator" in p and p.endswith("::from_iter"):
            return i
    return None


def concat_text(I, ps, st):
    if all(p[0] == "e" for p in ps):
        out = []
        for p in ps:
            v = I.deref(p[1], st)
            if v[0] == "S":
                out.append(v[1])
            elif v[0] == "K":
                out.append(chr(v[1]))
            else:
                return ("Sym", ("concat", ("L", canon_parts(I, ps, st, 0))), None)
        return ("S", "".join(out))
    return ("Sym", ("concat", ("L", canon_parts(I, ps, st, 0))), None)


def m_next(I, fn, args, st, dty):
    a = args[0]
    cell = a
    while cell[0] == "R":
        inner = I.load(st, cell[1], cell[2])
        if inner[0] == "R":
            cell = inner
            continue
        break
    if cell[0] != "R" or cell[1][0] == "val":
        return None
    it = I.load(st, cell[1], cell[2])
    back = last(fn["path"]) == "next_back"
    if it[0] in ("Sym",):
        ps = parts_of(I, it, st)
        if ps is None:
            return None
        it = ("It", ps)
    if it[0] != "It":
        return None
    if I.probe_on and any(p[0] == "sp" for p in it[1]) and not cell[2]:
        I.probes[-1].append(cell[1])
        return []
    return take(I, it[1], st, lambda ps, s: I.store(s, cell[1], cell[2], ("It", ps)), back)


def take(I, ps, st, put, back=False):
    """outcomes of next() on parts"""
    outs = []
    work = [(ps, st)]
    while work:
        ps, s = work.pop()
        if not ps:
            put((), s)
            outs.append(("ret", NONE, s))
            continue
        p = ps[-1] if back else ps[0]
        rest = ps[:-1] if back else ps[1:]
        if p[0] == "e":
            put(rest, s)
            outs.append(("ret", some(p[1]), s))
            continue
        key, prods = p[1], p[2]
        if key[0] == "opt":
            # zero or one
            s1 = s.copy()
            if I.assume_variant(s1, key[1], 0):
                work.append((rest, s1))
            s2 = s.copy()
            if I.assume_variant(s2, key[1], 1):
                x = prods[0][1]
                work.append((x + rest, s2))
            continue
        if back:
            outs.append(("unk", "next_back on a symbolic sequence", s))
            continue
        off = 0
        base = key
        if key[0] == "drop":
            base, off = key[1], key[2]
        simple = len(prods) == 1 and not prods[0][0]
        if not simple or any(q[0] != "e" for q in prods[0][1]):
            outs.append(("unk", "next on a conditional sequence", s))
            continue
        ln = ("Sym", ("len", base), None)
        g = len_ge(I, ln, off + 1, s)
        for b, s2 in truth(I, g, s):
            if not b:
                work.append((rest, s2))
            else:
                el = tuple(("e", rename_elt(q[1], key, ("idx", base, off))) for q in prods[0][1])
                nk = ("drop", base, off + 1)
                np = ((frozenset(), tuple(("e", rename_elt(q[1], key, None, nk)) for q in prods[0][1])),)
                work.append((el + (("sp", nk, np),) + rest, s2))
    return outs


def rename_elt(v, key, to, newkey=None):
    tgt = ("elt", key)
    new = to if to is not None else ("elt", newkey)

    def w(x):
        if x == tgt:
            return new
        if isinstance(x, tuple):
            return tuple(w(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(w(y) for y in x)
        return x

    return w(v)


def quantify(I, ps, f, st, neg):
    """any(f) (neg=False) / all(f) == not any(not f) (neg=True) -> outcomes with boolean value"""
    outs = []
    cur = [(st, ())]
    for p in ps:
        nxt = []
        for s, terms in cur:
            if p[0] == "e":
                for k, r, s2 in I.call(f, [p[1]], s.copy()):
                    if k != "ret":
                        outs.append((k, r, s2))
                        continue
                    tr = truth(I, r, s2)
                    if tr is None:
                        outs.append(("unk", "predicate", s2))
                        continue
                    for b, s3 in tr:
                        if bool(b) != neg:
                            outs.append(("ret", FALSE if neg else TRUE, s3))
                        else:
                            nxt.append((s3, terms))
            else:
                hits = []
                for conds, sub in p[2]:
                    s0 = s.copy()
                    for k, x in conds:
                        s0.facts[k] = x
                    for q in sub:
                        if q[0] != "e":
                            outs.append(("unk", "nested sequence in any/all", s))
                            continue
                        for k, r, s2 in I.call(f, [q[1]], s0.copy()):
                            if k != "ret":
                                outs.append((k, r, s2))
                                continue
                            tr = truth(I, r, s2)
                            if tr is None:
                                outs.append(("unk", "predicate", s2))
                                continue
                            for b, s3 in tr:
                                if bool(b) != neg:
                                    extra = frozenset((kk, x) for kk, x in s3.facts.items() if s.facts.get(kk) != x)
                                    hits.append(extra)
                hits = frozenset(hits)
                if not hits:
                    nxt.append((s, terms))
                    continue
                if frozenset() in hits:
                    hits = frozenset([frozenset()])
                    # true for every element: any == non-empty
                    r = len_ge(I, ("Sym", ("len", p[1]), None), 1, s)
                else:
                    r = I.boolsym(("any", p[1], hits), s)
                for b, s3 in truth(I, r, s):
                    if b:
                        outs.append(("ret", FALSE if neg else TRUE, s3))
                    else:
                        nxt.append((s3, terms))
        cur = nxt
    for s, terms in cur:
        outs.append(("ret", TRUE if neg else FALSE, s))
    return merge_bools(I, outs, st)


def merge_bools(I, outs, st):
    return outs


def m_any(I, fn, args, st, dty):
    ps = parts_of(I, args[0], st)
    if ps is None:
        d = I.deref(args[0], st)
        over = "bytes" if "Bytes" in (fn.get("rpath") or "") else "chars" if "Chars" in (fn.get("rpath") or "") else None
        if d[0] == "Sym" and d[1][0] in ("chars", "bytes"):
            d = ("Sym", d[1][1], None)
        if over and d[0] in ("Span", "Txt", "Sym"):
            from absnom import pred_class

            cs = pred_class(I, args[1], st)
            if cs is not None:
                if last(fn["path"]) == "any":
                    cs = {"in": ("not", cs[1]), "not": ("in", cs[1])}.get(cs[0])
                if cs is not None:
                    r = I.boolsym(("chars-in", over, cs, I.termof(I.canon(d, st))), st)
                    if last(fn["path"]) == "any":
                        return ret(("K", 1 - r[1]) if r[0] == "K" else ("Sym", ("not", r[1]), r[2]), st)
                    return ret(r, st)
        return None
    return quantify(I, ps, args[1], st, last(fn["path"]) == "all")


def m_fold(I, fn, args, st, dty):
    ps = parts_of(I, args[0], st)
    if ps is None:
        return None
    if any(p[0] != "e" for p in ps):
        return fold_sym(I, ps, args[1], args[2], st)
    cur = [(args[1], st)]
    outs = []
    for p in ps:
        nxt = []
        for acc, s in cur:
            for k, r, s2 in I.call(args[2], [acc, p[1]], s):
                if k == "ret":
                    nxt.append((r, s2))
                else:
                    outs.append((k, r, s2))
        cur = nxt
    return outs + [("ret", a, s) for a, s in cur]


def fold_sym(I, ps, init, f, st):
    """fold over a symbolic sequence: supported when the accumulator is a sequence that is only appended to"""
    outs = []
    init = I.freeze(init, st)
    cur = [(I.deref(init, st), st)]
    for p in ps:
        nxt = []
        for acc, s in cur:
            if acc[0] == "A" and len(acc[3]) == 1 and acc[3][0][0] == "L":
                wrap = lambda l, a=acc: ("A", a[1], a[2], (l,))
                unwrap = lambda v, a=acc: v[3][0] if v[0] == "A" and v[1] == a[1] and v[2] == a[2] else None
            elif acc[0] == "L":
                wrap = lambda l: l
                unwrap = lambda v: v
            elif acc[0] == "K":
                wrap = unwrap = None
            else:
                outs.append(("unk", "fold accumulator " + acc[0], s))
                continue
            if p[0] == "e":
                for k, r, s2 in I.call(f, [acc, p[1]], s.copy()):
                    if k == "ret":
                        nxt.append((I.deref(r, s2), s2))
                    else:
                        outs.append((k, r, s2))
                continue
            if unwrap is None:
                r = bool_fold(I, acc, p, f, s, outs)
                if r is None:
                    outs.append(("unk", "fold over a symbolic sequence", s))
                else:
                    nxt.extend(r)
                continue
            mark = ("sp", ("ACC", I.fresh()), ())
            base = unwrap(acc)
            prods = []
            good = True
            for conds, sub in p[2]:
                s0 = s.copy()
                for kk, x in conds:
                    s0.facts[kk] = x
                accs = [(wrap(("L", (mark,))), s0)]
                for q in sub:
                    if q[0] != "e":
                        good = False
                        break
                    na = []
                    for a0, s1 in accs:
                        for k, r, s2 in I.call(f, [a0, q[1]], s1.copy()):
                            if k == "ret":
                                na.append((I.deref(r, s2), s2))
                            else:
                                outs.append((k, r, s2))
                    accs = na
                for a0, s1 in accs:
                    l = unwrap(a0)
                    l = I.deref(l, s1) if l is not None else None
                    if l is None or l[0] != "L" or not l[1] or l[1][0] != mark or mark in l[1][1:]:
                        good = False
                        continue
                    extra = frozenset((kk, x) for kk, x in s1.facts.items() if s.facts.get(kk) != x)
                    add = (extra, tuple(frz(I, q, s1) for q in l[1][1:]))
                    if mentions(add, {mark[1]}):
                        good = False  # what is added depends on what was added before
                        continue
                    prods.append(add)
            if not good:
                outs.append(("unk", "fold is not append-only", s))
                continue
            nxt.append((wrap(("L", base[1] + (("sp", p[1], tuple(prods)),))), s))
        cur = nxt
    return outs + [("ret", a, s) for a, s in cur]


def bool_fold(I, acc, p, f, s, outs):
    """acc && g(x) / acc || g(x) style folds"""
    res = []
    a = acc[1]
    if a not in (0, 1):
        return None
    # does the other value absorb?
    hits = []
    for conds, sub in p[2]:
        if len(sub) != 1 or sub[0][0] != "e":
            return None
        s0 = s.copy()
        for kk, x in conds:
            s0.facts[kk] = x
        for k, r, s2 in I.call(f, [("K", a), sub[0][1]], s0.copy()):
            if k != "ret":
                outs.append((k, r, s2))
                continue
            tr = truth(I, r, s2)
            if tr is None:
                return None
            for b, s3 in tr:
                if b != a:
                    hits.append(frozenset((kk, x) for kk, x in s3.facts.items() if s.facts.get(kk) != x))
        for k, r, s2 in I.call(f, [("K", 1 - a), sub[0][1]], s0.copy()):
            if k != "ret" or I.deref(r, s2) != ("K", 1 - a):
                tr = truth(I, r, s2) if k == "ret" else None
                if tr is None or any(b != 1 - a for b, _ in tr):
                    return None
    hits = frozenset(hits)
    if not hits:
        return [(acc, s)]
    if frozenset() in hits:
        r = len_ge(I, ("Sym", ("len", p[1]), None), 1, s)
    else:
        r = I.boolsym(("any", p[1], hits), s)
    for b, s3 in truth(I, r, s):
        res.append((("K", 1 - a) if b else ("K", a), s3))
    return res


def m_chain(I, fn, args, st, dty):
    a = parts_of(I, args[0], st)
    if a is None:
        return None
    outs = []
    for kd, ps, s in iterable_parts(I, args[1], st):
        outs.append(("ret", ("It", a + ps), s) if kd == "ret" else (kd, ps, s))
    return outs


def m_once(I, fn, args, st, dty):
    return ret(("It", (("e", args[0]),)), st)


def m_count(I, fn, args, st, dty):
    d = I.deref(args[0], st)
    return ret(length(I, d, st), st)


def m_rev(I, fn, args, st, dty):
    ps = parts_of(I, args[0], st)
    if ps is None:
        return None
    if all(p[0] == "e" for p in ps):
        return ret(("It", tuple(reversed(ps))), st)
    return ret(changed(I, "rev", ps, st, (), dty), st)


def m_zip(I, fn, args, st, dty):
    a = parts_of(I, args[0], st)
    b = parts_of(I, args[1], st)
    if a is None or b is None:
        return None
    if all(p[0] == "e" for p in a + b):
        return ret(("It", tuple(("e", ("T", (x[1], y[1]))) for x, y in zip(a, b))), st)
    if len(a) == len(b) == 1 and a[0][0] == "sp" and b[0][0] == "sp":
        k = ("zip", a[0][1], b[0][1])
        if len(a[0][2]) == len(b[0][2]) == 1 and len(a[0][2][0][1]) == len(b[0][2][0][1]) == 1:
            return ret(
                ("It", (("sp", k, ((frozenset(), (("e", ("T", (a[0][2][0][1][0][1], b[0][2][0][1][0][1]))),)),)),)),
                st,
            )
    return ret(I.unk("zip"), st)


def m_skip(I, fn, args, st, dty):
    ps = parts_of(I, args[0], st)
    n = I.deref(args[1], st)
    if ps is None or n[0] != "K":
        return None
    name = last(fn["path"])
    if all(p[0] == "e" for p in ps):
        return ret(("It", ps[n[1]:] if name == "skip" else ps[: n[1]]), st)
    return ret(changed(I, name, ps, st, (n[1],), dty), st)


# ------------------------------------------------------------------ Vec mutation
def cell_of(I, a, st):
    c = a
    n = 0
    while c[0] in ("R", "HBox") and n < 20:
        if c[0] == "HBox":
            return ("R", c[1], ())
        inner = I.load(st, c[1], c[2])
        if inner[0] in ("R", "HBox"):
            c = inner
            n += 1
            continue
        return c
    return None


def vec_at(I, a, st, opaque=False):
    c = cell_of(I, a, st)
    if c is None or c[1][0] == "val":
        return None, None
    v = I.load(st, c[1], c[2])
    ps = parts_of(I, v, st, opaque)
    return c, ps


def m_push(I, fn, args, st, dty):
    c, ps = vec_at(I, args[0], st, True)
    if ps is None:
        return None
    I.store(st, c[1], c[2], ("L", ps + (("e", args[1]),)))
    return ret(UNIT, st)


def m_append(I, fn, args, st, dty):
    c, ps = vec_at(I, args[0], st, True)
    c2, ps2 = vec_at(I, args[1], st, True)
    if ps is None or ps2 is None:
        return None
    I.store(st, c[1], c[2], ("L", ps + ps2))
    I.store(st, c2[1], c2[2], ("L", ()))
    return ret(UNIT, st)


def m_extend(I, fn, args, st, dty):
    c, ps = vec_at(I, args[0], st, True)
    if ps is None:
        return None
    outs = []
    kind = I.load(st, c[1], c[2])[0]
    for kd, p2, s in iterable_parts(I, args[1], st):
        if kd != "ret":
            outs.append((kd, p2, s))
            continue
        I.store(s, c[1], c[2], ("Set" if kind == "Set" else "L", ps + p2))
        outs.append(("ret", UNIT, s))
    return outs


def m_insert(I, fn, args, st, dty):
    c, ps = vec_at(I, args[0], st, True)
    if ps is None:
        return None
    v = I.load(st, c[1], c[2])
    if v[0] == "Set" or len(args) == 2:
        I.store(st, c[1], c[2], ("Set", ps + (("e", args[1]),)))
        return ret(("Sym", ("fresh", I.fresh()), None), st)
    i = I.deref(args[1], st)
    if i[0] == "K" and all(p[0] == "e" for p in ps[: i[1]]) and len(ps) >= i[1]:
        I.store(st, c[1], c[2], ("L", ps[: i[1]] + (("e", args[2]),) + ps[i[1]:]))
        return ret(UNIT, st)
    I.store(st, c[1], c[2], I.unk("insert at symbolic index"))
    return ret(UNIT, st)


def m_pop(I, fn, args, st, dty):
    c, ps = vec_at(I, args[0], st)
    if ps is None:
        return None
    return take(I, ps, st, lambda q, s: I.store(s, c[1], c[2], ("L", q)), True)


def m_first(I, fn, args, st, dty):
    d = I.deref(args[0], st)
    ps = parts_of(I, d, st)
    if ps is None:
        return None
    return take(I, ps, st, lambda q, s: None, last(fn["path"]) in ("last", "split_last"))


def m_reverse(I, fn, args, st, dty):
    c, ps = vec_at(I, args[0], st, True)
    if ps is None:
        return None
    if all(p[0] == "e" for p in ps):
        I.store(st, c[1], c[2], ("L", tuple(reversed(ps))))
    else:
        I.store(st, c[1], c[2], ("L", (("sp", ("rev", ("L", canon_parts(I, ps, st, 0))), ()),)))
    return ret(UNIT, st)


def m_reorder(I, fn, args, st, dty):
    """sort/dedup/retain/... : the content is no longer the original sequence"""
    c, ps = vec_at(I, args[0], st, True)
    if ps is None:
        return None
    if len(ps) <= 1 and all(p[0] == "e" for p in ps) and last(fn["path"]) not in ("retain", "truncate", "drain", "remove", "swap_remove"):
        return ret(UNIT, st)
    extra = tuple(I.canon(x, st) for x in (I.deref(y, st) for y in args[1:]) if x[0] in ("K", "Sym"))
    I.store(st, c[1], c[2], ("L", (("sp", (last(fn["path"]), ("L", canon_parts(I, ps, st, 0))) + extra, ()),)))
    return ret(("Sym", ("app", last(fn["path"]), (("L", canon_parts(I, ps, st, 0)),)), None), st)


def m_clear(I, fn, args, st, dty):
    c, ps = vec_at(I, args[0], st, True)
    if ps is None:
        return None
    I.store(st, c[1], c[2], ("L", ()))
    return ret(UNIT, st)


def m_chars(I, fn, args, st, dty):
    d = I.deref(args[0], st)
    n = last(fn.get("rpath") or fn["path"])
    if d[0] == "S":
        return ret(("It", tuple(("e", ("K", ord(c))) for c in d[1]) if n == "chars" else tuple(("e", ("K", c)) for c in d[1].encode())), st)
    if d[0] == "Sym":
        return ret(("Sym", (n, d[1]), None), st)
    return ret(d, st)


def m_len(I, fn, args, st, dty):
    return ret(length(I, args[0], st), st)


def m_is_empty(I, fn, args, st, dty):
    return ret(is_empty(I, args[0], st), st)


def m_ident(I, fn, args, st, dty):
    a = args[0]
    d = I.deref(a, st)
    if d[0] in ("S", "Txt", "Span", "Sym", "Fn", "P", "K", "F", "Ctor"):
        if d[0] == "Sym" and d[2] is None and dty is not None:
            return ret(("Sym", d[1], dty), st)
        return ret(d, st)
    return ret(a, st)


def m_deref(I, fn, args, st, dty):
    """Deref/AsRef/Borrow on std containers: same place."""
    a = args[0]
    d = I.deref(a, st)
    if d[0] == "Static":
        return None
    if d[0] in ("S", "Txt", "Span"):
        return ret(d, st)
    return ret(a, st)


def m_index(I, fn, args, st, dty):
    v = I.deref(args[0], st)
    i = I.deref(args[1], st)
    if i[0] == "A" and "Range" in i[1]:
        return range_index(I, v, i, st, dty)
    if i[0] in ("K", "Sym", "Disc"):
        ps = parts_of(I, v, st)
        outs = []
        if i[0] == "K":
            g = len_ge(I, length(I, v, st), i[1] + 1, st)
            tr = truth(I, g, st) if g[0] in ("K", "Sym") else [(0, st.copy()), (1, st)]
        else:
            lt = I.binop("Lt", i, length(I, v, st), st)
            tr = truth(I, lt, st) if lt[0] in ("K", "Sym") else [(0, st.copy()), (1, st)]
        for b, s in tr:
            if not b:
                outs.append(("panic", ("index out of bounds", fn.get("rpath") or fn["path"]), s))
            else:
                outs.append(("ret", index(I, v, i[1] if i[0] == "K" else i, s), s))
        return outs
    return None


def range_index(I, v, r, st, dty):
    name = last(r[1])
    vals = [I.deref(x, st) for x in r[3]]
    if name == "RangeFull":
        return ret(v, st)
    if v[0] == "S" and all(x[0] == "K" for x in vals):
        b = v[1].encode()
        lo, hi = 0, len(b)
        if name == "Range":
            lo, hi = vals[0][1], vals[1][1]
        elif name == "RangeFrom":
            lo = vals[0][1]
        elif name == "RangeTo":
            hi = vals[0][1]
        if 0 <= lo <= hi <= len(b):
            try:
                return ret(("S", b[lo:hi].decode()), st)
            except UnicodeDecodeError:
                pass
        return [("panic", ("string slice", "str::index"), st)]
    if v[0] == "L" and all(p[0] == "e" for p in v[1]) and all(x[0] == "K" for x in vals) and name in ("Range", "RangeFrom", "RangeTo"):
        lo, hi = {"Range": lambda: (vals[0][1], vals[1][1]), "RangeFrom": lambda: (vals[0][1], len(v[1])), "RangeTo": lambda: (0, vals[0][1])}[name]()
        if 0 <= lo <= hi <= len(v[1]):
            return ret(("L", v[1][lo:hi]), st)
        return [("panic", ("slice index out of range", "index by range"), st)]
    s2 = st.copy()
    oob = ("oob", I.canon(v, st), name, tuple(I.termof(I.canon(x, st)) for x in vals))
    known = st.facts.get(oob)
    if known == 0:
        return ret(("Sym", ("slice", I.canon(v, st), name, tuple(I.canon(x, st) for x in vals)), dty), st)
    s2.facts[oob] = 1
    st = st.copy()
    st.facts[oob] = 0
    return [
        ("panic", ("slice index may be out of range", "index by range"), s2),
        ("ret", ("Sym", ("slice", I.canon(v, st), name, tuple(I.canon(x, st) for x in vals)), dty), st),
    ]


# ------------------------------------------------------------------ equality, order, hash, clone
TEXTY = ("S", "Txt", "Span")


def is_text(I, v):
    if v[0] in TEXTY:
        return True
    if v[0] == "Sym" and v[2] is not None:
        t = I.tk(I.F.peel(v[2]))
        return t["k"] == "str" or t.get("def") == "std::string::String"
    return False


def eq_values(I, a, b, st):
    """abstract boolean for structural equality of two leaf values, or None"""
    a = I.deref(a, st)
    b = I.deref(b, st)
    if a[0] == "K" and b[0] == "K":
        return ("K", int(a[1] == b[1]))
    if a[0] == "S" and b[0] == "S":
        return ("K", int(a[1] == b[1]))
    if is_text(I, a) or is_text(I, b):
        ca, cb = I.canon(a, st), I.canon(b, st)
        if ca == cb:
            return TRUE
        if ca[0] == "S":
            ca, cb = cb, ca
        if cb[0] != "S":
            ca, cb = sorted((ca, cb), key=repr)
        return I.boolsym(("streq", ca, cb), st)
    if a[0] == "A" and b[0] == "A" and a[1] == b[1] and (a[1] == ORD or not a[1].startswith("crate::") or own_eq_derived(I, a)):
        if a[2] != b[2]:
            return FALSE
        if not a[3] and not b[3]:
            return TRUE
        if a[1] == OPT and len(a[3]) == len(b[3]) == 1:
            r = eq_values(I, a[3][0], b[3][0], st)
            if r is not None:
                return r
    if a[0] == "Fl" and b[0] == "Fl":
        return flt.binop("Eq", a, b)
    if a[0] == "F" and b[0] == "F":
        return ("K", int(a[1] == b[1]))
    la, lb = (x if x[0] in ("L", "Set") else None for x in (a, b))
    if la and lb and all(p[0] == "e" for p in la[1] + lb[1]):
        if len(la[1]) != len(lb[1]):
            return FALSE
        return None
    fl = [x for x in (a, b) if x[0] == "F" or (x[0] == "Sym" and x[2] is not None and I.tk(x[2])["k"] == "float")]
    ca, cb = I.canon(a, st), I.canon(b, st)
    if ca == cb and not fl:
        return TRUE
    x = tuple(sorted((ca[1] if ca[0] == "Sym" else ca, cb[1] if cb[0] == "Sym" else cb), key=repr))
    return I.boolsym(("feq" if fl else "eq",) + x, st)


def m_eq(I, fn, args, st, dty):
    neg = last(fn["path"]) == "ne"
    a, b = I.deref(args[0], st), I.deref(args[1], st)
    la = a if a[0] == "L" else None
    lb = b if b[0] == "L" else None
    if la and lb and all(p[0] == "e" for p in la[1] + lb[1]) and len(la[1]) == len(lb[1]) and len(la[1]) > 0:
        terms = []
        for p, q in zip(la[1], lb[1]):
            r = eq_values(I, p[1], q[1], st)
            if r is None:
                return None
            if r == FALSE:
                return ret(TRUE if neg else FALSE, st)
            if r[0] == "Sym":
                terms.append(r[1])
        if not terms:
            return ret(FALSE if neg else TRUE, st)
        if len(terms) == 1:
            r = ("Sym", terms[0], None)
        else:
            r = I.boolsym(("and",) + tuple(sorted(terms, key=repr)), st)
        return ret(("Sym", ("not", r[1]), None) if neg and r[0] == "Sym" else (("K", 1 - r[1]) if neg else r), st)
    r = eq_values(I, a, b, st)
    if r is None:
        return None
    if neg:
        r = ("K", 1 - r[1]) if r[0] == "K" else ("Sym", ("not", r[1]), None)
    return ret(r, st)


def m_cmp(I, fn, args, st, dty):
    a, b = I.deref(args[0], st), I.deref(args[1], st)
    if a[0] == "Fl" and b[0] == "Fl":
        c = flt.cmp(a, b)
        return ret(NONE if c is None else some(("A", ORD, c, ())), st)
    if a[0] == "K" and b[0] == "K":
        r = ("A", ORD, 0 if a[1] < b[1] else 1 if a[1] == b[1] else 2, ())
    elif a[0] == "S" and b[0] == "S":
        x, y = a[1].encode(), b[1].encode()
        r = ("A", ORD, 0 if x < y else 1 if x == y else 2, ())
    else:
        r = ("Sym", ("cmp", I.canon(a, st), I.canon(b, st)), None)
        t = I.tk(dty)
        ordty = None
        if t.get("def") == ORD:
            ordty = dty
        elif t.get("def") == OPT:
            ordty = t["args"][0]
        r = ("Sym", r[1], ordty)
    if last(fn["path"]) == "partial_cmp":
        fl = any(x[0] == "Sym" and x[2] is not None and I.tk(I.F.peel(x[2]))["k"] == "float" for x in (a, b))
        if fl:
            return ret(("Sym", ("fpcmp", I.canon(a, st), I.canon(b, st)), dty), st)
        return ret(some(r), st)
    return ret(r, st)


def m_clone(I, fn, args, st, dty):
    d = I.deref(args[0], st)
    return ret(I.freeze(d, st), st)


def m_hash_write(I, fn, args, st, dty):
    v = I.canon(args[1], st) if len(args) > 1 else None
    st.notes = st.notes + (("hash", last(fn["path"]), v),)
    return ret(UNIT, st)


def m_hash(I, fn, args, st, dty):
    st.notes = st.notes + (("hash", "val", I.canon(args[0], st)),)
    return ret(UNIT, st)


# ------------------------------------------------------------------ text, numbers, conversions
def m_into(I, fn, args, st, dty):
    """Into::into / From::from that was not resolved to a local impl: a conversion that keeps the value."""
    a = args[0]
    d = I.deref(a, st)
    if "inst" in fn and last(fn["path"]) == "into":
        t = I.F.bodies[fn["inst"]]["bbs"][0]["t"]
        if t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn" and t[1][1]["fn"].get("local"):
            return I.exec(fn["inst"], args, st)
    if d[0] in ("Span", "S", "Txt"):
        return ret(d, st)
    if d[0] == "Sym" and d[2] is not None and dty is not None:
        # conversion of a generic argument: denote the target by the same term
        if I.tk(d[2])["k"] in ("param", "alias", "dyn"):
            I.into_ty.setdefault(d[1], dty)
            return ret(("Sym", d[1], dty), st)
    if d[0] == "Sym" and dty is not None and I.tk(dty)["k"] == "adt" and d[2] is not None and dty != d[2]:
        if I.tk(dty)["def"].startswith("std::") or I.tk(dty)["def"].startswith("alloc::"):
            return ret(("Sym", d[1], dty), st)
    return ret(a, st)


def m_box_new(I, fn, args, st, dty):
    return ret(("Box", args[0]), st)


def m_arc_new(I, fn, args, st, dty):
    return ret(("Arc", args[0]), st)


def m_box_uninit(I, fn, args, st, dty):
    cell = ("h", I.fresh())
    st.mem[cell] = ("Unk", "uninit")
    return ret(("HBox", cell), st)


def m_vec_from_box(I, fn, args, st, dty):
    v = I.deref(args[0], st)
    for _ in range(4):
        if v[0] == "T" and len(v[1]) >= 1:
            v = I.deref(v[1][-1], st)
        elif v[0] == "A" and len(v[3]) == 1:
            v = I.deref(v[3][0], st)
    if v[0] == "L":
        return ret(v, st)
    return ret(I.unk("vec! contents " + str(v)[:60]), st)


def m_empty_vec(I, fn, args, st, dty):
    return ret(("L", ()), st)


def m_default(I, fn, args, st, dty):
    t = I.tk(dty)
    if t["k"] == "adt":
        d = t["def"]
        if d.endswith("::Vec"):
            return ret(("L", ()), st)
        if d.endswith("::String"):
            return ret(("S", ""), st)
        if d.endswith("::HashSet"):
            return ret(("Set", ()), st)
        if d == OPT:
            return ret(NONE, st)
    if t["k"] in ("int", "uint", "bool", "char"):
        return ret(("K", 0), st)
    if t["k"] == "float":
        return ret(("Fl", flt.width(t), 0) if I.floats else ("F", 0), st)
    if t["k"] == "param":
        return ret(("Sym", ("default", t["s"]), dty), st)
    return None


def m_empty_set(I, fn, args, st, dty):
    return ret(("Set", ()), st)


def m_panic(I, fn, args, st, dty):
    return [("panic", (fn.get("rpath") or fn["path"],), st)]


def m_parse(I, fn, args, st, dty):
    """str::parse / FromStr::from_str into numbers"""
    d = I.deref(args[0], st)
    t = I.tk(dty)
    if t.get("def") != RES:
        return None
    target = I.tk(t["args"][0])
    if target["k"] not in ("float", "int", "uint"):
        return None
    c = I.canon(d, st)
    tag = target["s"]
    outs = []
    if I.floats and d[0] == "S" and target["k"] == "float":
        v = flt.parse(flt.width(target), d[1])
        return ret(ok(v) if v is not None else err(("Sym", ("err", "parse"), t["args"][1])), st)
    if I.nom.text_is_number(I, d, st, tag):
        return ret(ok(("Sym", ("num", tag, c), t["args"][0])), st)
    s2 = st.copy()
    if I.assume_bool(st, ("parses", tag, c), 1):
        outs.append(("ret", ok(("Sym", ("num", tag, c), t["args"][0])), st))
    if I.assume_bool(s2, ("parses", tag, c), 0):
        outs.append(("ret", err(("Sym", ("err", "parse"), t["args"][1])), s2))
    return outs


FCLASS = ("is_finite", "is_nan", "is_infinite", "is_sign_negative", "is_sign_positive", "is_normal")


def m_fclass(I, fn, args, st, dty):
    d = I.deref(args[0], st)
    name = last(fn["path"])
    if d[0] == "Fl":
        return ret(flt.call(name, [d]), st)
    if d[0] == "F" and name == "is_finite":
        return ret(("K", int((d[1] >> 23) & 0xFF != 0xFF)), st)
    if d[0] == "F" and name in ("is_nan", "is_infinite"):
        e, m = (d[1] >> 23) & 0xFF, d[1] & 0x7FFFFF
        return ret(("K", int(e == 0xFF and (m != 0) == (name == "is_nan"))), st)
    c = I.canon(d, st)
    c = c[1] if c[0] == "Sym" else c
    if name == "is_finite":
        return ret(I.boolsym(("finite", c), st), st)
    if name in ("is_nan", "is_infinite"):
        if st.facts.get(("finite", c)) == 1:
            return ret(FALSE, st)
        return ret(I.boolsym((name, c), st), st)
    return ret(I.boolsym((name, c), st), st)


def m_unary(I, fn, args, st, dty):
    d = I.deref(args[0], st)
    if d[0] == "Fl":
        r = flt.call(last(fn["path"]), [I.deref(x, st) for x in args])
        return ret(r if r is not None else I.unk("float method"), st)
    if d[0] == "K" and last(fn["path"]) == "from_bits":
        return ret(("Fl", flt.width(I.tk(dty)), d[1]), st)
    c = I.canon(d, st)
    return ret(("Sym", ("app", last(fn["path"]), (c,) + tuple(I.canon(x, st) for x in args[1:])), dty), st)


def m_str_pred(I, fn, args, st, dty):
    name = last(fn["path"])
    d = I.deref(args[0], st)
    p = I.deref(args[1], st)
    if d[0] == "S" and p[0] == "S" and name in ("starts_with", "ends_with", "contains"):
        r = {"starts_with": d[1].startswith, "ends_with": d[1].endswith, "contains": d[1].__contains__}[name](p[1])
        return ret(("K", int(r)), st)
    if d[0] == "S" and p[0] == "S" and name == "eq_ignore_ascii_case":
        return ret(("K", int(d[1].lower() == p[1].lower())), st)
    return ret(I.boolsym(("app", name, (I.canon(d, st), I.canon(p, st))), st), st)


def m_str_case(I, fn, args, st, dty):
    name = last(fn["path"])
    d = I.deref(args[0], st)
    if d[0] == "S":
        s = d[1]
        r = {
            "to_lowercase": s.lower, "to_ascii_lowercase": s.lower, "to_uppercase": s.upper,
            "to_ascii_uppercase": s.upper, "trim": s.strip, "trim_start": s.lstrip, "trim_end": s.rstrip,
        }.get(name)
        if r is not None:
            return ret(("S", r()), st)
    return ret(("Sym", ("app", name, (I.canon(d, st),)), dty), st)


def m_strip(I, fn, args, st, dty):
    name = last(fn["path"])
    d, p = I.deref(args[0], st), I.deref(args[1], st)
    if d[0] == "S" and p[0] == "S":
        if name == "strip_prefix":
            return ret(some(("S", d[1][len(p[1]):])) if d[1].startswith(p[1]) else NONE, st)
        return ret(some(("S", d[1][: -len(p[1])])) if p[1] and d[1].endswith(p[1]) else NONE, st)
    return ret(("Sym", ("app", name, (I.canon(d, st), I.canon(p, st))), dty), st)


CHARP = {
    "is_alphabetic": lambda c: c.isalpha(),
    "is_alphanumeric": lambda c: c.isalnum(),
    "is_numeric": lambda c: c.isnumeric(),
    "is_whitespace": lambda c: c.isspace(),
    "is_ascii": lambda c: ord(c) < 128,
    "is_ascii_alphabetic": lambda c: ord(c) < 128 and c.isalpha(),
    "is_ascii_alphanumeric": lambda c: ord(c) < 128 and c.isalnum(),
    "is_ascii_digit": lambda c: c in "0123456789",
    "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c",
    "is_ascii_lowercase": lambda c: "a" <= c <= "z",
    "is_ascii_uppercase": lambda c: "A" <= c <= "Z",
    "is_lowercase": lambda c: c.islower(),
    "is_uppercase": lambda c: c.isupper(),
    "is_ascii_punctuation": lambda c: ord(c) < 128 and c.isprintable() and not c.isalnum() and c != " ",
    "is_control": lambda c: ord(c) < 32 or 127 <= ord(c) < 160,
    "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF",
    "is_ascii_graphic": lambda c: 33 <= ord(c) < 127,
    "is_alpha": lambda c: ord(c) < 128 and c.isalpha(),
    "is_alphanum": lambda c: ord(c) < 128 and c.isalnum(),
    "is_dec_digit": lambda c: c in "0123456789",
}


def m_char(I, fn, args, st, dty):
    d = I.deref(args[0], st)
    name = last(fn["path"])
    if d[0] == "K":
        if name == "is_digit" and len(args) > 1:
            return ret(("K", int(chr(d[1]) in "0123456789")), st)
        return ret(("K", int(bool(CHARP[name](chr(d[1]))))), st)
    return ret(I.boolsym(("app", name, (I.canon(d, st),)), st), st)


# ------------------------------------------------------------------ fmt
def m_new_display(I, fn, args, st, dty):
    return ret(("Arg", last(fn["path"])[4:], args[0]), st)


def m_arguments_new(I, fn, args, st, dty):
    tpl = I.deref(args[0], st)
    av = I.deref(args[1], st)
    if tpl[0] == "By":
        bs = list(tpl[1])
    elif tpl[0] == "L":
        bs = [p[1][1] for p in tpl[1]]
    else:
        return None
    vals = [I.deref(p[1], st) for p in av[1]] if av[0] == "L" else []
    parts = []
    i = 0
    ai = 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            parts.append(("lit", bytes(bs[i + 1 : i + 1 + b]).decode()))
            i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] | bs[i + 2] << 8
            parts.append(("lit", bytes(bs[i + 3 : i + 3 + n]).decode()))
            i += 3 + n
        else:
            i += 1
            fmt = b & 0x3F
            idx = ai
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                idx = bs[i] | bs[i + 1] << 8
                i += 2
            ai = idx + 1
            parts.append(("arg", vals[idx] if idx < len(vals) else ("Unk", "arg"), fmt & 7))
    return ret(("Fmt", tuple(parts)), st)


def m_arguments_str(I, fn, args, st, dty):
    return ret(("Fmt", (("lit", text_or_sym(I, args[0], st)),)), st)


def text_or_sym(I, v, st):
    v = I.deref(v, st)
    return v[1] if v[0] == "S" else ("?", I.canon(v, st))


def fmt_parts(I, f, st, outs=None):
    """flatten format parts to a tuple of literals/values, following Display impls: [(parts, st)]"""
    cur = [((), st)]
    for p in f:
        nxt = []
        for acc, s in cur:
            if p[0] == "lit":
                nxt.append((acc + (("lit", p[1]),), s))
            else:
                arg = p[1]
                if arg[0] != "Arg" or p[2]:
                    nxt.append((acc + (("val", "?", I.canon(arg, s)),), s))
                    continue
                d = I.deref(arg[2], s)
                if d[0] == "S" and arg[1] == "display":
                    nxt.append((acc + (("lit", d[1]),), s))
                    continue
                body = display_impl(I, d) if arg[1] == "display" else None
                if body is None:
                    nxt.append((acc + (("val", arg[1], I.canon(d, s)),), s))
                else:
                    for pp, s2 in run_fmt(I, body, arg[2], s):
                        nxt.append((acc + pp, s2))
        cur = nxt
    return cur


def display_impl(I, d):
    name = d[1] if d[0] == "A" else (I.tk(I.F.peel(d[2])).get("def") if d[0] == "Sym" and d[2] is not None else None)
    if name is None:
        return None
    for i, b in enumerate(I.F.bodies):
        if b["path"] == "<%s as std::fmt::Display>::fmt" % name or (
            b["path"].startswith("<%s<" % name) and b["path"].endswith("as std::fmt::Display>::fmt")
        ):
            return i
    return None


def run_fmt(I, body, v, st):
    cell = ("h", I.fresh())
    st = st.copy()
    st.mem[cell] = ("Out", ())
    res = []
    for k, r, s in I.exec(body, [v, ("R", cell, ())], st):
        if k == "ret":
            o = s.mem[cell]
            del s.mem[cell]
            res.append((o[1] if o[0] == "Out" else (("val", "?", o),), s))
        else:
            res.append(((("val", k, str(r)),), s))
    return res


def out_cell(I, a, st):
    c = a
    for _ in range(10):
        if c[0] != "R":
            return None
        v = I.load(st, c[1], c[2])
        if v[0] in ("Out",) or is_string_cell(v):
            return c
        c = v
    return None


def is_string_cell(v):
    return v[0] in ("S", "Txt", "Sym")


def m_write_fmt(I, fn, args, st, dty):
    c = out_cell(I, args[0], st)
    f = I.deref(args[1], st)
    if c is None or f[0] != "Fmt":
        return None
    outs = []
    for ps, s in fmt_parts(I, f[1], st):
        emit(I, c, ps, s)
        outs.append(("ret", ok(UNIT), s))
    return outs


def emit(I, c, ps, s):
    v = I.load(s, c[1], c[2])
    if v[0] == "Out":
        I.store(s, c[1], c[2], ("Out", merge_lits(v[1] + tuple(ps))))
    elif v[0] == "S" and all(p[0] == "lit" for p in ps):
        I.store(s, c[1], c[2], ("S", v[1] + "".join(p[1] for p in ps)))
    else:
        I.store(s, c[1], c[2], I.unk("string build"))


def merge_lits(ps):
    out = []
    for p in ps:
        if p[0] == "lit" and out and out[-1][0] == "lit" and isinstance(p[1], str) and isinstance(out[-1][1], str):
            out[-1] = ("lit", out[-1][1] + p[1])
        else:
            out.append(p)
    return tuple(out)


def m_write_str(I, fn, args, st, dty):
    c = out_cell(I, args[0], st)
    if c is None:
        return None
    v = I.deref(args[1], st)
    if v[0] == "K":
        p = ("lit", chr(v[1]))
    elif v[0] == "S":
        p = ("lit", v[1])
    else:
        p = ("val", "display", I.canon(v, st))
    emit(I, c, (p,), st)
    return ret(ok(UNIT) if I.tk(dty).get("def") == RES else UNIT, st)


def m_format(I, fn, args, st, dty):
    f = I.deref(args[0], st)
    if f[0] != "Fmt":
        return None
    outs = []
    for ps, s in fmt_parts(I, f[1], st):
        outs.append(("ret", fmt_value(ps), s))
    return outs


def fmt_value(ps):
    ps = merge_lits(ps)
    if all(p[0] == "lit" and isinstance(p[1], str) for p in ps):
        return ("S", "".join(p[1] for p in ps))
    if len(ps) == 1 and ps[0][0] == "val" and ps[0][2][0] in ("Sym", "Txt", "Span"):
        v = ps[0][2]
        return v if v[0] != "Sym" else ("Sym", v[1], None)
    return ("Sym", ("fmt", ps), None)


def m_to_string(I, fn, args, st, dty):
    d = I.deref(args[0], st)
    if d[0] in TEXTY or is_text(I, d):
        return ret(d, st)
    if d[0] == "K":
        return ret(("S", chr(d[1])), st)
    body = display_impl(I, d)
    if body is None:
        return ret(("Sym", ("fmt", (("val", "display", I.canon(d, st)),)), dty), st)
    return [("ret", fmt_value(ps), s) for ps, s in run_fmt(I, body, args[0], st)]


def m_fmt_display(I, fn, args, st, dty):
    """Display::fmt called directly on a leaf."""
    c = out_cell(I, args[1], st) if len(args) > 1 else None
    if c is None:
        return None
    d = I.deref(args[0], st)
    body = display_impl(I, d)
    if body is not None:
        return I.exec(body, args, st)
    p = ("lit", d[1]) if d[0] == "S" else ("val", "display", I.canon(d, st))
    emit(I, c, (p,), st)
    return ret(ok(UNIT), st)


# ------------------------------------------------------------------ mem
def m_mem(I, fn, args, st, dty):
    name = last(fn["path"])
    c = cell_of(I, args[0], st)
    if c is None or c[1][0] == "val":
        return None
    old = I.load(st, c[1], c[2])
    if name == "replace":
        I.store(st, c[1], c[2], args[1])
        return ret(old, st)
    if name == "swap":
        c2 = cell_of(I, args[1], st)
        if c2 is None:
            return None
        o2 = I.load(st, c2[1], c2[2])
        I.store(st, c[1], c[2], o2)
        I.store(st, c2[1], c2[2], old)
        return ret(UNIT, st)
    if name == "take":
        v = m_default(I, fn, args, st, dty)
        if v is None:
            if old[0] == "L":
                v = ret(("L", ()), st)
            else:
                return None
        I.store(st, c[1], c[2], v[0][1])
        return ret(old, st)
    return None


def own_eq_derived(I, v):
    import absstd2

    ix = absstd2.own(I, v, "std::cmp::PartialEq", "eq")
    return ix is not None and bool(I.F.bodies[ix].get("derived"))


def m_unit(I, fn, args, st, dty):
    return ret(UNIT, st)


def m_contains(I, fn, args, st, dty):
    ps = parts_of(I, args[0], st)
    if ps is None:
        return None
    x = args[1]
    eqf = ("PyF", lambda I2, a, s: eq_call(I2, a[0], x, s))
    return quantify(I, ps, eqf, st, False)


def eq_call(I, a, b, st):
    """structural equality through derived code where local, else leaf"""
    da, db = I.deref(a, st), I.deref(b, st)
    if da[0] == "A" and db[0] == "A":
        if da[1] == db[1] and da[2] != db[2]:
            return ret(FALSE, st)
        if da[1] == db[1] and not da[3]:
            return ret(TRUE, st)
    if (da[0] == "A" and not da[3] and db[0] == "Sym") or (db[0] == "A" and not db[3] and da[0] == "Sym"):
        s, c = (da, db) if da[0] == "Sym" else (db, da)
        ad = I.variants(s[2])
        if ad is not None and ad["kind"] == "enum":
            d = ad["variants"][c[2]]["discr"]
            r = I.disc_eq(("Disc", s[1], s[2]), d, st)
            if r is None:
                r = ("Sym", ("deq", s[1], d, s[2]), None)
            return ret(r, st)
    r = eq_values(I, da, db, st)
    return ret(r if r is not None else I.unk("eq"), st)


def m_not(I, fn, args, st, dty):
    v = I.deref(args[0], st)
    if v[0] == "K":
        return ret(("K", 1 - v[1]), st)
    if v[0] == "Sym":
        return ret(("Sym", v[1][1] if v[1][0] == "not" else ("not", v[1]), v[2]), st)
    return None


MODELS = {}


def reg(f, *names):
    for n in names:
        MODELS[n] = f


IT = "std::iter::Iterator::"
for n in ("map",):
    reg(m_map, IT + n)
reg(m_filter, IT + "filter")
reg(m_filter_map, IT + "filter_map")
reg(m_flat_map, IT + "flat_map")
reg(m_flatten, IT + "flatten")
for n in ("cloned", "copied", "fuse", "by_ref", "peekable"):
    reg(m_ident_iter, IT + n)
reg(m_collect, IT + "collect", "std::iter::FromIterator::from_iter")
reg(m_next, IT + "next", "std::iter::DoubleEndedIterator::next_back")
reg(m_any, IT + "any", IT + "all")
reg(m_fold, IT + "fold")
reg(m_chain, IT + "chain")
reg(m_count, IT + "count", "std::iter::ExactSizeIterator::len")
reg(m_rev, IT + "rev")
reg(m_zip, IT + "zip", "std::iter::zip")
reg(m_skip, IT + "skip", IT + "take")
reg(m_once, "std::iter::once")
reg(lambda I, fn, a, st, d: ret(("It", ()), st), "std::iter::empty")
reg(m_into_iter, "std::iter::IntoIterator::into_iter")
reg(m_extend, "std::iter::Extend::extend", "std::vec::Vec::<T, A>::extend_from_slice")
reg(m_push, "std::vec::Vec::<T, A>::push", "std::vec::Vec::<T>::push")
reg(m_append, "std::vec::Vec::<T, A>::append")
reg(m_insert, "std::vec::Vec::<T, A>::insert", "std::collections::HashSet::<T, S, A>::insert",
    "std::collections::HashSet::<T, S>::insert", "std::collections::BTreeSet::<T, A>::insert")
reg(m_pop, "std::vec::Vec::<T, A>::pop")
reg(m_clear, "std::vec::Vec::<T, A>::clear")
reg(m_reverse, "core::slice::<impl [T]>::reverse")
for n in ("sort", "sort_unstable", "sort_by", "sort_by_key", "dedup", "dedup_by", "dedup_by_key", "retain", "truncate", "drain",
          "swap_remove", "remove", "swap", "rotate_left", "rotate_right", "sort_unstable_by", "sort_by_cached_key"):
    reg(m_reorder, "std::vec::Vec::<T, A>::" + n, "core::slice::<impl [T]>::" + n, "std::slice::<impl [T]>::" + n, "alloc::slice::<impl [T]>::" + n)
for n in ("first", "last", "split_first"):
    if n != "split_first":
        reg(m_first, "core::slice::<impl [T]>::" + n)
for n in ("iter", "iter_mut"):
    reg(m_ident_iter, "core::slice::<impl [T]>::" + n, "std::option::Option::<T>::" + n, "std::collections::HashSet::<T, S, A>::" + n,
        "std::collections::HashSet::<T, S>::" + n)
reg(m_ident, "core::slice::<impl [T]>::as_ref", "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice",
    "std::string::String::as_str", "std::vec::Vec::<T, A>::into_boxed_slice", "core::slice::<impl [T]>::into_vec",
    "std::slice::<impl [T]>::into_vec", "alloc::slice::<impl [T]>::into_vec", "alloc::slice::<impl [T]>::to_vec",
    "std::slice::<impl [T]>::to_vec", "core::slice::<impl [T]>::to_vec",
    "core::str::<impl str>::as_bytes", "core::str::<impl str>::to_owned", "std::string::String::into_boxed_str",
    "core::slice::<impl [T]>::as_slice",
    "std::convert::identity", "std::string::String::into_bytes", "core::str::<impl str>::into_string", "core::array::<impl [T; N]>::as_slice",
    "std::option::Option::<&T>::cloned", "std::option::Option::<&T>::copied", "std::borrow::ToOwned::to_owned",
    "std::borrow::Cow::<'_, B>::into_owned", "std::hint::black_box")
for c in ("std::vec::Vec::<T, A>::", "core::slice::<impl [T]>::", "std::string::String::", "core::str::<impl str>::",
          "std::collections::HashSet::<T, S, A>::", "std::collections::HashSet::<T, S>::"):
    reg(m_len, c + "len")
    reg(m_is_empty, c + "is_empty")
reg(m_contains, "core::slice::<impl [T]>::contains", "std::collections::HashSet::<T, S, A>::contains", "std::collections::HashSet::<T, S>::contains")
reg(m_index, "std::ops::Index::index")
reg(m_deref, "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
    "std::convert::AsMut::as_mut", "std::borrow::BorrowMut::borrow_mut")
reg(m_eq, "std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
reg(m_cmp, "std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
reg(m_clone, "std::clone::Clone::clone", "std::borrow::ToOwned::to_owned")
reg(m_into, "std::convert::Into::into", "std::convert::From::from")
reg(m_box_new, "std::boxed::Box::<T>::new")
reg(m_arc_new, "std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new")
reg(m_box_uninit, "std::boxed::Box::<T>::new_uninit")
reg(m_vec_from_box, "std::boxed::box_assume_init_into_vec_unsafe")
reg(m_chars, "core::str::<impl str>::chars", "core::str::<impl str>::bytes")
reg(m_empty_vec, "std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
reg(lambda I, fn, a, st, d: ret(("S", ""), st), "std::string::String::new", "std::string::String::with_capacity")
reg(m_empty_set, "std::collections::HashSet::<T>::new", "std::collections::HashSet::<T>::with_capacity")
reg(m_default, "std::default::Default::default")
reg(m_parse, "std::str::FromStr::from_str", "core::str::<impl str>::parse")
FCLASS = FCLASS + ("is_subnormal",)
for n in FCLASS:
    reg(m_fclass, "core::f32::<impl f32>::" + n, "std::f32::<impl f32>::" + n, "core::f64::<impl f64>::" + n, "std::f64::<impl f64>::" + n)
for n in ("total_cmp", "to_bits", "abs", "from_bits", "floor", "ceil", "trunc", "round", "max", "min", "clamp", "copysign", "signum"):
    reg(m_unary, "core::f32::<impl f32>::" + n, "std::f32::<impl f32>::" + n, "core::f64::<impl f64>::" + n, "std::f64::<impl f64>::" + n)
for n in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case"):
    reg(m_str_pred, "core::str::<impl str>::" + n)
for n in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end"):
    reg(m_str_case, "core::str::<impl str>::" + n, "std::str::<impl str>::" + n, "alloc::str::<impl str>::" + n)
for n in ("strip_prefix", "strip_suffix"):
    reg(m_strip, "core::str::<impl str>::" + n)
for n in CHARP:
    reg(m_char, "core::char::methods::<impl char>::" + n, "std::char::methods::<impl char>::" + n, "nom::AsChar::" + n)
reg(m_char, "core::char::methods::<impl char>::is_digit")
for n in ("new_display", "new_debug", "new_lower_hex", "new_lower_exp"):
    reg(m_new_display, "core::fmt::rt::Argument::<'_>::" + n)
reg(m_arguments_new, "std::fmt::Arguments::<'a>::new")
reg(m_arguments_str, "std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
reg(m_write_fmt, "std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt")
reg(m_write_str, "std::fmt::Formatter::<'a>::write_str", "std::fmt::Write::write_str", "std::fmt::Write::write_char",
    "std::string::String::push_str", "std::string::String::push", "std::fmt::Formatter::<'a>::pad")
reg(m_format, "std::fmt::format", "alloc::fmt::format")
reg(m_to_string, "std::string::ToString::to_string")
reg(m_fmt_display, "std::fmt::Display::fmt")
reg(m_hash, "std::hash::Hash::hash")
for n in ("write", "write_u8", "write_u16", "write_u32", "write_u64", "write_usize", "write_isize", "write_str", "write_length_prefix", "write_i32", "write_i64"):
    reg(m_hash_write, "std::hash::Hasher::" + n)
for n in ("replace", "swap", "take"):
    reg(m_mem, "std::mem::" + n)
reg(m_unit, "std::mem::drop", "std::mem::forget")
reg(m_not, "std::ops::Not::not")
for n in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_nounwind", "core::panicking::panic_explicit",
          "core::panicking::unreachable_display", "core::panicking::panic_display", "core::panicking::assert_failed",
          "core::panicking::panic_bounds_check", "std::rt::begin_panic", "std::rt::panic_fmt", "core::panicking::panic_const::panic_const_add_overflow",
          "std::option::unwrap_failed", "std::option::expect_failed", "std::result::unwrap_failed",
          "std::result::unwrap_failed::unwrap_failed_inner", "core::option::unwrap_failed", "core::option::expect_failed",
          "core::result::unwrap_failed", "std::process::abort", "std::process::exit", "core::panicking::panic_str_2015", "std::rt::panic_display",
          "core::panicking::panic_str_literal", "core::panicking::unreachable", "std::alloc::handle_alloc_error"):
    reg(m_panic, n)


def register(I):
    import absstd2  # noqa: F401  (adds its models)

    I.models.update(MODELS)


LOCAL_FIRST = ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne", "std::clone::Clone::clone", "std::convert::From::from",
               "std::convert::Into::into", "std::ops::Deref::deref", "std::iter::IntoIterator::into_iter", "std::default::Default::default",
               "std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp", "std::hash::Hash::hash", "std::fmt::Display::fmt",
               "std::convert::AsRef::as_ref", "std::str::FromStr::from_str", "std::iter::FromIterator::from_iter", "std::ops::Index::index",
               "std::iter::Extend::extend", "std::ops::DerefMut::deref_mut", "std::borrow::Borrow::borrow", "std::iter::Iterator::next",
               "std::ops::Not::not")


def pattern_model(I, fn, args, st, dty):
    """models not keyed by an exact path"""
    p = fn.get("rpath") or fn["path"]
    if "panicking" in p and "panic" in last(p):
        return m_panic(I, fn, args, st, dty)
    if p.endswith("precondition_check"):
        return ret(UNIT, st)
    return None


# ------------------------------------------------------------------ loops
def summarize_loop(I, ix, b, fid, st, header, blocks):
    return I.nom.summarize_loop(I, ix, b, fid, st, header, blocks)
