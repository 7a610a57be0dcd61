"""C19: equality, hashing, ordering and cloning of the public types look at every part.

Modular: an implementation is interpreted on pairs of values that differ in one part (and on equal ones) while the comparisons
it makes of the parts are taken to be right; those are obligations of their own (names: C13, numbers: C15).
"""
import itertools
import re
import ai, absstd, contract, fl
from api import NoSummary
from view import base

NAME = "crate::types::name::Name"
NUMBER = "crate::types::number::Number"
VEC = "std::vec::Vec"
ORD = absstd.ORD
TEXTS = ("a", "b", "A", "", "ab", "object", "number")


class Vals:
    """concrete values of a type: distinct, covering each variant, each part, and several lengths"""

    def __init__(self, A):
        self.A, self.F = A, A.F
        self.w = None
        self.memo = {}
        ad = self.F.adts.get(NUMBER)
        if ad and len(ad["variants"][0]["fields"]) == 1:
            self.w = fl.width(self.F.tys[ad["variants"][0]["fields"][0]["ty"]])

    def few(self, ty, depth, lvl):
        return self.values(ty, depth, lvl)[: self.WIDTH[min(lvl, len(self.WIDTH) - 1)]]

    WIDTH = (40, 14, 6, 4, 3)

    def values(self, ty, depth=7, lvl=0):
        key = (ty, depth, lvl)
        if key not in self.memo:
            try:
                self.memo[key] = self.make(ty, depth, lvl)
            except NoSummary as e:
                self.memo[key] = e
        r = self.memo[key]
        if isinstance(r, NoSummary):
            raise r
        return r

    def make(self, ty, depth, n):
        F = self.F
        t = F.tys[ty]
        k = t["k"]
        if k == "ref":
            return self.values(t["e"], depth, n)
        if k == "str":
            return [("S", x) for x in TEXTS]
        if k == "bool":
            return [("K", 0), ("K", 1)]
        if k in ("int", "uint"):
            return [("K", x) for x in (0, 1, 2, 7)]
        if k == "float":
            w = fl.width(t)
            return [fl.mk(w, x) for x in (0.0, 1.0, -1.0, 1.5, 1.0000001)]
        if k in ("param", "alias"):
            return [("Sym", ("leaf", i), ty) for i in range(3)]
        if k == "tuple":
            return [("T", x) for x in self.product(t["e"], depth, n)]
        if k in ("slice", "array"):
            return self.lists(t["e"], depth, n)
        if k != "adt":
            raise NoSummary("values of %s" % t["s"])
        d = t["def"]
        if d in (VEC, "alloc::vec::Vec"):
            return self.lists(t["args"][0], depth, n)
        if d in ("std::vec::IntoIter", "std::slice::Iter", "std::slice::IterMut"):
            a = [x for x in t["args"] if F.tys[x]["k"] != "region"]
            return [("It", x[1]) for x in self.lists(a[0], depth, n)]
        if d in ("std::iter::Once", "std::option::IntoIter", "std::iter::Empty"):
            one = [] if d.endswith("Empty") else [("It", (("e", x),)) for x in self.few(t["args"][0], depth, n + 1)]
            return one + [("It", ())]
        if d == "std::boxed::Box":
            return [("Box", x) for x in self.values(t["args"][0], depth, n)]
        if d in ("std::sync::Arc", "std::rc::Rc"):
            return [("Arc", x) for x in self.values(t["args"][0], depth, n)]
        if d.endswith("::String") and not d.startswith("crate::"):
            return [("S", x) for x in TEXTS]
        if d == "std::option::Option":
            return [("A", d, 0, ())] + [("A", d, 1, (x,)) for x in self.few(t["args"][0], depth, n + 1)]
        if d == NAME:
            return [("Nm", ("S", x)) for x in TEXTS]
        if d == NUMBER and self.w:
            return [("A", d, 0, (fl.mk(self.w, x),)) for x in (0.0, 1.0, -1.0, 1.5, 1.0000001)]
        ad = F.adts.get(d)
        if ad is None or not d.startswith("crate::"):
            raise NoSummary("values of " + d)
        out = []
        fts = t.get("ft")
        for vi, va in enumerate(ad["variants"]):
            fs = fts[vi] if fts and vi < len(fts) else [f["ty"] for f in va["fields"]]
            if fs and depth <= 0:
                continue
            try:
                for c in self.product(fs, depth - 1, n):
                    out.append(("A", d, vi, c))
            except NoBase:
                continue
        if not out and depth <= 0:
            raise NoBase("too deep: " + d)
        out = spread(out)  # variants in turn
        return out

    def product(self, tys, depth, n):
        """the first value of every part, then each part varied alone"""
        cols = []
        for x in tys:
            v = self.few(x, depth, n + 1)
            if not v:
                raise NoBase("no value")
            cols.append(v)
        b = tuple(c[0] for c in cols)
        out = [b]
        for i, c in enumerate(cols):
            for x in c[1:]:
                out.append(b[:i] + (x,) + b[i + 1:])
        # equal alternatives in two places, to see exchanged parts
        same = [i for i in range(len(cols)) if len(cols[i]) > 1]
        for i, j in itertools.combinations(same, 2):
            if cols[i][:2] == cols[j][:2]:
                y = list(b)
                y[i], y[j] = cols[i][1], cols[j][0]
                for z in (tuple(y), tuple(y[:i] + [cols[i][0]] + y[i + 1:j] + [cols[j][1]] + y[j + 1:])):
                    if z not in out:
                        out.append(z)
        return out

    def lists(self, ety, depth, n):
        try:
            e = self.few(ety, depth - 1, max(n, 2))[:3] if depth > 0 else []
        except NoBase:
            e = []
        out = [()]
        if e:
            a = e[0]
            b = e[1] if len(e) > 1 else None
            if b is None:
                out += [(a,), (a, a), (a, a, a, a, a)]
            else:
                out += [(a,), (b,), (a, b), (b, a), (a, a), (a, a, b), (a, b, a), (b, b), (a, a, a, a, b), (a, a, a, a, a)]
        if len(e) > 2:
            out.append((e[2],))
        return [("L", tuple(("e", x) for x in y)) for y in out]


class NoBase(NoSummary):
    pass


def spread(vs):
    """one value of each variant first"""
    by = {}
    for v in vs:
        by.setdefault(v[2], []).append(v)
    out = []
    for row in itertools.zip_longest(*by.values()):
        out += [x for x in row if x is not None]
    return out


def concrete(v):
    if isinstance(v, tuple):
        if v[:1] == ("Unk",):
            return False
        if v[:1] == ("Sym",):
            return isinstance(v[1], tuple) and v[1][:1] == ("leaf",)
        return all(concrete(x) for x in v)
    return True


def plain(v):
    """values without ownership wrappers and type marks"""
    if isinstance(v, tuple):
        if v[:1] in (("Box",), ("Arc",)) and len(v) == 2:
            return plain(v[1])
        if v[:1] == ("Nm",) and isinstance(v[1], tuple):
            return plain(v[1])
        if v[:1] == ("Sym",):
            return v[:2]
        if v[:1] == ("R",) and isinstance(v[1], tuple) and v[1][:1] == ("val",) and not v[2]:
            return plain(v[1][1])
        return tuple(plain(x) for x in v)
    return v


def kind(v):
    p = plain(v)
    return p[1] if p[0] == "A" else p[0]


EQ = ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")


def cut(I, fn, fv, args, st, dty):
    p = fn["path"]
    if p in EQ and len(args) == 2:
        a, b = I.freeze(I.deref(args[0], st), st), I.freeze(I.deref(args[1], st), st)
        if concrete(a) and concrete(b) and kind(a) == kind(b):
            r = int(plain(a) == plain(b))
            return [("ret", ("K", r if p.endswith("eq") else 1 - r), st)]
        if a[0] == "Sym" and b[0] == "Sym" and a[1] != b[1] and p.endswith("::eq"):
            return [("ret", ("Sym", ("eq",) + tuple(sorted((a[1], b[1]), key=repr)), None), st)]
        return None
    if p == "std::clone::Clone::clone" and len(args) == 1:
        return [("ret", I.freeze(I.deref(args[0], st), st), st)]
    if p == "std::hash::Hash::hash" and len(args) == 2:
        v = I.freeze(I.deref(args[0], st), st)
        s = st.copy()
        if "('addr',)" in repr(v) or len(v) > 2 and v[0] == "Sym" and v[2] is not None and I.tk(v[2])["k"] == "ptr":
            s.notes = s.notes + (("hash", "address"),)
            return [("ret", ai.UNIT, s)]
        s.notes = s.notes + (("hash", "val", plain(v)),)
        return [("ret", ai.UNIT, s)]
    if p.endswith(("::as_ptr", "std::ptr::from_ref")):
        return [("ret", ("Sym", ("addr",), dty), st)]
    if p in ("std::ptr::eq", "std::sync::Arc::<T, A>::ptr_eq", "std::rc::Rc::<T, A>::ptr_eq"):
        a, b = plain(I.freeze(I.deref(args[0], st), st)), plain(I.freeze(I.deref(args[1], st), st))
        if concrete(a) and concrete(b):
            if a != b:
                return [("ret", ("K", 0), st)]
            return [("ret", ("K", x), st.copy()) for x in (0, 1)]
    return None


def cut_eq(I, fn, fv, args, st, dty):
    """equality of concrete values; clones of them"""
    p = fn["path"]
    if (p in EQ or p == "std::clone::Clone::clone") and args:
        a = I.freeze(I.deref(args[0], st), st)
        if not concrete(a):
            return None
        return cut(I, fn, fv, args, st, dty)
    return None


class Run:
    def __init__(self, A):
        self.A, self.F = A, A.F

    def __call__(self, f, args):
        A = self.A
        A.names_opaque, A.extra_cut = True, cut
        try:
            I = A.interp()
            I.floats = True
            I.max_steps = 20000
            try:
                return I.exec(f["inst"], args, ai.St()), I
            except (ai.Budget, ai.Unknown, RecursionError, KeyError, IndexError, TypeError, AttributeError) as e:
                raise NoSummary(repr(e)[:200])
        finally:
            A.names_opaque, A.extra_cut = True, None


def ref(v, n=1):
    for _ in range(n):
        v = ("R", ("val", v), ())
    return v


def refs(F, ty):
    n = 0
    while F.tys[ty]["k"] == "ref":
        n += 1
        ty = F.tys[ty]["e"]
    return n


def show(v, F, depth=0):
    """readable value"""
    v = plain(v)
    if v[0] == "A":
        ad = F.adts[v[1]]
        n = base(v[1]) + ("::" + ad["variants"][v[2]]["name"] if ad["kind"] == "enum" else "")
        if v[1].startswith("std::"):
            n = ad["variants"][v[2]]["name"]
        return n + ("(%s)" % ", ".join(show(x, F, depth + 1) for x in v[3]) if v[3] else "")
    if v[0] == "L":
        return "[%s]" % ", ".join(show(x[1], F) for x in v[1])
    if v[0] == "S":
        return repr(v[1])
    if v[0] == "Fl":
        return repr(fl.py(v))
    if v[0] == "Sym":
        return "x%s" % (v[1][1],)
    return str(v[1]) if len(v) > 1 else str(v)


def boolean(outs, I):
    """set of possible results, None when a path is not determined"""
    out = set()
    for k, v, s in outs:
        if k == "panic":
            out.add("panic")
            continue
        if k != "ret":
            return None
        v = I.canon(v, s)
        if v[0] != "K" or any(not isinstance(x, tuple) or x[0] not in ("same",) for x in s.facts):
            return None
        out.add(v[1])
    return out


def ordering(outs, I):
    out = set()
    for k, v, s in outs:
        if k != "ret":
            return None
        v = I.freeze(v, s)
        if v[0] == "A" and v[1].endswith("Option"):
            v = v[3][0] if v[3] else ("none",)
        if v[0] == "A" and v[1] == ORD and not [x for x in s.facts]:
            out.add(v[2])
        elif v == ("none",):
            out.add("none")
        else:
            return None
    return out


def C19(ctx, rep, api):
    A, F = api(ctx), ctx.F
    R = Run(A)
    V = Vals(A)
    fn_of = {}
    for f in F.fns:
        if f.get("inst") is not None and f.get("trait") and f.get("impl"):
            fn_of.setdefault(f["impl"], {})[f["name"]] = f
    impls = {}
    for im in F.impls:
        t = (im.get("trait") or "").split("::")[-1]
        if t not in ("PartialEq", "Eq", "Hash", "Clone", "Ord", "PartialOrd"):
            continue
        st = F.tys[F.peel(im["self"])]
        if st["k"] != "adt" or not st["def"].startswith("crate::types::"):
            continue
        impls.setdefault(st["def"], []).append((t, im))
    for d, l in sorted(impls.items()):
        ad = F.adts.get(d)
        if not (ad and ad.get("exported")) or d in (NAME, NUMBER):
            continue  # C13, C15
        one_type(ctx, rep, A, F, R, V, d, l, fn_of)
    rep.explanation = ("Every comparison, hash, ordering and clone implementation of the public types: one generated by derive visits every part of the type by construction (checked: it is derived, and every part's "
                       "type has the trait); any other is interpreted on pairs of equal values and of values differing in one variant, one part or one element, the comparison of the parts themselves being "
                       "other obligations. Comparisons between a wrapper and what it wraps must reduce to comparing the wrapped value.")
    rep.assumptions += ["derive generates structural implementations", "C13 and C15 for names and numbers"]


def one_type(ctx, rep, A, F, R, V, d, l, fn_of):
    n = base(d)
    have = {t for t, im in l}
    for t, im in l:
        fns = fn_of.get(im["path"], {})
        what = contract.norm(im["path"])
        if t == "Eq":
            continue
        if im["derived"]:
            if t == "PartialOrd" or t == "Ord":
                other = {"PartialOrd": "Ord", "Ord": "PartialOrd"}[t]
                if any(x == other and not i2["derived"] for x, i2 in l):
                    pass  # compared below through the other one
            rep.ok(what, "derived: all %d variants, %d parts" % (len(F.adts[d]["variants"]), sum(len(v["fields"]) for v in F.adts[d]["variants"])))
            rep.count("derived")
            continue
        rep.count("written")
        try:
            if t == "PartialEq":
                written_eq(rep, A, F, R, V, d, im, fns, what)
            elif t == "Clone":
                written_clone(rep, A, F, R, V, im, fns, what)
            elif t == "Hash":
                written_hash(rep, A, F, R, V, im, fns, what)
            else:
                written_ord(rep, A, F, R, V, im, t, fns, what, l, fn_of)
        except NoSummary as e:
            rep.undecided(what, e)
    if "PartialEq" not in have:
        return


def written_eq(rep, A, F, R, V, d, im, fns, what):
    f = fns.get("eq")
    if f is None:
        rep.undecided(what, "no eq")
        return
    l, r = F.peel(f["inputs"][0]), F.peel(f["inputs"][1])
    nl, nr = refs(F, f["inputs"][0]), refs(F, f["inputs"][1])
    tl, tr = F.tys[l], F.tys[r]
    if tr["k"] == "str" or tr.get("def", "").endswith("::String"):
        rep.ok(what, "comparison with text: C11/C13")
        return
    same = tl["k"] == "adt" and tr["k"] == "adt" and tl["def"] == tr["def"]
    want = None
    if not same:
        # a wrapper and what it wraps
        ad = F.adts[tl["def"]] if tl["k"] == "adt" and tl["def"] in F.adts else None
        if ad is None or ad["kind"] != "struct" or len(ad["variants"][0]["fields"]) != 1:
            rep.undecided(what, "comparison of different types")
            return
    bad = n = und = 0
    shown = not same and symbolic(rep, A, F, R, f, l, r, nl, nr)
    try:
        vs = V.values(l)
    except NoSummary as e:
        if shown:
            rep.ok(what, "compares the wrapped value with the other one")
        else:
            rep.undecided(what, e)
        return
    vs = vs[:80]
    for a in vs:
        for b in vs:
            rv = b
            if not same:
                rv = plain(b)[3][0] if b[0] == "A" else b
                rv = b[3][0]
            for m in ("eq", "ne"):
                g = fns.get(m)
                if g is None:
                    continue
                try:
                    outs, I = R(g, [ref(a, nl), ref(rv, nr)])
                    x = boolean(outs, I)
                except NoSummary as e:
                    x, why = None, e
                if x is None:
                    und += 1
                    if und > 60 and n == 0:
                        break
                    continue
                n += 1
                exp = int(plain(a) == plain(b)) if m == "eq" else int(plain(a) != plain(b))
                if x != {exp} and not bad:
                    bad += 1
                    rep.bad("eq:" + what, "%s: %s and %s compare as %s" % (what, show(a, F), show(rv, F), "panic" if "panic" in x else "equal" if (m == "eq") == (1 in x) else "unequal"), f["span"], left=repr(a), right=repr(rv))
        if und > 60 and n == 0:
            break
    rep.count("pairs", n)
    if bad:
        return
    if shown:
        rep.ok(what, "compares the wrapped value with the other one; right on %d pairs" % n)
    elif same and n and not und:
        rep.ok(what, "right on %d pairs: equal, other variant, one part or element different" % n)
        rep.bounded = "hand-written implementations are decided on pairs of values which differ in one place"
    else:
        rep.undecided(what, "%d pairs right, %d not determined" % (n, und))


def symbolic(rep, A, F, R, f, l, r, nl, nr):
    a, b = ("Sym", ("arg", 0), l), ("Sym", ("arg", 1), r)
    try:
        outs, I = R(f, [ref(a, nl), ref(b, nr)])
    except NoSummary:
        return False
    if len(outs) != 1 or outs[0][0] != "ret":
        return False
    v = I.canon(outs[0][1], outs[0][2])
    return v[0] == "Sym" and v[1] == ("eq",) + tuple(sorted((("fld", ("arg", 0), 0, 0), ("arg", 1)), key=repr))


def written_clone(rep, A, F, R, V, im, fns, what):
    f = fns.get("clone")
    n = und = 0
    for m, g in fns.items():
        for a in V.values(F.peel(g["inputs"][0]))[:90]:
            args = [ref(a)]
            try:
                if m == "clone":
                    outs, I = R(g, args)
                    for k, v, s in outs:
                        x = I.freeze(I.deref(v, s), s) if k == "ret" else None
                        if k == "panic":
                            rep.bad("clone:" + what, "%s panics for %s" % (what, show(a, F)), g["span"])
                        elif x is None or not concrete(x):
                            und += 1
                        elif plain(x) != plain(a):
                            rep.bad("clone:" + what, "the clone of %s is %s" % (show(a, F), show(x, F)), g["span"])
                        else:
                            n += 1
                elif m == "clone_from":
                    und += 1
            except NoSummary:
                und += 1
    (rep.ok if n and not und else rep.undecided)(what, "gives an equal value for %d values of every variant%s" % (n, "; %d not determined" % und if und else ""))


def written_hash(rep, A, F, R, V, im, fns, what):
    g = fns.get("hash")
    if g is None:
        rep.undecided(what, "no hash")
        return
    n = und = 0
    by = {}
    for a in V.values(F.peel(g["inputs"][0]))[:60]:
        try:
            outs, I = R(g, [ref(a), ("Sym", ("hasher",), None)])
        except NoSummary:
            und += 1
            continue
        hs = set()
        for k, v, s in outs:
            if ("hash", "address") in s.notes or any(x[0] == "hash" and "('addr',)" in repr(x) for x in s.notes):
                rep.bad("hash:" + what, "the hash of %s depends on where it is stored: equal values hash differently" % show(a, F), g["span"])
            if k != "ret" or "Unk" in repr(s.notes) or any(x[0] == "opaque" for x in s.notes):
                hs = None
                break
            hs.add(tuple(x for x in s.notes if x[0] == "hash"))
        if hs is None:
            und += 1
        elif len(hs) > 1:
            rep.bad("hash:" + what, "equal values %s can hash differently" % show(a, F), g["span"])
        else:
            n += 1
    (rep.ok if n and not und else rep.undecided)(what, "a function of the parts that equality compares, on %d values%s" % (n, "; %d not determined" % und if und else ""))


def written_ord(rep, A, F, R, V, im, t, fns, what, l, fn_of):
    """a total order that agrees with equality; partial and total order agree"""
    ty = None
    cmps = {}
    for t2, i2 in l:
        for nme, g in fn_of.get(i2["path"], {}).items():
            if nme in ("cmp", "partial_cmp", "lt", "le", "gt", "ge", "max", "min"):
                cmps[nme] = g
    g = fns.get("cmp") or fns.get("partial_cmp")
    if g is None:
        rep.undecided(what, "no comparison")
        return
    ty = F.peel(g["inputs"][0])
    vs = V.values(ty)[:24]
    res, und = {}, 0
    for nme, h in cmps.items():
        if nme in ("max", "min"):
            continue
        for i, a in enumerate(vs):
            for j, b in enumerate(vs):
                try:
                    outs, I = R(h, [ref(a), ref(b)])
                    x = (ordering if nme in ("cmp", "partial_cmp") else boolean)(outs, I)
                except NoSummary:
                    x = None
                if x is None or len(x) != 1:
                    und += 1
                    continue
                res[nme, i, j] = list(x)[0]
    w = lambda x: {0: "less", 1: "equal", 2: "greater", "none": "unordered"}.get(x, x)
    for (nme, i, j), x in res.items():
        if nme not in ("cmp", "partial_cmp"):
            c = res.get(("partial_cmp", i, j), res.get(("cmp", i, j)))
            if c is not None and c != "none" and x != int({"lt": c == 0, "le": c <= 1, "gt": c == 2, "ge": c >= 1}[nme]):
                rep.bad("ord:" + what, "%s: %s is inconsistent with the order for %s and %s" % (what, nme, show(vs[i], F), show(vs[j], F)), g["span"])
            continue
        if (x == 1) != (i == j or plain(vs[i]) == plain(vs[j])):
            rep.bad("ord:" + what, "%s: %s and %s order as %s" % (what, show(vs[i], F), show(vs[j], F), w(x)), g["span"])
        y = res.get((nme, j, i))
        if y is not None and x != "none" and y != "none" and x + y != 2:
            rep.bad("ord:" + what, "%s: %s and %s order as %s, the other way round as %s" % (what, show(vs[i], F), show(vs[j], F), w(x), w(y)), g["span"])
        z = res.get(("cmp" if nme == "partial_cmp" else "partial_cmp", i, j))
        if z is not None and z != x:
            rep.bad("ord:" + what, "%s: cmp and partial_cmp differ on %s and %s" % (what, show(vs[i], F), show(vs[j], F)), g["span"])
        for k in range(len(vs)):
            if x == 0 and res.get((nme, j, k)) == 0 and res.get((nme, i, k), 0) != 0:
                rep.bad("ord:" + what, "%s: not transitive on %s, %s, %s" % (what, show(vs[i], F), show(vs[j], F), show(vs[k], F)), g["span"])
    if res and not und:
        rep.ok(what, "total order agreeing with equality on %d pairs" % len(res))
    else:
        rep.undecided(what, "%d pairs determined, %d not" % (len(res), und))
