"""C18: is_empty of goals and constraints against its recursive definition."""
import itertools
import ai
from api import NoSummary
from view import base

# variant -> what must be empty: () never empty; fields of the variant (a list field: every element)
DEF = {
    "GoalDefinition": {"AtomicFormula": None, "Literal": None, "And": (0,), "Or": (0,), "Not": (0,), "Imply": (0, 1), "Exists": (1,), "ForAll": (1,), "FComp": None},
    "ConGD": {"And": (0,), "Forall": (1,), "AtEnd": (0,), "Always": (0,), "Sometime": (0,), "Within": (1,), "AtMostOnce": (0,), "SometimeAfter": (0, 1), "SometimeBefore": (0, 1), "AlwaysWithin": (1, 2), "HoldDuring": (2,), "HoldAfter": (1,)},
    "Con2GD": {"Goal": (0,), "Nested": (0,)},
    "PrefConGD": {"Forall": (1,), "Preference": (1,), "Goal": (0,)},
    "DurationConstraint": {"Single": None, "All": ("list", 0)},
    "Preference": {"Preference": (1,)},
    # sequences: empty when they have no element
    "PreconditionGoalDefinitions": {"PreconditionGoalDefinitions": ("list", 0)},
    "PrefConGDs": {"PrefConGDs": ("list", 0)},
    "Effects": {"Effects": ("list", 0)},
}
VEC = "std::vec::Vec"


class Empty:
    def __init__(self, A):
        self.A, self.F = A, A.F
        self.adt = {base(p): a for p, a in self.F.adts.items() if p.startswith("crate::types::") and base(p) in DEF}
        self.n = 0
        self.memo = {}

    def strip(self, ty):
        """type behind Box/Arc/references"""
        while True:
            t = self.F.tys[ty]
            if t["k"] == "ref":
                ty = t["e"]
            elif t["k"] == "adt" and t["def"] in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc"):
                ty = t["args"][0]
            else:
                return ty

    def wrap(self, ty, v):
        t = self.F.tys[ty]
        if t["k"] == "adt" and t["def"] == "std::boxed::Box":
            return ("Box", self.wrap(t["args"][0], v))
        if t["k"] == "adt" and t["def"] in ("std::sync::Arc", "std::rc::Rc"):
            return ("Arc", self.wrap(t["args"][0], v))
        return v

    def leaf(self, ty):
        self.n += 1
        return ("Sym", ("leaf", self.n), ty)

    def values(self, ty, depth):
        """concrete values of a type: [(value, is it empty)]"""
        key = (ty, depth)
        if key in self.memo:
            return self.memo[key]
        s = self.strip(ty)
        t = self.F.tys[s]
        out = []
        if t["k"] == "adt" and base(t["def"]) in self.adt and t["def"] == self.adt[base(t["def"])]["path"]:
            n = base(t["def"])
            for vi, va in enumerate(self.adt[n]["variants"]):
                for fs, e in self.variant(n, vi, va, depth):
                    out.append((self.wrap(ty, ("A", t["def"], vi, tuple(fs))), e))
        elif t["k"] == "adt" and t["def"] == VEC and self.in_family(t["args"][0]):
            elems = self.values(t["args"][0], depth) if depth > 0 else []
            out.append((self.wrap(ty, ("L", ())), True))
            em = [x for x in elems if x[1]][:2]
            ne = [x for x in elems if not x[1]][:2]
            pick = em + ne
            for n in (1, 2, 3):
                for c in itertools.product(pick, repeat=n):
                    if n == 3 and len(pick) > 2:
                        c = c
                    out.append((self.wrap(ty, ("L", tuple(("e", x[0]) for x in c))), all(x[1] for x in c)))
        else:
            out.append((self.leaf(ty), False))
        self.memo[key] = out
        return out

    def in_family(self, ty):
        t = self.F.tys[self.strip(ty)]
        return t["k"] == "adt" and (base(t["def"]) in self.adt or t["def"] == VEC and self.in_family(t["args"][0]))

    def variant(self, n, vi, va, depth):
        """field values of a variant with whether it is empty"""
        d = DEF[n].get(va["name"], "?")
        if d == "?":
            return
        fields = va["fields"]
        if d is None:
            yield [self.leaf(f["ty"]) for f in fields], False
            return
        if d[0] == "list":
            i = d[1]
            if i >= len(fields):
                return
            for k in (0, 1, 2):
                fs = [self.leaf(f["ty"]) for f in fields]
                fs[i] = self.wrap(fields[i]["ty"], ("L", tuple(("e", self.leaf(self.elem(fields[i]["ty"]))) for _ in range(k))))
                yield fs, k == 0
            # elements that are themselves empty do not make the sequence empty
            ety = self.elem(fields[i]["ty"])
            if depth > 0 and ety is not None and self.in_family(ety):
                for x, e in [y for y in self.values(ety, depth - 1) if y[1]][:2]:
                    fs = [self.leaf(f["ty"]) for f in fields]
                    fs[i] = self.wrap(fields[i]["ty"], ("L", (("e", x),)))
                    yield fs, False
            return
        if depth <= 0:
            return
        if max(d) >= len(fields):
            return
        pools = [self.values(fields[i]["ty"], depth - 1) for i in d]
        lim = 60 if depth > 1 else 30
        pools = [self.thin(p, lim if len(pools) == 1 else 8) for p in pools]
        for c in itertools.product(*pools):
            fs = [self.leaf(f["ty"]) for f in fields]
            for i, x in zip(d, c):
                fs[i] = x[0]
            yield fs, all(x[1] for x in c)

    def thin(self, p, n):
        if len(p) <= n:
            return p
        step = len(p) / n
        return [p[int(i * step)] for i in range(n)]

    def elem(self, ty):
        t = self.F.tys[self.strip(ty)]
        return t["args"][0] if t["k"] == "adt" and t.get("args") else None


def C18(ctx, rep, api):
    A = api(ctx)
    E = Empty(A)
    F = ctx.F
    todo = []
    for f in F.fns:
        if f["name"] != "is_empty" or not f["has_self"] or f.get("inst") is None or f.get("trait"):
            continue
        t = F.tys[F.peel(f["inputs"][0])]
        if t["k"] == "adt" and base(t["def"]) in E.adt:
            todo.append((base(t["def"]), f, F.peel(f["inputs"][0])))
    seen = {n for n, f, t in todo}
    for n in sorted(DEF):
        if n not in seen:
            rep.undecided("%s::is_empty" % n, "not found")
    meth = {f["path"]: n for n, f, t in todo}
    for n, f, ty in todo:
        step(rep, A, E, F, n, f, ty, meth)
    for n, f, ty in todo:
        deep(rep, A, E, n, f, ty, 4 if ctx.thorough else 3)
    rep.explanation = ("Every is_empty is interpreted variant by variant with the emptiness of its parts unknown (list fields with 0 to 3 parts): on every path the answer must be the one the recursive definition gives for "
                       "that variant under the parts tested; by induction over the structure this decides all nestings. Nested concrete values are evaluated as well to confirm differences.")


def step(rep, A, E, F, n, f, ty, meth):
    """one level: the parts' own emptiness is unknown"""
    ad = E.adt[n]

    def cut(I, fn, fv, args, st, dty):
        p = fn.get("rpath") or fn["path"]
        if p in meth and len(args) == 1:
            v = I.deref(args[0], st)
            if v[0] == "Sym" and v[1][0] == "part":
                return [("ret", I.boolsym(("isempty", v[1]), st), st)]
        return None

    for vi, va in enumerate(ad["variants"]):
        d = DEF[n].get(va["name"], "?")
        what = "%s::is_empty of %s" % (n, va["name"]) if len(ad["variants"]) > 1 else "%s::is_empty" % n
        if d == "?":
            rep.undecided(what, "a variant the definition does not know")
            continue
        good = True
        paths = 0
        for shape in shapes(E, va, d):
            fs, parts = shape
            A.names_opaque, A.extra_cut = False, cut
            try:
                I = A.interp()
                I.max_steps = 20000
                outs = I.exec(f["inst"], [("R", ("val", ("A", ad["path"], vi, tuple(fs))), ())], ai.St())
            except (ai.Budget, ai.Unknown, RecursionError, KeyError, IndexError, TypeError) as e:
                good = False
                rep.undecided(what, repr(e))
                break
            finally:
                A.names_opaque, A.extra_cut = True, None
            for k, v, s in outs:
                paths += 1
                if k == "panic":
                    good = False
                    rep.bad("panic:" + what, "%s panics" % what, f["span"])
                    continue
                r = I.canon(v, s) if k == "ret" else ("Unk",)
                if r[0] == "Sym" and isinstance(r[1], tuple) and r[1][0] == "isempty":
                    outs2 = [(1, dict(s.facts, **{})), (0, dict(s.facts))]
                    outs2 = []
                    for b in (0, 1):
                        fa = dict(s.facts)
                        fa[r[1]] = b
                        outs2.append((b, fa))
                elif r[0] == "Sym" and isinstance(r[1], tuple) and r[1][0] == "not" and r[1][1][0] == "isempty":
                    outs2 = []
                    for b in (0, 1):
                        fa = dict(s.facts)
                        fa[r[1][1]] = b
                        outs2.append((1 - b, fa))
                elif r[0] == "K":
                    outs2 = [(r[1], s.facts)]
                else:
                    good = False
                    rep.undecided(what, "result not determined: %s" % (r,))
                    continue
                for b, fa in outs2:
                    other = [x for x in fa if not (isinstance(x, tuple) and x[0] == "isempty")]
                    if other and not (len(other) <= 3 and all(on_leaf(x) for x in other)):
                        good = False
                        rep.undecided(what, "depends on %s" % (other[0],))
                        continue
                    vals = [fa.get(("isempty", p)) for p in parts] if parts is not None else None
                    if parts is None:
                        want = {0}
                    elif parts == "list":
                        want = {int(not fs[d[1]] or nelem(fs[d[1]]) == 0)}
                    elif any(x == 0 for x in vals):
                        want = {0}
                    elif all(x == 1 for x in vals):
                        want = {1}
                    else:
                        want = {0, 1}
                    if {b} != want:
                        good = False
                        shown = "" if not parts or parts == "list" else " with %d part(s), of which %s" % (len(parts), ", ".join({None: "one not looked at", 0: "one not empty", 1: "one empty"}[x] for x in vals) or "none")
                        rep.bad("step:" + what, "%s%s is %s" % (what, shown, "true" if b else "false"), f["span"])
        rep.count("paths", paths)
        if good:
            rep.ok(what, "as defined, on each of %d paths" % paths)


def on_leaf(x):
    """a fact about the length or variant of a part that does not count (such as a list of variables): can be either way"""
    if isinstance(x, tuple) and x[:1] in (("lenlo",), ("lenhi",), ("ne",)):
        x = x[1]
    while isinstance(x, tuple) and x[0] == "fld":
        x = x[1]
    return isinstance(x, tuple) and x[0] == "leaf"


def nelem(v):
    while v[0] in ("Box", "Arc"):
        v = v[1]
    return len(v[1])


def shapes(E, va, d):
    fields = va["fields"]
    mk = lambda: [E.leaf(f["ty"]) for f in fields]
    if d is None:
        yield mk(), None
        return
    if d[0] == "list":
        for k in (0, 1, 2):
            fs = mk()
            i = d[1]
            if i >= len(fields):
                return
            ety = E.elem(fields[i]["ty"])
            fs[i] = E.wrap(fields[i]["ty"], ("L", tuple(("e", ("Sym", ("part", i, j), ety)) for j in range(k))))
            yield fs, "list"
        return
    if max(d) >= len(fields):
        return
    lists = [i for i in d if E.F.tys[E.strip(fields[i]["ty"])].get("def") == VEC]
    for ns in itertools.product((0, 1, 2, 3), repeat=len(lists)):
        fs = mk()
        parts = []
        for i in d:
            ty = fields[i]["ty"]
            if i in lists:
                k = ns[lists.index(i)]
                ety = E.elem(ty)
                ps = [("part", i, j) for j in range(k)]
                fs[i] = E.wrap(ty, ("L", tuple(("e", ("Sym", p, ety)) for p in ps)))
                parts += ps
            else:
                p = ("part", i)
                fs[i] = E.wrap(ty, ("Sym", p, E.strip(ty)))
                parts.append(p)
        yield fs, parts


def deep(rep, A, E, n, f, ty, depth):
    """nested concrete values, nothing cut"""
    vals = E.thin(E.values(ty, depth), 600)
    und = done = 0
    queue = [(v, want, 0) for v, want in vals]
    more = 0
    while queue:
        v, want, tries = queue.pop(0)
        A.names_opaque = False
        try:
            I = A.interp()
            I.max_steps = 5000
            I.floats = tries > 0
            outs = I.exec(f["inst"], [("R", ("val", v), ())], ai.St())
        except (ai.Budget, ai.Unknown, RecursionError, KeyError, IndexError, TypeError):
            und += 1
            continue
        finally:
            A.names_opaque = True
        rs = {I.canon(r, s) for k, r, s in outs if k == "ret"}
        if len(rs) == 1 and len(outs) == 1 and list(rs)[0][0] == "K":
            done += 1
            got = bool(list(rs)[0][1])
            if got != want:
                rep.bad("value:" + n, "%s::is_empty of %s is %s" % (n, show(E, v), str(got).lower()), f["span"])
                return
        else:
            und += 1
            # the answer depends on parts that should not count: give them values
            if tries == 0 and more < 120:
                more += 1
                queue += [(w, want, 1) for w in with_leaves(E, A, v)]
    rep.count("nested_values", done)
    if und and not done:
        rep.undecided("%s: nested values" % n, "none evaluated")


def with_leaves(E, A, v):
    """the value with its open parts replaced by values of their types"""
    from p_eq import Vals

    if not hasattr(E, "vals"):
        E.vals = Vals(A)
    for i in range(6):
        n = [i]

        def go(x):
            if x[0] == "Sym" and x[1][0] == "leaf":
                vs = E.vals.few(x[2], 4, 1)
                n[0] += 1
                return vs[(n[0] - 1) % len(vs)]
            if x[0] == "A":
                return ("A", x[1], x[2], tuple(go(y) for y in x[3]))
            if x[0] in ("Box", "Arc"):
                return (x[0], go(x[1]))
            if x[0] == "L":
                return ("L", tuple(("e", go(y[1])) for y in x[1]))
            return x

        try:
            yield go(v)
        except (NoSummary, KeyError, IndexError):
            return


def show(E, v):
    if v[0] == "A":
        ad = E.F.adts[v[1]]
        va = ad["variants"][v[2]]["name"]
        inner = ", ".join(show(E, x) for x in v[3])
        return va + ("(%s)" % inner if inner else "")
    if v[0] in ("Box", "Arc"):
        return show(E, v[1])
    if v[0] == "L":
        return "[%s]" % ", ".join(show(E, x[1]) for x in v[1])
    if v[0] == "Fl":
        import fl

        return repr(fl.py(v))
    return "_"
