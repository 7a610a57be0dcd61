"""Concrete evaluation of summaries (conditions => outcome trees) on user-visible argument values, and generation of such values.

Only used to confirm that two summaries which are written differently really differ: nothing of the crate is run.
Values: ("V","Enum::Var",fields) ("W","Struct",((part,value),..)) ("L",items) ("T",items) ("S",text) ("Nm",text) ("N",number) ("K",int)
("X",n) an arbitrary value of a generic parameter.
"""
import math
import random
import struct
from spec import STRUCTS, field_ix, strip_acc
from view import base


class EvErr(Exception):
    pass


ORD = {"Less": -1, "Equal": 0, "Greater": 1}


CHANGED = ("take", "skip", "rev", "step_by", "truncate", "dedup")  # lists after a call of std that changes them


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def fbits(n):
    return struct.unpack("<f", struct.pack("<I", n & 0xFFFFFFFF))[0]


def variant(v):
    if v[0] == "V":
        return v[1].split("::")[-1]
    raise EvErr("variant of %s" % (v,))


def as_text(v):
    if v[0] in ("S", "Nm"):
        return v[1]
    if v[0] == "W" and len(v[2]) == 1:
        return as_text(v[2][0][1])
    raise EvErr("text of %s" % (v,))


def as_num(v):
    if v[0] in ("N", "K"):
        return v[1]
    if v[0] == "W" and len(v[2]) == 1:
        return as_num(v[2][0][1])
    raise EvErr("number of %s" % (v,))


def as_list(v):
    if v[0] in ("L", "T"):
        return v[1]
    if v[0] == "V" and v[1] in ("Option::Some", "Option::None"):
        return v[2]
    if v[0] == "W" and len(v[2]) == 1:
        return as_list(v[2][0][1])
    raise EvErr("elements of %s" % (v,))


def truth(v):
    if v in (0, 1):
        return v
    if isinstance(v, tuple) and v[0] == "K":
        return v[1]
    raise EvErr("truth of %s" % (v,))


class Env:
    def __init__(self, args, fns=None):
        self.args = args
        self.elts = {}
        self.fns = fns or {}

    def ev(self, t):
        if isinstance(t, str):
            if t[:1] == "a" and t[1:].isdigit():
                return self.args[int(t[1:])]
            raise EvErr(t)
        if isinstance(t, (int, float)):
            return ("K", t)
        h = t[0]
        if h == "S":
            return ("S", t[1])
        if h == "K":
            return ("K", t[1])
        if h == "F":
            return ("N", fbits(t[1]))
        if h == "leaf":
            return ("X", 1000 + t[1])
        if h == "unwrap":
            v = self.ev(t[1])
            if v[0] == "V" and v[1] == "Option::Some":
                return v[2][0]
            raise EvErr("unwrap")
        if h == "elt":
            if t[1] not in self.elts:
                raise EvErr("element outside its loop")
            return self.elts[t[1]]
        if h == "L":
            return ("L", tuple(self.parts(t[1])))
        if h in CHANGED:
            return ("L", tuple(self.items(t)))
        if h == "T":
            return ("T", tuple(self.ev(x) for x in t[1:]))
        if h in ("Some", "None"):
            return ("V", "Option::" + h, tuple(self.ev(x) for x in t[1:]))
        if h in ("Ok", "Err"):
            return ("V", "Result::" + h, tuple(self.ev(x) for x in t[1:]))
        if h == "RET":
            return ("RET", self.ev(t[1])) + tuple((k, self.ev(v)) for k, v in t[2:])
        if h == "PANIC":
            return ("PANIC",)
        if h == "Name":
            return ("Nm", as_text(self.ev(t[1])))
        if h == "Number":
            v = self.ev(t[1])
            return ("N", v[1]) if v[0] in ("N", "K") else v
        if h == "text":
            return ("S", as_text(self.ev(t[1])))
        if h == "len":
            v = self.ev(t[1])
            if v[0] in ("S", "Nm"):
                return ("K", len(v[1]))
            return ("K", len(as_list(v)))
        if h == "idx":
            i = self.ev(t[2])
            l = as_list(self.ev(t[1]))
            if i[0] == "K" and 0 <= i[1] < len(l):
                return l[i[1]]
            raise EvErr("index")
        if h == "discr":
            return ("S", variant(self.ev(t[1])))
        if h == "is":
            return ("K", int(variant(self.ev(t[1])) == t[2]))
        if h == "not":
            return ("K", 1 - truth(self.ev(t[1])))
        if h == "streq":
            return ("K", int(as_text(self.ev(t[1])) == as_text(self.ev(t[2]))))
        if h == "eq":
            a, b = self.ev(t[1]), self.ev(t[2])
            if a[0] == "N" or b[0] == "N":
                x, y = as_num(a), as_num(b)
                # bit patterns are compared when both are constants or bits: here equality of IEEE bits
                return ("K", int(struct.pack("<d", x) == struct.pack("<d", y)))
            return ("K", int(a == b))
        if h == "feq":
            return ("K", int(as_num(self.ev(t[1])) == as_num(self.ev(t[2]))))
        if h == "lt":
            return ("K", int(as_num(self.ev(t[1])) < as_num(self.ev(t[2]))))
        if h == "lenge":
            return ("K", int(len(as_list(self.ev(t[1]))) >= as_num(self.ev(t[2]))))
        if h == "finite":
            return ("K", int(math.isfinite(as_num(self.ev(t[1])))))
        if h == "cast" and t[2] == "f32":
            return ("N", f32(as_num(self.ev(t[1]))))
        if h[:1] == "." and h[1:].isdigit():
            v = self.ev(t[1])
            if v[0] == "T" and int(h[1:]) < len(v[1]):
                return v[1][int(h[1:])]
            raise EvErr("tuple")
        if h[:1] == "{":
            n = h[1:-1]
            return whole(n, tuple((strip_acc(a), self.ev(x)) for a, x in t[1:]))
        if "::" in h and "." in h:
            vn, i = h.rsplit(".", 1)
            v = self.ev(t[1])
            if v[0] == "V" and v[1] == vn and int(i) < len(v[2]):
                return v[2][int(i)]
            raise EvErr("field of another variant")
        if "." in h and len(t) == 2:
            n, acc = h.split(".", 1)
            v = self.ev(t[1])
            if n == "Number" and v[0] == "N":
                return v
            if v[0] == "W" and v[1] == n:
                for a, x in v[2]:
                    if a == strip_acc(acc):
                        return x
            if v[0] in ("X", "P"):
                # a part of whatever the argument converts to
                return ("P", n, strip_acc(acc), v)
            if v[0] == "Nm":
                # conversions into a one-part wrapper
                raise EvErr("part of a value of another type")
            raise EvErr("no part %s of %s" % (h, v[:2]))
        if "::" in h:
            return ("V", h, tuple(self.ev(x) for x in t[1:]))
        sp = STRUCTS.get(h)
        if sp == ["*"] and len(t) == 2:
            return ("W", h, (("*", self.ev(t[1])),))
        if h in self.fns:
            return self.fns[h](self, *[self.ev(x) for x in t[1:]])
        if len(t) == 1 and h[:1].isupper():
            return ("V", h, ())
        raise EvErr("uninterpreted %s" % (str(t)[:150],))

    def parts(self, ps):
        out = []
        for p in ps:
            if isinstance(p, tuple) and p and p[0] == "all":
                out += self.items(p[1])
            elif isinstance(p, tuple) and p and p[0] == "if-some":
                v = self.ev(p[1])
                if v[0] != "V":
                    raise EvErr("optional")
                if v[1] == "Option::Some":
                    out += self.parts(p[2])
            elif isinstance(p, tuple) and p and p[0] == "each" and not p[2] and isinstance(p[1], tuple) and p[1][0] in CHANGED:
                out += self.items(p[1])
            elif isinstance(p, tuple) and p and p[0] == "each":
                for x in self.items(p[1]):
                    old = self.elts.get(p[1])
                    self.elts[p[1]] = x
                    hit = [sub for cs, sub in p[2] if self.holds(cs)]
                    if len(hit) != 1:
                        raise EvErr("%d alternatives" % len(hit))
                    out += self.parts(hit[0])
                    self.elts[p[1]] = old
            elif isinstance(p, tuple) and len(p) == 2 and p[0] == "e":
                out.append(self.ev(p[1]))
            elif isinstance(p, tuple) and len(p) == 3 and p[0] == "sp" and len(p[2]) == 1 and not p[2][0][0]:
                for x in self.items(p[1]):
                    old = self.elts.get(p[1])
                    self.elts[p[1]] = x
                    out += self.parts(p[2][0][1])
                    self.elts[p[1]] = old
            else:
                out.append(self.ev(p))
        return out

    def items(self, kt):
        if isinstance(kt, tuple) and len(kt) > 1 and kt[0] in CHANGED:
            xs = list(as_list(self.ev(kt[1])))
            if kt[0] == "rev":
                return xs[::-1]
            if kt[0] == "dedup":
                return [x for i, x in enumerate(xs) if i == 0 or xs[i - 1] != x]
            n = kt[2] if isinstance(kt[2], int) else as_num(self.ev(kt[2]))
            return xs[:n] if kt[0] in ("take", "truncate") else xs[n:] if kt[0] == "skip" else xs[::n]
        if isinstance(kt, tuple) and kt and kt[0] == "drop":
            n = kt[2] if isinstance(kt[2], int) else as_num(self.ev(kt[2]))
            return list(as_list(self.ev(kt[1])))[n:]
        return list(as_list(self.ev(kt)))

    def cond(self, k, x):
        h = k[0] if isinstance(k, tuple) else None
        if h == "variant":
            v = variant(self.ev(k[1]))
            if isinstance(x, tuple) and x and x[0] == "not":
                return v not in x[1]
            return v == x
        if h in ("lenlo", "lenhi"):
            v = self.ev(k[1])
            n = len(v[1]) if v[0] in ("S", "Nm") else len(as_list(v))
            return n >= x if h == "lenlo" else n <= x
        if h == "leneq":
            v = self.ev(k[1])
            n = len(v[1]) if v[0] in ("S", "Nm") else len(as_list(v))
            m = k[2] if isinstance(k[2], int) else as_num(self.ev(k[2]))
            return int(n == m) == x
        if h == "lenge":
            v = self.ev(k[1])
            n = len(v[1]) if v[0] in ("S", "Nm") else len(as_list(v))
            m = k[2] if isinstance(k[2], int) else as_num(self.ev(k[2]))
            return int(n >= m) == x
        return truth(self.ev(k)) == x

    def holds(self, cs):
        return all(self.cond(k, x) for k, x in order(cs))


def order(cs):
    """variant and length conditions first: the others may only make sense under them"""
    return sorted(cs, key=lambda c: (len(repr(c[0])) if c[0][0] in ("variant", "lenlo", "lenhi") else 10 ** 6 + len(repr(c[0]))))


def whole(n, parts):
    """a struct of the given parts; all the parts of one opaque value, put together again, are that value"""
    if parts and all(x[0] == "P" and x[1] == n and x[2] == a for a, x in parts) and len({x[3] for a, x in parts}) == 1:
        return parts[0][1][3]
    return ("W", n, parts)


def run(summary, args, fns=None):
    """outcome of a summary on concrete arguments; EvErr when it is not determined"""
    hits = []
    for cs, o in summary:
        env = Env(args, fns)
        ok = True
        err = None
        for k, x in order(cs):
            try:
                if not env.cond(k, x):
                    ok = False
                    break
            except EvErr as e:
                err = e
        if ok:
            if err:
                raise err
            v = Env(args, fns).ev(o)
            if v not in hits:
                hits.append(v)
    if len(hits) != 1:
        raise EvErr("%d outcomes" % len(hits))
    return hits[0]


# ---------------------------------------------------------------- generating values
class Gen:
    def __init__(self, A, rnd, strings=(), lens=(0, 1, 2, 3), nums=(0.0, 1.0, 2.5, -3.0)):
        self.A = A
        self.F = A.F
        self.r = rnd
        self.strings = list(strings)
        self.lens = lens
        self.nums = nums
        self.n = 0

    def text(self):
        if self.strings and self.r.random() < 0.5:
            return self.r.choice(self.strings)
        if self.r.random() < 0.4:
            return self.r.choice(["n1", "n2", "n3"])
        self.n += 1
        return "u%d" % self.n

    def num(self):
        return self.r.choice(self.nums)

    def gen(self, ty, depth=0):
        ty = self.F.peel(ty)
        t = self.F.tys[ty]
        k = t["k"]
        if k == "str":
            return ("S", self.text())
        if k == "bool":
            return ("K", self.r.randrange(2))
        if k in ("int", "uint"):
            return ("K", self.r.choice([0, 1, 2, 3, 7]))
        if k == "float":
            return ("N", self.num())
        if k in ("slice", "array"):
            return self.lst(t["e"], depth)
        if k == "tuple":
            return ("T", tuple(self.gen(x, depth + 1) for x in t["e"]))
        if k == "adt":
            d = t["def"]
            if d in ("std::vec::Vec", "alloc::vec::Vec"):
                return self.lst(t["args"][0], depth)
            if d.endswith("::String") and not d.startswith("crate::"):
                return ("S", self.text())
            if d == "std::option::Option":
                if depth > 5 or self.r.random() < 0.4:
                    return ("V", "Option::None", ())
                return ("V", "Option::Some", (self.gen(t["args"][0], depth + 1),))
            if d == self.A.NAME:
                return ("Nm", self.text())
            ad = self.F.adts.get(d)
            if ad is None:
                raise EvErr("value of " + d)
            n = base(d)
            if ad["kind"] == "enum":
                vs = list(range(len(ad["variants"])))
                if depth > 4:
                    small = [i for i in vs if self.small(d, i)]
                    vs = small or vs
                if depth > 12:
                    raise EvErr("too deep")
                i = self.r.choice(vs)
                fts = t["ft"][i] if "ft" in t else ()
                return ("V", "%s::%s" % (n, ad["variants"][i]["name"]), tuple(self.gen(x, depth + 1) for x in fts))
            if n == "Number":
                return ("N", f32(self.num()))
            sp = STRUCTS.get(n)
            if sp is None:
                raise EvErr("value of " + d)
            if depth > 12:
                raise EvErr("too deep")
            if sp == ["*"]:
                return ("W", n, (("*", self.gen(t["ft"][0][0], depth + 1)),))
            out = []
            for a in sp:
                if a[0] == ".":
                    ix = field_ix(self.F, ad["variants"][0]["fields"], a)
                    if not ix:
                        raise EvErr("no field")
                    out.append((strip_acc(a), self.gen(t["ft"][0][ix[0]], depth + 1)))
                else:
                    out.append((a, self.part(n, a, t, depth + 1)))
            return ("W", n, tuple(out))
        if k in ("param", "alias"):
            self.n += 1
            return ("X", self.r.choice([self.n + 10, self.n + 10, 1, 2]))
        if k == "fnptr" or k == "closure":
            raise EvErr("function argument")
        raise EvErr("value of kind " + k)

    def part(self, n, a, t, depth):
        """value an accessor of a struct reports, for a struct of type t (generic arguments substituted)"""
        fs = self.A.acc.get((n, a))
        if not fs:
            raise EvErr("no accessor")
        f = fs[0]
        o = self.F.peel(f["output"])
        self_t = self.F.tys[self.F.peel(f["inputs"][0])]
        sub = {}
        for x, y in zip(self_t.get("args", []), t.get("args", [])):
            if isinstance(x, int) and self.F.tys[x]["k"] == "param":
                sub[self.F.tys[x]["n"]] = y
        return self.gens(o, sub, depth)

    def gens(self, ty, sub, depth):
        """gen with substitution of type parameters (only at the positions parts have)"""
        ty = self.F.peel(ty)
        t = self.F.tys[ty]
        if t["k"] == "param" and t["n"] in sub:
            return self.gen(sub[t["n"]], depth)
        if t["k"] in ("slice", "array"):
            return ("L", tuple(self.gens(t["e"], sub, depth + 1) for _ in range(self.len(depth))))
        if t["k"] == "adt" and t["def"] in ("std::vec::Vec", "alloc::vec::Vec"):
            return ("L", tuple(self.gens(t["args"][0], sub, depth + 1) for _ in range(self.len(depth))))
        if t["k"] == "adt" and t["def"] == "std::option::Option":
            if depth > 5 or self.r.random() < 0.4:
                return ("V", "Option::None", ())
            return ("V", "Option::Some", (self.gens(t["args"][0], sub, depth + 1),))
        if t["k"] == "tuple":
            return ("T", tuple(self.gens(x, sub, depth + 1) for x in t["e"]))
        if t["k"] == "adt" and sub:
            n = base(t["def"])
            sp = STRUCTS.get(n)
            ad = self.F.adts.get(t["def"])
            if sp and sp != ["*"] and ad and t.get("args"):
                inner = dict(sub)
                out = []
                for a in sp:
                    if a[0] == ".":
                        return self.gen(ty, depth)
                    fs = self.A.acc.get((n, a))
                    if not fs:
                        raise EvErr("no accessor")
                    self_t = self.F.tys[self.F.peel(fs[0]["inputs"][0])]
                    s2 = {}
                    for x, y in zip(self_t.get("args", []), t.get("args", [])):
                        if isinstance(x, int) and self.F.tys[x]["k"] == "param":
                            yy = self.F.tys[y]
                            s2[self.F.tys[x]["n"]] = inner.get(yy.get("n"), y) if yy["k"] == "param" else y
                    out.append((a, self.gens(fs[0]["output"], s2, depth + 1)))
                return ("W", n, tuple(out))
        return self.gen(ty, depth)

    def len(self, depth):
        return self.r.choice(self.lens if depth < 3 else (0, 1))

    def lst(self, e, depth):
        return ("L", tuple(self.gen(e, depth + 1) for _ in range(self.len(depth))))

    def small(self, d, i):
        for f in self.F.adts[d]["variants"][i]["fields"]:
            t = self.F.tys[self.F.peel(f["ty"])]
            if t["k"] == "adt" and t["def"].startswith("crate::") and t["def"] != self.A.NAME:
                return False
            if t["k"] == "tuple":
                return False
        return True


def consts(summary, S=None, N=None):
    """string and small integer constants of a summary"""
    S = set() if S is None else S
    N = set() if N is None else N

    def walk(o):
        if isinstance(o, tuple):
            if len(o) == 2 and o[0] == "S" and isinstance(o[1], str):
                S.add(o[1])
                return
            if len(o) == 3 and o[0] in ("take", "skip", "step_by", "truncate") and isinstance(o[2], int) and o[2] < 80:
                N.add(o[2])
            for x in o:
                walk(x)
        elif isinstance(o, int) and not isinstance(o, bool) and 0 <= o < 8:
            N.add(o)

    for cs, o in summary:
        walk(o)
        for k, x in cs:
            walk(k)
            walk(x)
    return S, N


def show(v):
    if v[0] == "V":
        n = v[1].replace("Option::", "").replace("Result::", "")
        return n + ("(%s)" % ", ".join(show(x) for x in v[2]) if v[2] else "")
    if v[0] == "W":
        if len(v[2]) == 1 and v[2][0][0] == "*":
            return "%s(%s)" % (v[1], show(v[2][0][1]))
        return "%s{%s}" % (v[1], ", ".join("%s: %s" % (a, show(x)) for a, x in v[2]))
    if v[0] in ("L", "T"):
        b = "[]" if v[0] == "L" else "()"
        return b[0] + ", ".join(show(x) for x in v[1]) + b[1]
    if v[0] in ("S", "Nm"):
        return repr(v[1])
    if v[0] in ("K", "N"):
        return str(v[1])
    if v[0] == "X":
        return "x%s" % v[1]
    if v[0] == "PANIC":
        return "panic"
    if v[0] == "RET":
        return show(v[1]) + "".join(", %s = %s" % (k, show(x)) for k, x in v[2:])
    return str(v)
