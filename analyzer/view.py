"""Views: result values as a user sees them (variant names, public accessors), independent of the representation."""
from grammar import short
import absnom
from spec import STRUCTS, field_ix, strip_acc
import re


class NoView(Exception):
    pass


def base(name):
    return re.sub(r"<.*", "", short(name))


class Views:
    def __init__(self, G):
        self.G, self.I, self.F = G, G.I, G.F
        self.acc = {}
        self._inv = {}
        for f in self.F.fns:
            if f["has_self"] and f["kind"] == "AssocFn" and not f.get("trait") and f.get("inst") is not None and len(f["inputs"]) == 1:
                t = self.F.tys[self.F.peel(f["inputs"][0])]
                if t["k"] == "adt" and t["def"].startswith("crate::"):
                    self.acc.setdefault((base(t["def"]), f["name"]), []).append(f)

    def accessor(self, ty, name, v, st):
        fs = self.acc.get((ty, name))
        if not fs:
            raise NoView("no accessor %s::%s" % (ty, name))
        arg = ("R", ("val", self.I.freeze(v, st)), ())
        if self.F.tys[fs[0]["inputs"][0]]["k"] != "ref":
            arg = v
        outs = self.I.exec(fs[0]["inst"], [arg], st)
        rets = [(x, s) for k, x, s in outs if k == "ret"]
        if len(outs) != 1 or len(rets) != 1:
            raise NoView("accessor %s::%s does not reduce to one value" % (ty, name))
        return rets[0]

    def view(self, v, st, depth=0):
        I = self.I
        if depth > 60:
            raise NoView("deep")
        v = I.deref(v, st)
        t = v[0]
        if t in ("Unk",):
            raise NoView("unknown value: %s" % (v[1],))
        if t in ("V",):
            return ("V", v[1], tuple(self.view(x, st, depth + 1) for x in v[2]))
        if t == "W":
            fs = tuple((a, self.view(x, st, depth + 1)) for a, x in v[2])
            return self.eta(v[1], fs)
        if t == "Sym":
            f = st.facts.get(v[1])
            if f is not None and v[2] is not None:
                ad = I.variants(v[2])
                if ad is not None and ad["kind"] == "enum":
                    ex = I.expand(v, st)
                    if ex[0] == "A":
                        return self.view(ex, st, depth + 1)
            return self.sym(v[1])
        if t == "A":
            d = v[1]
            if d == "std::option::Option":
                return ("V", "Some", (self.view(v[3][0], st, depth + 1),)) if v[2] == 1 else ("V", "None", ())
            ad = self.F.adts.get(d)
            c = I.canon(v, st)
            if c[0] == "Sym":
                return self.sym(c[1])
            n = base(d)
            if ad is None or not d.startswith("crate::"):
                raise NoView("value of " + d)
            if ad["kind"] == "enum":
                return ("V", "%s::%s" % (n, ad["variants"][v[2]]["name"]), tuple(self.view(x, st, depth + 1) for x in v[3]))
            sp = STRUCTS.get(n)
            fields = ad["variants"][0]["fields"]
            if sp is None:
                raise NoView("no view for " + n)
            if sp == ["*"]:
                if len(v[3]) != 1:
                    raise NoView("%s is no longer a plain wrapper" % n)
                return ("W", n, (("*", self.view(v[3][0], st, depth + 1)),))
            out = []
            for a in sp:
                if a[0] == ".":
                    ix = field_ix(self.F, fields, a)
                    if not ix:
                        raise NoView("no field %s.%s" % (n, a[1:]))
                    out.append((strip_acc(a), self.view(v[3][ix[0]], st, depth + 1)))
                else:
                    x, s = self.accessor(n, a, v, st)
                    out.append((a, self.view(x, s, depth + 1)))
            return self.eta(n, tuple(out))
        if t == "L" or t == "It":
            return self.vlist(v[1], st, depth)
        if t == "T":
            return ("T", tuple(self.view(x, st, depth + 1) for x in v[1]))
        if t in ("Nm", "Num"):
            return (t, self.view(v[1], st, depth + 1))
        if t in ("S", "K"):
            return v
        if t in ("Span", "Txt"):
            return ("Span", v[1], v[2])
        raise NoView("value " + t)

    def enum(self, name):
        for p, a in self.F.adts.items():
            if a["kind"] == "enum" and base(p) == name and p.startswith("crate::"):
                return a
        raise NoView("no enum " + name)

    def eta(self, n, fs):
        """all parts are the parts of one given value -> that value"""
        if fs and all(x[0] == "Sym" and x[1][0] == "part" and x[1][2] == n and x[1][3] == a for a, x in fs):
            b = fs[0][1][1][1]
            if all(x[1][1] == b for a, x in fs):
                return ("Sym", b)
        return ("W", n, fs)

    def sym(self, term):
        if term[0] == "num" and term[2][0] == "Span" and term[1] in ("f32", "f64"):
            return ("Num", ("Span", term[2][1], term[2][2]))
        return ("Sym", self.term(term))

    def term(self, t):
        """field of a sub-element -> the part it is"""
        if not isinstance(t, tuple):
            return t
        if t[:1] == ("fld",) and len(t) == 4 and t[1][:1] == ("ev",):
            k = absnom.EVKEY.get(t[1][1])
            if isinstance(k, str) and k in STRUCTS:
                a = self.part_of_field(k, t[3])
                if a is not None:
                    return ("part", t[1], k, a)
        if t[:1] in (("fld",), ("elt",), ("len",), ("part",)):
            return tuple(self.term(x) for x in t)
        return t

    def vlist(self, parts, st, depth):
        ps = self.vparts(parts, st, depth)
        if len(ps) == 1 and ps[0][0] == "sp":
            key, alts = ps[0][1], ps[0][2]
            if len(alts) == 1 and not alts[0][0] and alts[0][1] == (("e", ("Sym", ("elt", key))),) and key[0] != "ev":
                return ("Sym", key)
        return ("L", ps)

    def vparts(self, parts, st, depth):
        out = []
        for p in parts:
            if p[0] == "e":
                out.append(("e", self.view(p[1], st, depth + 1)))
            else:
                alts = []
                for conds, sub in p[2]:
                    s = st
                    if conds:
                        s = st.copy()
                        for k, x in conds:
                            s.facts[k] = x
                    alts.append((conds, self.vparts(sub, s, depth)))
                out.append(("sp", self.term(p[1]), tuple(alts)))
        return tuple(out)

    # ---- which part (accessor) a private field is
    def part_of_field(self, n, fld):
        inv = self._inv.get(n)
        if inv is None:
            inv = {}
            import ai

            ad = [a for p, a in self.F.adts.items() if base(p) == n and p.startswith("crate::")]
            if ad and ad[0]["kind"] == "struct":
                fields = ad[0]["variants"][0]["fields"]
                sp = STRUCTS.get(n, [])
                if sp == ["*"] and len(fields) == 1:
                    inv[0] = "*"
                else:
                    ty = None
                    for i, t in enumerate(self.F.tys):
                        if t["k"] == "adt" and t["def"] == ad[0]["path"]:
                            ty = i
                            break
                    for a in sp:
                        if a[0] == ".":
                            for i in field_ix(self.F, fields, a):
                                inv[i] = strip_acc(a)
                            continue
                        try:
                            x, s = self.accessor(n, a, ("Sym", ("self",), ty), ai.St())
                        except NoView:
                            continue
                        c = self.I.canon(x, s)
                        if c[0] == "Sym" and c[1][0] == "fld" and c[1][1] == ("self",):
                            inv[c[1][3]] = a
            self._inv[n] = inv
        return inv.get(fld)
