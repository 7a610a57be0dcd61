"""Abstract interpreter over the dumped MIR: value-flow with disjunctive (per-path) abstract states.

Nothing of the analysed crate is executed.  Inputs are abstract (`Sym` terms, abstract input
positions), unknown discriminants split the abstract state, repetition over unknown data is
summarised (list splices), calls into nom and std are modelled (nom.py, std.py).
"""
import fl
import sys

sys.setrecursionlimit(20000)

UNIT = ("T", ())
TRUE = ("K", 1)
FALSE = ("K", 0)


class Unknown(Exception):
    pass


class St:
    __slots__ = ("mem", "facts", "trace", "notes")

    def __init__(self, mem=None, facts=None, trace=(), notes=()):
        self.mem = {} if mem is None else mem
        self.facts = {} if facts is None else facts
        self.trace = trace
        self.notes = notes

    def copy(self):
        return St(dict(self.mem), dict(self.facts), self.trace, self.notes)


def sym(term, ty):
    return ("Sym", term, ty)


class Budget(Exception):
    pass


class Interp:
    MAXV = 70
    unroll = 0  # rounds of a repetition that are followed one by one (0: one symbolic repetition)

    def __init__(self, facts):
        self.F = facts
        self.ctr = 0
        self.steps = 0
        self.max_steps = 40_000_000
        self.const_cache = {}
        self.frames = {}  # frame -> types of its locals
        self.floats = False  # concrete floating-point values
        self.static_cache = {}
        self.changed_ty = {}  # list after a call that changes it -> type of its elements
        self.into_ty = {}  # generic argument term -> type it was converted into
        self.depth = 0
        self.opaque_calls = {}
        self.unknowns = {}
        self.stack = []
        self.parse_stack = {}
        self.sum_cache = {}
        self.on_call = None
        self.cut = None  # callable(fn json, args, st) -> outcomes or None
        import absstd as std, absnom as nom

        self.std = std
        self.nom = nom
        self.models = {}
        self.probes = []
        self.known = None  # answers of a check about relations of its own symbols
        self.probe_on = False
        self.empty_rounds = []
        std.register(self)
        nom.register(self)

    # ---------------------------------------------------------------- utils
    def fresh(self):
        self.ctr += 1
        return self.ctr

    def static_value(self, path):
        """value of an immutable static of a built-in type"""
        if path not in self.static_cache:
            self.static_cache[path] = None
            for it in self.F.items:
                if it["kind"] == "Static" and it["path"] == path and not it["mut"] and it["freeze"] and self.tk(it["ty"])["k"] != "adt" and "inst" in it:
                    outs = self.exec(it["inst"], [], St())
                    if len(outs) == 1 and outs[0][0] == "ret":
                        v = self.freeze(outs[0][1], outs[0][2])
                        if "Unk" not in repr(v):
                            self.static_cache[path] = v
        return self.static_cache[path]

    def unk(self, why):
        self.unknowns[why] = self.unknowns.get(why, 0) + 1
        return ("Unk", why)

    def number_ty(self, name):
        for i, t in enumerate(self.F.tys):
            if t["s"] == name:
                return i
        return None

    def note_empty_round(self, pv, bodies):
        self.empty_rounds.append(tuple(x[1] for x in self.stack[-4:]))

    def lex_subset(self, chain, lang):
        import lex

        return lex.subset(chain, lang)

    # ---------------------------------------------------------------- types
    def tk(self, ty):
        return self.F.tys[ty] if ty is not None else {"k": "?"}

    def is_reflike(self, ty):
        t = self.tk(ty)
        if t["k"] in ("ref", "ptr"):
            return t["e"]
        if t["k"] == "adt" and t["def"] in ("std::boxed::Box", "alloc::boxed::Box", "std::sync::Arc", "std::rc::Rc"):
            return t["args"][0]
        return None

    def elem_ty(self, ty):
        t = self.tk(self.F.peel(ty)) if ty is not None else {"k": "?"}
        if t["k"] == "adt" and t["args"] and isinstance(t["args"][0], int):
            return t["args"][0]
        if t["k"] in ("slice", "array"):
            return t["e"]
        return None

    def variants(self, ty):
        t = self.tk(self.F.peel(ty)) if ty is not None else {"k": "?"}
        if t["k"] == "adt":
            return self.F.adts[t["def"]]
        return None

    # ---------------------------------------------------------------- memory
    def load(self, st, cell, path=()):
        if cell[0] == "val":
            v = cell[1]
        else:
            v = st.mem.get(cell)
            if v is None:
                return self.unk("uninit")
        for p in path:
            v = self.project(v, p, st)
        return v

    def project(self, v, p, st):
        t = v[0]
        if isinstance(p, int):
            if t == "A":
                return v[3][p] if p < len(v[3]) else self.unk("field")
            if t == "T":
                return v[1][p] if p < len(v[1]) else self.unk("tfield")
            if t == "Clo":
                return v[3][p]
            if t in ("Box", "HBox", "Arc"):
                return v
            if t == "Sym":
                term, ty = v[1], v[2]
                vi = 0
                if term[0] == "$as":
                    vi = term[2]
                    term = term[1]
                k = self.tk(ty)
                if self.is_reflike(ty) is not None:
                    if k["k"] == "adt":
                        return v
                    return self.project(("Sym", v[1], self.is_reflike(ty)), p, st)
                if k["k"] == "tuple":
                    return ("Sym", ("fld", term, 0, p), k["e"][p])
                if k["k"] == "adt":
                    ft = None
                    if "ft" in k and vi < len(k["ft"]) and p < len(k["ft"][vi]):
                        ft = k["ft"][vi][p]
                    return ("Sym", ("fld", term, vi, p), ft)
                if k["k"] == "closure":
                    return ("Sym", ("fld", term, 0, p), k["up"][p])
                return ("Sym", ("fld", term, vi, p), None)
            if t == "R":  # auto-transparent
                return self.project(self.load(st, v[1], v[2]), p, st)
            return self.unk("project %s.%s" % (t, p))
        if p[0] == "as":
            if t == "A":
                if v[2] != p[1]:
                    return ("Unk", "wrong variant")
                return v
            if t == "Sym":
                return ("Sym", ("$as", v[1], p[1]), v[2])
            if t == "R":
                return self.project(self.load(st, v[1], v[2]), p, st)
            return v
        if p[0] == "i":  # index
            return self.std.index(self, v, p[1], st)
        if p[0] == "sub":
            return self.std.subslice(self, v, p[1], p[2], p[3], st)
        return self.unk("proj " + str(p))

    def store(self, st, cell, path, v):
        if not path:
            if cell[0] == "val":
                raise Unknown("store to constant place")
            st.mem[cell] = v
            return
        if cell[0] == "val":
            raise Unknown("store into constant place")
        st.mem[cell] = self.update(st.mem.get(cell), path, v, st)

    def update(self, old, path, v, st):
        if not path:
            return v
        p = path[0]
        if old is None or old == ("Unk", "uninit"):
            if isinstance(p, int):
                old = ("T", ())
            else:
                return self.update(("T", ()), path[1:], v, st) if p[0] == "as" else self.unk("upd")
        t = old[0]
        if isinstance(p, int):
            if t == "T":
                l = list(old[1])
                while len(l) <= p:
                    l.append(("Unk", "uninit"))
                l[p] = self.update(l[p] if l[p] != ("Unk", "uninit") else None, path[1:], v, st)
                return ("T", tuple(l))
            if t == "A":
                l = list(old[3])
                l[p] = self.update(l[p], path[1:], v, st)
                return ("A", old[1], old[2], tuple(l))
            if t == "Clo":
                l = list(old[3])
                l[p] = self.update(l[p], path[1:], v, st)
                return ("Clo", old[1], old[2], tuple(l))
            if t == "Sym":
                ex = self.expand(old, st)
                if ex[0] != "Sym":
                    return self.update(ex, path, v, st)
            return self.unk("update " + t)
        if p[0] == "as":
            if t == "Sym":
                ex = self.expand(old, st, p[1])
                if ex[0] != "Sym":
                    return self.update(ex, path[1:], v, st)
            return self.update(old, path[1:], v, st)
        if p[0] == "i":
            if t == "L" and all(x[0] == "e" for x in old[1]) and isinstance(p[1], int) and p[1] < len(old[1]):
                l = list(old[1])
                l[p[1]] = ("e", self.update(l[p[1]][1], path[1:], v, st))
                return ("L", tuple(l))
        return self.unk("update proj")

    def expand(self, v, st, variant=None):
        """Rewrite a symbolic ADT/tuple whose variant is known into a constructor of its fields."""
        if v[0] != "Sym":
            return v
        term, ty = v[1], v[2]
        if ty is None:
            return v
        while self.is_reflike(ty) is not None:
            ty = self.is_reflike(ty)
        k = self.tk(ty)
        if k["k"] == "tuple":
            return ("T", tuple(("Sym", ("fld", term, 0, i), e) for i, e in enumerate(k["e"])))
        if k["k"] == "adt":
            ad = self.F.adts.get(k["def"])
            if ad is None or "ft" not in k:
                return v
            if ad["kind"] == "struct":
                vi = 0
            else:
                vi = variant if variant is not None else st.facts.get(term)
            if vi is None or vi >= len(k["ft"]):
                return v
            return ("A", k["def"], vi, tuple(("Sym", ("fld", term, vi, i), e) for i, e in enumerate(k["ft"][vi])))
        return v

    # ---------------------------------------------------------------- places
    def place(self, fid, st, pl):
        cell, path = (fid, pl[0]), ()
        for n, e in enumerate(pl[1:]):
            if e == "*":
                v = self.load(st, cell, path)
                if n == 0 and self.owns(v, fid, pl[0]):
                    continue
                cell, path = self.deref_place(v, st)
            elif isinstance(e, int):
                path = path + (e,)
            elif e[0] == "as":
                path = path + (("as", e[1]),)
            elif e[0] == "idx":
                iv = self.load(st, (fid, e[1]))
                path = path + (("i", iv[1] if iv[0] == "K" else iv),)
            elif e[0] == "ci":
                path = path + (("i", -e[1] if e[2] else e[1]),)
            elif e[0] == "sub":
                path = path + (("sub", e[1], e[2], e[3]),)
        return cell, path

    def owns(self, v, fid, local):
        """the local is a reference to an owning pointer, and holds that pointer itself: references to it were passed through"""
        if v[0] not in ("Box", "Arc", "HBox", "Sym"):
            return False
        ls = self.frames.get(fid)
        if ls is None:
            return False
        t = self.tk(ls[local])
        if t["k"] != "ref":
            return False
        e = self.tk(t["e"])
        if e["k"] != "adt" or self.is_reflike(t["e"]) is None:
            return False
        if v[0] == "Sym":
            return v[2] is not None and self.tk(v[2])["k"] == "adt" and self.tk(v[2])["def"] == e["def"]
        return True

    def deref_place(self, v, st):
        t = v[0]
        if t == "R":
            return v[1], v[2]
        if t in ("Box", "Arc"):
            return ("val", v[1]), ()
        if t == "HBox":
            return v[1], ()
        if t == "Sym":
            ty = v[2]
            inner = self.is_reflike(ty) if ty is not None else None
            if inner is not None:
                return ("val", ("Sym", v[1], inner)), ()
            return ("val", v), ()
        return ("val", v), ()

    def deref(self, v, st):
        """Strip all references."""
        n = 0
        while True:
            t = v[0]
            if t == "R":
                v = self.load(st, v[1], v[2])
            elif t in ("Box", "Arc"):
                v = v[1]
            elif t == "HBox":
                v = self.load(st, v[1])
            elif t == "Sym" and v[2] is not None and self.is_reflike(v[2]) is not None:
                v = ("Sym", v[1], self.is_reflike(v[2]))
            else:
                return v
            n += 1
            if n > 50:
                return self.unk("deref")

    def freeze(self, v, st):
        t = v[0]
        if t == "R":
            if v[1][0] == "val" and not v[2]:
                return v
            return ("R", ("val", self.freeze(self.load(st, v[1], v[2]), st)), ())
        if t == "A":
            return ("A", v[1], v[2], tuple(self.freeze(x, st) for x in v[3]))
        if t == "V":
            return ("V", v[1], tuple(self.freeze(x, st) for x in v[2]))
        if t == "W":
            return ("W", v[1], tuple((a, self.freeze(x, st)) for a, x in v[2]))
        if t in ("Nm", "Num"):
            return (t, self.freeze(v[1], st)) if isinstance(v[1], tuple) else v
        if t == "T":
            return ("T", tuple(self.freeze(x, st) for x in v[1]))
        if t == "L":
            return ("L", tuple((p[0], self.freeze(p[1], st)) if p[0] == "e" else p for p in v[1]))
        if t == "Clo":
            return ("Clo", v[1], v[2], tuple(self.freeze(x, st) for x in v[3]))
        if t in ("Box", "Arc"):
            return (t, self.freeze(v[1], st))
        if t == "HBox":
            return ("Box", self.freeze(self.load(st, v[1]), st))
        return v

    # ---------------------------------------------------------------- constants
    def const(self, k):
        c = k["c"]
        if c == "int":
            t = self.tk(k["ty"])
            v = int(k["v"])
            if t["k"] in ("bool", "char", "int", "uint"):
                return ("K", v)
            if t["k"] == "float":
                if self.floats:
                    return ("Fl", fl.width(t), v)
                return ("F", v)
            if t["k"] == "adt":
                ad = self.F.adts[t["def"]]
                if ad["kind"] == "enum":
                    for i, va in enumerate(ad["variants"]):
                        if va["discr"] == v and not va["fields"]:
                            return ("A", t["def"], i, ())
                    return self.unk("enum const")
                n = [i for i, _ in enumerate(ad["variants"][0]["fields"])]
                if len(n) == 1:
                    ft = t.get("ft", [[None]])[0][0]
                    inner = self.const({"c": "int", "v": k["v"], "sz": k["sz"], "ty": ft}) if ft is not None else ("K", v)
                    return ("A", t["def"], 0, (inner,))
                return self.unk("adt const")
            return ("K", v)
        if c == "str":
            return ("S", k["v"])
        if c == "fn":
            return self.fnval(k["fn"])
        if c == "zst":
            t = self.tk(k["ty"])
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "fndef":
                return self.fnval(t["fn"])
            if t["k"] == "closure":
                return ("Clo", t.get("inst"), t["def"], ())
            if t["k"] == "adt":
                ad = self.F.adts[t["def"]]
                return ("A", t["def"], 0, tuple(UNIT for _ in ad["variants"][0]["fields"]) if ad["variants"] else ())
            if t["k"] == "array":
                return ("L", ())
            return self.unk("zst " + t["k"])
        if c == "bytes":
            return ("By", tuple(k["v"]))
        if c == "ptr":
            if "static" in k:
                v = self.static_value(k["static"])
                if v is not None:
                    return ("R", ("val", v), ())
                return ("R", ("val", ("Static", k["static"])), ())
            if "bytes" in k:
                return ("By", tuple(k["bytes"][k["off"]:]))
            return self.unk("ptr const")
        if c == "body":
            ix = k["inst"]
            if ix not in self.const_cache:
                self.const_cache[ix] = self.unk("const cycle")
                st = St()
                outs = self.exec(ix, [], st)
                rets = [(v, s) for kd, v, s in outs if kd == "ret"]
                if len(rets) == 1:
                    self.const_cache[ix] = self.freeze(rets[0][0], rets[0][1])
                else:
                    self.const_cache[ix] = self.unk("const body")
            return self.const_cache[ix]
        if c == "opaque":
            return ("Sym", ("const", k.get("name") or k.get("s")), k.get("ty"))
        return self.unk("const " + c)

    def fnval(self, fn):
        if "ctor" in fn:
            return ("Ctor", fn["ctor"], fn["variant"])
        return ("Fn", self.F.callee_ix(fn))

    def operand(self, fid, st, o):
        if o[0] == "k":
            return self.const(o[1])
        cell, path = self.place(fid, st, o[1])
        return self.load(st, cell, path)

    # ---------------------------------------------------------------- rvalues
    def discr(self, v, st):
        v = self.deref(v, st)
        if v[0] == "A":
            ad = self.F.adts[v[1]]
            if ad["kind"] != "enum":
                return ("K", 0)
            return ("K", ad["variants"][v[2]]["discr"])
        if v[0] == "Sym":
            f = st.facts.get(v[1])
            ad = self.variants(v[2])
            if f is not None and ad is not None:
                return ("K", ad["variants"][f]["discr"])
            if ad is not None and ad["kind"] == "enum":
                if len(ad["variants"]) == 1:
                    return ("K", ad["variants"][0]["discr"])
                return ("Disc", v[1], v[2])
            return self.unk("discr of sym")
        return self.unk("discr " + v[0] + " " + str(v[1])[:60])

    def rvalue(self, fid, st, r):
        k = r[0]
        if k == "use":
            return self.operand(fid, st, r[1])
        if k == "ref":
            cell, path = self.place(fid, st, r[1])
            # `&*s` of text/parser-like immediates stays the immediate
            if cell[0] == "val" and not path and cell[1][0] in ("S", "Txt"):
                return cell[1]
            return ("R", cell, path)
        if k == "agg":
            vs = tuple(self.operand(fid, st, o) for o in r[2])
            a = r[1]
            if a[0] == "tuple":
                return ("T", vs)
            if a[0] == "array":
                return ("L", tuple(("e", v) for v in vs))
            if a[0] == "adt":
                return ("A", a[1], a[2], vs)
            if a[0] == "closure":
                return ("Clo", a[2], a[1], vs)
            return self.unk("agg")
        if k == "discr":
            cell, path = self.place(fid, st, r[1])
            return self.discr(self.load(st, cell, path), st)
        if k == "cast":
            v = self.operand(fid, st, r[2])
            if v[0] == "Disc":
                return v
            if v[0] == "K":
                t = self.tk(r[3])
                if t["k"] in ("int", "uint"):
                    b = {"size": 64}.get(t["s"][1:]) or int(t["s"][1:])
                    x = v[1] & ((1 << b) - 1)
                    return ("K", x - (1 << b) if t["k"] == "int" and x >> (b - 1) else x)
                if t["k"] in ("char", "bool"):
                    return v
                if t["k"] == "float":
                    if self.floats:
                        return fl.mk(fl.width(t), float(v[1]))
                    return ("Sym", ("cast", v, t.get("n")), r[3])
            if v[0] == "Fl":
                t = self.tk(r[3])
                if t["k"] == "float":
                    return fl.convert(v, fl.width(t))
                return self.unk("float to int")
            if v[0] == "Sym" and "Transmute" not in r[1] and "Pointer" not in r[1] and "PtrToPtr" not in r[1]:
                t = self.tk(r[3])
                if t["k"] in ("int", "uint", "float", "char"):
                    return ("Sym", ("cast", v[1], t.get("n")), r[3])
            return v
        if k == "bin":
            return self.binop(r[1], self.operand(fid, st, r[2]), self.operand(fid, st, r[3]), st)
        if k == "un":
            v = self.operand(fid, st, r[2])
            if r[1] == "Not":
                if v[0] == "K":
                    return ("K", 1 - v[1]) if v[1] in (0, 1) else self.unk("not int")
                if v[0] == "Sym":
                    if v[1][0] == "not":
                        return ("Sym", v[1][1], v[2])
                    return ("Sym", ("not", v[1]), v[2])
            if r[1] == "PtrMetadata":
                return self.std.length(self, self.deref(v, st), st)
            if r[1] == "Neg" and v[0] == "Fl":
                return ("Fl", v[1], v[2] ^ (1 << (v[1] - 1)))
            if r[1] == "Neg" and v[0] == "Sym":
                return ("Sym", ("neg", v[1]), v[2])
            if r[1] == "Neg" and v[0] == "K":
                return ("K", -v[1])
            return self.unk("unop " + r[1])
        if k == "repeat":
            v = self.operand(fid, st, r[1])
            if r[2] is not None and r[2] <= 64:
                return ("L", tuple(("e", v) for _ in range(r[2])))
            return self.unk("repeat")
        return self.unk("rvalue " + k)

    def boolsym(self, term, st):
        f = st.facts.get(term)
        if f is None and self.known is not None:
            f = self.known(term, st)
        if f is not None:
            return ("K", f)
        return ("Sym", term, None)

    def binop(self, op, a, b, st):
        if "Fl" in (a[0], b[0]) and a[0] in ("Fl", "F") and b[0] in ("Fl", "F"):
            r = fl.binop(op, a, b)
            return r if r is not None else self.unk("float " + op)
        if a[0] == "K" and b[0] == "K":
            x, y = a[1], b[1]
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return ("K", int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]))
            if op in ("Add", "AddUnchecked"):
                return ("K", x + y)
            if op in ("Sub", "SubUnchecked"):
                return ("K", x - y)
            if op in ("Mul", "MulUnchecked"):
                return ("K", x * y)
            if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
                r = {"A": x + y, "S": x - y, "M": x * y}[op[0]]
                return ("T", (("K", r), ("K", int(r < 0 or r >= 1 << 64))))
            if op == "BitAnd":
                return ("K", x & y)
            if op == "BitOr":
                return ("K", x | y)
            if op == "BitXor":
                return ("K", x ^ y)
            if op in ("Div", "Rem") and y != 0:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return ("K", q if op == "Div" else x - q * y)
            if op in ("Shr", "ShrUnchecked") and x >= 0 and 0 <= y < 64:
                return ("K", x >> y)
            if op in ("Shl", "ShlUnchecked") and 0 <= x and 0 <= y < 32 and x << y < 1 << 31:
                return ("K", x << y)
            if op == "Cmp":
                return ("A", "std::cmp::Ordering", 0 if x < y else 1 if x == y else 2, ())
            return self.unk("binop " + op)
        if op in ("BitAnd", "BitOr") and (a[0] == "K" or b[0] == "K"):
            kk, o = (a, b) if a[0] == "K" else (b, a)
            if kk[1] in (0, 1) and self.boolish(o):
                if op == "BitAnd":
                    return o if kk[1] else FALSE
                return TRUE if kk[1] else o
        if op in ("BitAnd", "BitOr") and self.boolish(a) and self.boolish(b):
            x = tuple(sorted((a[1], b[1]), key=repr))
            return self.boolsym(("and" if op == "BitAnd" else "or",) + x, st)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op))):
                if x[0] == "Sym" and x[1][0] == "len" and y[0] == "K":
                    n = y[1]
                    if o in ("Eq", "Ne"):
                        r = self.std.len_eq(self, x, n, st)
                    elif o == "Ge":
                        r = self.std.len_ge(self, x, n, st)
                    elif o == "Gt":
                        r = self.std.len_ge(self, x, n + 1, st)
                    elif o == "Lt":
                        r = self.std.len_ge(self, x, n, st)
                    else:
                        r = self.std.len_ge(self, x, n + 1, st)
                    if o in ("Ne", "Lt", "Le"):
                        if r[0] == "K":
                            return ("K", 1 - r[1])
                        return ("Sym", r[1][1], None) if r[1][0] == "not" else ("Sym", ("not", r[1]), None)
                    return r
        if a[0] in ("Sym", "K", "Disc", "F") and b[0] in ("Sym", "K", "Disc", "F"):
            ta = self.termof(a)
            tb = self.termof(b)
            if op in ("Eq", "Ne"):
                if ta == tb and not (a[0] == "Sym" and self.tk(a[2])["k"] == "float"):
                    return ("K", int(op == "Eq"))
                # compare a discriminant with a constant
                d, c = (a, b) if a[0] == "Disc" else (b, a)
                if d[0] == "Disc" and c[0] == "K":
                    t = ("isdiscr", d[1], c[1])
                    ad = self.variants(d[2])
                    r = self.disc_eq(d, c[1], st)
                    if r is None:
                        r = ("Sym", ("deq", d[1], c[1], d[2]), None)
                    if op == "Ne":
                        return ("K", 1 - r[1]) if r[0] == "K" else ("Sym", ("not", r[1]), None)
                    return r
                key = ("eq",) + tuple(sorted((ta, tb), key=repr))
                r = self.boolsym(key, st)
                if op == "Ne":
                    return ("K", 1 - r[1]) if r[0] == "K" else ("Sym", ("not", r[1]), None)
                return r
            if op in ("Lt", "Gt", "Le", "Ge"):
                if op in ("Gt", "Le"):
                    ta, tb = tb, ta
                # lt(ta,tb) or not lt(ta,tb)
                isf = any(x[0] == "F" or (x[0] == "Sym" and x[2] is not None and self.tk(x[2])["k"] == "float") for x in (a, b))
                if isf:
                    if op in ("Lt", "Gt"):
                        return self.boolsym(("flt", ta, tb), st)
                    return self.boolsym(("fle", tb, ta) if op == "Ge" else ("fle", tb, ta), st)
                r = self.boolsym(("lt", ta, tb), st)
                if op in ("Lt", "Gt"):
                    return r
                return ("K", 1 - r[1]) if r[0] == "K" else ("Sym", ("not", r[1]), None)
            if op == "Cmp":
                return ("Sym", ("cmp", ta, tb), None)
            if op.endswith("WithOverflow"):
                return ("T", (("Sym", (op[:3], ta, tb), a[2] if a[0] == "Sym" else b[2]), ("Sym", ("ovf", op[:3], ta, tb), None)))
            return ("Sym", (op, ta, tb), a[2] if a[0] == "Sym" else (b[2] if b[0] == "Sym" else None))
        return self.unk("binop %s %s %s" % (op, a[0], b[0]))

    def boolish(self, v):
        return v[0] == "Sym"

    def disc_eq(self, d, val, st):
        ad = self.variants(d[2])
        f = st.facts.get(d[1])
        if f is not None:
            return ("K", int(ad["variants"][f]["discr"] == val))
        ne = st.facts.get(("ne", d[1]))
        if ne:
            vi = [i for i, v in enumerate(ad["variants"]) if v["discr"] == val]
            if vi and vi[0] in ne:
                return FALSE
        return None

    def termof(self, v):
        if v[0] == "Sym":
            return v[1]
        if v[0] == "Disc":
            return ("discr", v[1])
        return v

    # ---------------------------------------------------------------- switch
    def split(self, v, targets, other, st):
        """yield (state, target block)"""
        if v[0] == "K":
            for val, t in targets:
                if int(val) == v[1] or (v[1] < 0 and int(val) in (v[1] + (1 << 8), v[1] + (1 << 32), v[1] + (1 << 64))):
                    return [(st, t)]
            return [(st, other)]
        if v[0] == "Disc":
            term, ty = v[1], v[2]
            ad = self.variants(ty)
            ne = st.facts.get(("ne", term), frozenset())
            out = []
            tv = {int(x): t for x, t in targets}
            for i, va in enumerate(ad["variants"]):
                if i in ne:
                    continue
                t = tv.get(va["discr"], other)
                s = st.copy()
                if not self.assume_variant(s, term, i):
                    continue
                out.append((s, t))
            return out
        if v[0] == "Sym":
            term = v[1]
            if term[0] == "cmp":  # symbolic Ordering as int discriminant
                pass
            neg = False
            if term[0] == "not":
                neg = True
                term = term[1]
            vals = [int(x) for x, _ in targets]
            if set(vals) <= {0, 1} and (v[2] is None or self.tk(v[2])["k"] == "bool"):
                out = []
                for b in (0, 1):
                    val = 1 - b if neg else b
                    t = dict((int(x), t) for x, t in targets).get(b, other)
                    s = st.copy()
                    if self.assume_bool(s, term, val):
                        out.append((s, t))
                return out
            if term[0] == "len":
                out = []
                rest = st.copy()
                for x, t in targets:
                    s = rest.copy()
                    if self.std.assume_len(self, s, ("leneq", term[1], int(x)), 1):
                        out.append((s, t))
                    if not self.std.assume_len(self, rest, ("leneq", term[1], int(x)), 0):
                        rest = None
                        break
                if rest is not None:
                    out.append((rest, other))
                return out
            # integer
            f = st.facts.get(term)
            if f is not None:
                return self.split(("K", f), targets, other, st)
            out = []
            for x, t in targets:
                s = st.copy()
                s.facts[term] = int(x)
                out.append((s, t))
            s = st.copy()
            s.facts[("ne", term)] = frozenset(vals) | s.facts.get(("ne", term), frozenset())
            out.append((s, other))
            return out
        raise Unknown("switch on " + str(v)[:80])

    def assume_variant(self, st, term, i):
        f = st.facts.get(term)
        if f is not None:
            return f == i
        if i in st.facts.get(("ne", term), ()):
            return False
        st.facts[term] = i
        return True

    def assume_bool(self, st, term, val):
        f = st.facts.get(term)
        if f is not None:
            return f == val
        if term[0] == "deq":
            _, t, dv, ty = term
            ad = self.variants(ty)
            vi = [i for i, v in enumerate(ad["variants"]) if v["discr"] == dv]
            if not vi:
                return val == 0
            vi = vi[0]
            cur = st.facts.get(t)
            if cur is not None:
                return (cur == vi) == bool(val)
            if val:
                return self.assume_variant(st, t, vi)
            ne = st.facts.get(("ne", t), frozenset()) | {vi}
            rest = [i for i in range(len(ad["variants"])) if i not in ne]
            if not rest:
                return False
            if len(rest) == 1:
                st.facts[t] = rest[0]
            else:
                st.facts[("ne", t)] = ne
            return True
        if term[0] in ("leneq", "lenge"):
            return self.std.assume_len(self, st, term, val)
        if term[0] == "streq":
            if val:
                for k, x in st.facts.items():
                    if k[0] == "streq" and k[1] == term[1] and x == 1 and k[2] != term[2]:
                        return False
        if term[0] == "and" and val:
            return all(self.assume_lit(st, x, 1) for x in term[1:])
        if term[0] == "or" and not val:
            return all(self.assume_lit(st, x, 0) for x in term[1:])
        if term[0] == "eq" and val and term[1][0] == "discr" and term[2][0] == "discr":
            a, b = term[1][1], term[2][1]
            fa, fb = st.facts.get(a), st.facts.get(b)
            if fa is not None and fb is not None and fa != fb:
                return False
            st.facts[term] = 1
            if fa is not None:
                return self.assume_variant(st, b, fa)
            if fb is not None:
                return self.assume_variant(st, a, fb)
            st.facts[("same", a)] = b
            st.facts[("same", b)] = a
            return True
        st.facts[term] = val
        return True

    def assume_lit(self, st, t, val):
        if t[0] == "not":
            return self.assume_bool(st, t[1], 1 - val)
        return self.assume_bool(st, t, val)

    # ---------------------------------------------------------------- exec
    def exec(self, ix, args, st):
        b = self.F.bodies[ix]
        self.depth += 1
        if self.depth > 300 or sum(1 for x in self.stack if x[0] == ix) > 5:
            self.depth -= 1
            return [("unk", "recursion depth in " + b["path"], st)]
        try:
            self.stack.append((ix, b["path"]))
            return self._exec(ix, b, args, st)
        finally:
            self.stack.pop()
            self.depth -= 1

    def _exec(self, ix, b, args, st):
        fid = ("f", self.fresh())
        self.frames[fid] = b["locals"]
        st = st.copy()
        if b["spread"] is not None and len(args) != b["argc"]:
            pass
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        st.mem[(fid, 0)] = ("Unk", "no return value")
        return self._run(ix, b, fid, st, 0)

    def _run(self, ix, b, fid, st, bb0, region=None, header=None):
        """Execute from block bb0.  With a region, stop at its header ('back') and at its exits ('exit')."""
        outs = []
        work = [(st, bb0, {})]
        bbs = b["bbs"]
        loops = self.loop_info(ix)
        start = region is not None
        while work:
            st, bb, vis = work.pop()
            try:
                while True:
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise Budget("step budget exhausted in " + b["path"])
                    if region is not None:
                        if start:
                            start = False
                            vis = dict(vis)
                            vis[bb] = 1  # do not summarise the region's own header again
                        elif bb == header:
                            outs.append(("back", bb, st))
                            break
                        elif bb not in region:
                            outs.append(("exit", bb, st))
                            break
                    n = vis.get(bb, 0) + 1
                    if n > 1 or bb in loops:
                        vis = dict(vis)
                    vis[bb] = n
                    if n > self.MAXV or self.unroll and n > self.unroll + 1 and ("parse", bb) in vis:
                        raise Unknown("loop bound in " + b["path"])
                    if bb in loops and n == 1:
                        res = self.std.summarize_loop(self, ix, b, fid, st, bb, loops[bb])
                        if res == "unroll":
                            vis[("parse", bb)] = 1
                            res = None
                        if res is not None:
                            done, conts = res
                            outs.extend(done)
                            for s2, b2 in conts:
                                v2 = dict(vis)
                                work.append((s2, b2, v2))
                            break
                    blk = bbs[bb]
                    for s in blk["s"]:
                        if s[0] == "=":
                            v = self.rvalue(fid, st, s[2])
                            pl = s[1]
                            if len(pl) == 1:
                                st.mem[(fid, pl[0])] = v
                            else:
                                cell, path = self.place(fid, st, pl)
                                self.store(st, cell, path, v)
                        elif s[0] == "setd":
                            cell, path = self.place(fid, st, s[1])
                            old = self.load(st, cell, path)
                            if old[0] == "A":
                                self.store(st, cell, path, ("A", old[1], s[2], old[3]))
                            else:
                                self.store(st, cell, path, self.unk("setdiscr"))
                    t = blk["t"]
                    k = t[0]
                    if k == "goto":
                        bb = t[1]
                        continue
                    if k == "ret":
                        v = st.mem[(fid, 0)]
                        outs.append(("ret", v, self.pop_frame(st, fid, v, b)))
                        break
                    if k == "switch":
                        v = self.operand(fid, st, t[1])
                        nx = self.split(v, t[2], t[3], st)
                        nx = [(s, x) for s, x in nx if bbs[x]["t"][0] != "unreachable" or bbs[x]["s"]]
                        if not nx:
                            break
                        for s, x in reversed(nx[1:]):
                            work.append((s, x, dict(vis)))
                        st, bb = nx[0]
                        continue
                    if k == "drop":
                        if self.on_call:
                            self.on_call("drop", self, b, t, st, fid)
                        bb = t[2]
                        continue
                    if k == "assert" and t[3].startswith(("MisalignedPointerDereference", "NullPointerDereference", "NullReferenceConstructed")):
                        bb = t[4]  # compiler-inserted debug checks on pointers of safe code
                        continue
                    if k == "assert":
                        v = self.operand(fid, st, t[1])
                        want = 1 if t[2] else 0
                        if v[0] == "K":
                            if v[1] == want:
                                bb = t[4]
                                continue
                            outs.append(("panic", (b["path"], t[3], t[5]), st))
                            break
                        sp = self.split(v, [[str(want), t[4]]], -1, st) if v[0] == "Sym" else None
                        if sp is None:
                            s = st.copy()
                            s.facts[("opaque", bb)] = 1
                            outs.append(("panic", (b["path"], t[3], t[5]), s))
                            bb = t[4]
                            continue
                        cont = None
                        for s, x in sp:
                            if x == -1:
                                outs.append(("panic", (b["path"], t[3], t[5]), s))
                            else:
                                cont = s
                        if cont is None:
                            break
                        st, bb = cont, t[4]
                        continue
                    if k == "call":
                        f = self.operand(fid, st, t[1])
                        av = [self.operand(fid, st, a) for a in t[2]]
                        res = self.call(f, av, st, site=(b["path"], t[5]), dty=t[7])
                        nx = []
                        for kd, v, s in res:
                            if kd == "ret":
                                if t[4] is None:
                                    continue
                                pl = t[3]
                                if len(pl) == 1:
                                    s.mem[(fid, pl[0])] = v
                                else:
                                    cell, path = self.place(fid, s, pl)
                                    self.store(s, cell, path, v)
                                nx.append(s)
                            else:
                                outs.append((kd, v, s))
                        if not nx:
                            break
                        bb = t[4]
                        for s in reversed(nx[1:]):
                            work.append((s, bb, dict(vis)))
                        st = nx[0]
                        continue
                    if k in ("unreachable", "unwind"):
                        break
                    raise Unknown("terminator " + k)
            except Unknown as e:
                self.unk(str(e))
                outs.append(("unk", str(e) + " @ " + b["path"], st))
        return outs

    def pop_frame(self, st, fid, v, b):
        """Drop the frame's cells unless the return value still refers to one."""
        keep = set()

        def walk(x):
            if isinstance(x, tuple):
                if len(x) >= 2 and x[0] == "R" and isinstance(x[1], tuple) and x[1][:1] != ("val",):
                    c = x[1]
                    if c[0] == fid and c not in keep:
                        keep.add(c)
                        walk(st.mem.get(c))
                for y in x:
                    if isinstance(y, tuple):
                        walk(y)

        t = v[0]
        if t not in ("K", "S", "Sym", "Unk"):
            walk(v)
        for c in [c for c in st.mem if c[0] == fid and c not in keep]:
            del st.mem[c]
        return st

    def loop_info(self, ix):
        c = getattr(self, "_loops", None)
        if c is None:
            c = self._loops = {}
        if ix in c:
            return c[ix]
        bbs = self.F.bodies[ix]["bbs"]

        def succ(i):
            t = bbs[i]["t"]
            if t[0] == "goto":
                return [t[1]]
            if t[0] == "switch":
                return [x[1] for x in t[2]] + [t[3]]
            if t[0] == "drop":
                return [t[2]]
            if t[0] == "assert":
                return [t[4]]
            if t[0] == "call":
                return [t[4]] if t[4] is not None else []
            return []

        # natural loops by DFS back edges
        color = {}
        headers = {}
        stack = [(0, iter(succ(0)))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m, 0) == 0:
                    color[m] = 1
                    stack.append((m, iter(succ(m))))
                    break
                if color[m] == 1:
                    headers.setdefault(m, set()).add(n)
            else:
                color[n] = 2
                stack.pop()
        res = {}
        if headers:
            pred = {}
            for i in range(len(bbs)):
                for s in succ(i):
                    pred.setdefault(s, []).append(i)
            for h, tails in headers.items():
                body = {h}
                todo = list(tails)
                while todo:
                    x = todo.pop()
                    if x in body:
                        continue
                    body.add(x)
                    todo.extend(pred.get(x, []))
                res[h] = frozenset(body)
        c[ix] = res
        return res

    def live_at(self, ix, header, blocks):
        """locals whose value on entry to a loop's header may still be read (in the loop or after it)"""
        key = ("live", ix, header)
        c = self._loops
        if key in c:
            return c[key]
        bbs = self.F.bodies[ix]["bbs"]

        def place_uses(pl, out, whole=False):
            if not (whole and len(pl) == 1):
                out.add(pl[0])
            for e in pl[1:]:
                if isinstance(e, list) and e[0] == "idx":
                    out.add(e[1])

        def is_place(x):
            return isinstance(x, list) and x and isinstance(x[0], int) and not isinstance(x[0], bool) and all(isinstance(e, (int, str)) or isinstance(e, list) and e and e[0] in ("as", "idx", "ci", "sub") for e in x[1:])

        def uses(x, out):
            if is_place(x):
                place_uses(x, out)
            elif isinstance(x, (list, tuple)) and x:
                if x[0] == "k":
                    return
                for y in x[1:] if isinstance(x[0], str) else x:
                    uses(y, out)

        gen, kill, succ, refs, defs = [], [], [], {}, {}
        for i, blk in enumerate(bbs):
            g, k = set(), set()

            def use(x, g=g, k=k):
                o = set()
                uses(x, o)
                g.update(o - k)

            def define(pl, g=g, k=k, i=i):
                if len(pl) == 1:
                    k.add(pl[0])
                    defs.setdefault(pl[0], set()).add(i)
                else:
                    use(pl)

            for st in blk["s"]:
                if st[0] == "=":
                    use(st[2])
                    if st[2][0] == "ref":
                        refs.setdefault(st[2][1][0], set()).add(i)
                    define(st[1])
                else:
                    use(st[1])
            t = blk["t"]
            if t[0] == "switch":
                use(t[1])
                succ.append([x[1] for x in t[2]] + [t[3]])
            elif t[0] == "drop":
                succ.append([t[2]])
            elif t[0] == "assert":
                use(t[1])
                succ.append([t[4]])
            elif t[0] == "call":
                use(t[1])
                use(t[2])
                define(t[3])
                succ.append([t[4]] if t[4] is not None else [])
            elif t[0] == "goto":
                succ.append([t[1]])
            else:
                if t[0] == "ret" and 0 not in k:
                    g.add(0)
                succ.append([])
            gen.append(g)
            kill.append(k)
        live = [set(g) for g in gen]
        ch = True
        while ch:
            ch = False
            for i in range(len(bbs) - 1, -1, -1):
                o = set()
                for j in succ[i]:
                    if 0 <= j < len(live):
                        o |= live[j]
                n = gen[i] | (o - kill[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        r = set(live[header])
        # a borrowed local may be read through the reference, unless it only exists inside the loop
        for x, at in refs.items():
            if not (at <= blocks and defs.get(x, {None}) <= blocks):
                r.add(x)
        c[key] = r
        return r

    # ---------------------------------------------------------------- calls
    def call(self, f, args, st, site=None, dty=None):
        """-> list of (kind, value, state)"""
        f = self.deref(f, st) if f[0] in ("R", "Box", "Arc") else f
        t = f[0]
        if t == "Ctor":
            return [("ret", ("A", f[1], f[2], tuple(args)), st.copy())]
        if t == "Fn":
            fn = self.F.callees[f[1]]
            return self.call_fn(fn, f, args, st, site, dty)
        if t == "Clo":
            return self.call_closure(f, args, st)
        if t == "P":
            return self.nom.call_parser(self, f, args, st)
        if t == "PyF":
            return f[1](self, args, st)
        if t == "Sym" and f[1][:1] == ("inner",) and len(args) == 1 and self.deref(args[0], st)[0] == "Span":
            return self.nom.call_parser(self, ("P", "nt", ("param", f[1]), None), args, st)
        if t == "Sym":
            return [("ret", ("Sym", ("app", f[1], tuple(self.abs(a, st) for a in args)), dty), st.copy())]
        return [("unk", "call of " + str(f)[:80], st)]

    def call_closure(self, f, args, st, ref=None):
        ix = f[1]
        if ix is None:
            return [("unk", "closure without body " + str(f[2]), st)]
        b = self.F.bodies[ix]
        self_ty = self.F.tys[b["locals"][1]]
        st = st.copy()
        if self_ty["k"] == "ref":
            if ref is None:
                cell = ("h", self.fresh())
                st.mem[cell] = f
                ref = ("R", cell, ())
            slf = ref
        else:
            slf = f
        if b["argc"] == 1 + len(args):
            av = [slf] + list(args)
        elif b["argc"] == 2 and len(args) != 1:
            av = [slf, ("T", tuple(args))]
        else:
            av = [slf] + list(args)
        return self.exec(ix, av, st)

    def call_fn(self, fn, fv, args, st, site=None, dty=None):
        path = fn["path"]
        rpath = fn.get("rpath")
        if self.cut is not None:
            r = self.cut(self, fn, fv, args, st, dty)
            if r is not None:
                return r
        # calling function values
        if path in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
            fnv, tup = args[0], args[1]
            tv = self.deref(tup, st)
            if tv[0] == "T":
                al = list(tv[1])
            else:
                ex = self.expand(tv, st)
                al = list(ex[1]) if ex[0] == "T" else [tv]
            g = self.deref(fnv, st)
            if g[0] == "Clo":
                ref = None
                x = fnv
                while x[0] == "R":
                    inner = self.load(st, x[1], x[2])
                    if inner[0] == "Clo":
                        ref = x
                        break
                    x = inner
                return self.call_closure(g, al, st, ref if ref and ref[1][0] != "val" else None)
            return self.call(g, al, st, site, dty)
        local = "inst" in fn and self.F.bodies[fn["inst"]]["local"]
        for p in ((rpath, path) if rpath and rpath != path else (path,)):
            if p == path and local and p in self.std.LOCAL_FIRST:
                if not (p == "std::clone::Clone::clone" and self.F.bodies[fn["inst"]].get("derived")):
                    continue
            m = self.models.get(p)
            if m is not None:
                r = m(self, fn, args, st, dty)
                if r is not None:
                    return r
        r = self.nom.nom_call(self, fn, args, st, dty)
        if r is not None:
            return r
        r = self.std.pattern_model(self, fn, args, st, dty)
        if r is not None:
            return r
        if "inst" in fn:
            return self.exec(fn["inst"], args, st)
        return self.opaque(fn, args, st, dty)

    def opaque(self, fn, args, st, dty):
        name = fn.get("rpath") or fn["path"]
        self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
        st = st.copy()
        tup = tuple(self.abs(a, st) for a in args)
        # mutable references handed to unknown code: contents unknown afterwards
        for i in fn.get("mut", ()):
            if i < len(args):
                a = args[i]
                if a[0] == "R" and a[1][0] != "val":
                    try:
                        self.store(st, a[1], a[2], self.unk("changed by " + name))
                    except Unknown:
                        return [("unk", "memory changed by " + name, st)]
                elif a[0] not in ("R",):
                    return [("unk", "memory changed by " + name, st)]
        st.notes = st.notes + (("opaque", name),)
        return [("ret", ("Sym", ("app", name, tup), dty), st)]

    def abs(self, v, st):
        """Reference-free, hashable abstraction of a value (used inside terms)."""
        return self.canon(v, st)

    # ---------------------------------------------------------------- canonical values
    def canon(self, v, st, depth=0):
        if depth > 60:
            return ("Unk", "deep")
        v = self.deref(v, st)
        t = v[0]
        if t == "Sym":
            f = st.facts.get(v[1])
            if f is not None and v[2] is not None:
                ad = self.variants(v[2])
                if ad is not None and ad["kind"] == "enum":
                    ex = self.expand(v, st)
                    if ex[0] == "A":
                        return ("A", ex[1], ex[2], tuple(self.canon(x, st, depth + 1) for x in ex[3]))
                if self.tk(v[2])["k"] == "bool":
                    return ("K", f)
            elif f is not None and v[2] is None and f in (0, 1):
                return ("K", f)
            return ("Sym", v[1])
        if t == "A":
            fs = tuple(self.canon(x, st, depth + 1) for x in v[3])
            ad = self.F.adts.get(v[1])
            # eta: all fields are projections of one term
            if fs and all(x[0] == "Sym" and x[1][0] == "fld" and x[1][2] == v[2] and x[1][3] == i for i, x in enumerate(fs)):
                base = fs[0][1][1]
                if all(x[1][1] == base for x in fs):
                    if ad is not None and ad["kind"] == "struct":
                        return ("Sym", base)
            return ("A", v[1], v[2], fs)
        if t == "T":
            fs = tuple(self.canon(x, st, depth + 1) for x in v[1])
            if fs and all(x[0] == "Sym" and x[1][0] == "fld" and x[1][2] == 0 and x[1][3] == i for i, x in enumerate(fs)):
                base = fs[0][1][1]
                if all(x[1][1] == base for x in fs) and len(fs) > 1:
                    return ("Sym", base)
            return ("T", fs)
        if t == "L":
            return self.std.canon_list(self, v, st, depth)
        if t == "It":
            return self.std.canon_list(self, ("L", v[1]), st, depth)
        if t == "V":
            return ("V", v[1], tuple(self.canon(x, st, depth + 1) for x in v[2]))
        if t == "W":
            return ("W", v[1], tuple((a, self.canon(x, st, depth + 1)) for a, x in v[2]))
        if t in ("Nm", "Num") and isinstance(v[1], tuple):
            return (t, self.canon(v[1], st, depth + 1))
        if t == "Clo":
            return ("Clo", v[2], tuple(self.canon(x, st, depth + 1) for x in v[3]))
        if t == "Fn":
            fn = self.F.callees[v[1]]
            return ("Fn", fn.get("rpath") or fn["path"])
        if t == "P":
            return ("P",)
        return v
