"""Summaries of ordinary (non-parser) functions: for every path its conditions and its result, as a user sees them.

A function is interpreted abstractly on symbolic arguments.  Results are shown through the public surface: enum variants,
the accessors of structs (evaluated by the same interpretation on the result), elements of collections; parts of an argument
are named by the accessor that reports them.  The private representation never appears in a summary.
"""
import re
import ai, absstd
from grammar import Grammar, short
from spec import STRUCTS, field_ix, strip_acc
from view import base

MAXPATHS = 80


class NoSummary(Exception):
    pass


class Api:
    def __init__(self, F):
        self.F = F
        self.G = Grammar(F)
        self.acc = {}
        for f in F.fns:
            if f["has_self"] and f["kind"] == "AssocFn" and not f.get("trait") and f.get("inst") is not None and len(f["inputs"]) == 1:
                t = F.tys[F.peel(f["inputs"][0])]
                if t["k"] == "adt" and t["def"].startswith("crate::"):
                    self.acc.setdefault((base(t["def"]), f["name"]), []).append(f)
        self.next_impl = {}
        for f in F.fns:
            m = re.match(r"<(crate::[\w:#]+)(<.*>)? as std::iter::Iterator>::next$", f["path"])
            if m and f.get("inst") is not None:
                self.next_impl[m.group(1)] = f
        self.names_opaque = True
        self.extra_cut = None
        self.adt_by_name = {}
        for p, a in F.adts.items():
            if p.startswith("crate::"):
                self.adt_by_name.setdefault(base(p), a)

    def interp(self):
        I = ai.Interp(self.F)
        I.cut = self.cut
        I.max_steps = 150000
        return I

    # ------------------------------------------------------------- cuts
    NAME = "crate::types::name::Name"

    def is_name(self, I, v):
        if v[0] == "Nm":
            return True
        return v[0] == "Sym" and v[2] is not None and I.tk(I.F.peel(v[2])).get("def") == self.NAME

    def cut(self, I, fn, fv, args, st, dty):
        if self.extra_cut is not None:
            r = self.extra_cut(I, fn, fv, args, st, dty)
            if r is not None:
                return r
        p = fn.get("rpath") or fn["path"]
        if not self.names_opaque:
            return None
        if p.startswith("<" + self.NAME + " as ") and len(args) == 1:
            d = I.deref(args[0], st)
            if self.is_name(I, d) and p.endswith(("::deref", "::as_ref", "::borrow", "::to_string")):
                if d[0] == "Nm":
                    return [("ret", d[1], st)]
                return [("ret", ("Sym", ("text", d[1]), self.str_ty()), st)]
        return self.G.name_cut(I, fn, p, args, st, dty)

    def str_ty(self):
        for i, t in enumerate(self.F.tys):
            if t["k"] == "str":
                return i
        return None

    # ------------------------------------------------------------- running
    def args_of(self, I, f, st):
        args, muts = [], []
        self.argty = {}
        for i, t in enumerate(f["inputs"]):
            term = ("arg", i)
            self.argty[i] = t
            k = self.F.tys[t]
            if k["k"] == "ref" and k.get("mut"):
                cell = ("h", I.fresh())
                v = ("Sym", term, k["e"])
                st.mem[cell] = v
                args.append(("R", cell, ()))
                muts.append((i, cell))
            else:
                args.append(("Sym", term, t))
        return args, muts

    def run(self, f, args=None):
        """-> [(kind, value, st, I, muts)]"""
        I = self.interp()
        st = ai.St()
        a, muts = self.args_of(I, f, st)
        if args is not None:
            a = args(I, st, a)
        try:
            outs = I.exec(f["inst"], a, st)
        except ai.Budget as e:
            raise NoSummary("not bounded: %s" % e)
        except (ai.Unknown, RecursionError, KeyError, IndexError, TypeError) as e:
            raise NoSummary("%s" % (e,))
        if len(outs) > MAXPATHS:
            raise NoSummary("more than %d paths" % MAXPATHS)
        return [(k, v, s, I, muts) for k, v, s in outs]

    # ------------------------------------------------------------- types of terms
    def ty_of(self, I, term):
        if not isinstance(term, tuple):
            return None
        if term[0] == "arg":
            if term[1] not in self.argty:
                return None
            t = self.F.peel(self.argty[term[1]])
            if I.tk(t)["k"] in ("param", "alias") and term in I.into_ty:
                return self.F.peel(I.into_ty[term])
            return t
        if term[0] == "fld":
            b = self.ty_of(I, term[1])
            if b is None:
                return None
            k = I.tk(self.F.peel(b))
            if k["k"] == "tuple":
                return self.F.peel(k["e"][term[3]])
            if k["k"] == "adt" and "ft" in k and term[2] < len(k["ft"]) and term[3] < len(k["ft"][term[2]]):
                return self.F.peel(k["ft"][term[2]][term[3]])
            return None
        if term[0] in ("elt", "idx"):
            b = self.ty_of(I, term[1])
            if b is None:
                return None
            e = I.elem_ty(b)
            return self.F.peel(e) if e is not None else None
        return None

    # ------------------------------------------------------------- naming terms
    def name_term(self, I, t, st, depth=0):
        """term -> user-visible tree"""
        if depth > 40:
            raise NoSummary("deep term")
        if not isinstance(t, tuple) or not t:
            return t
        if isinstance(t, frozenset):
            return tuple(sorted((self.name_term(I, x, st, depth + 1) for x in t), key=repr))
        if t[0] == "arg":
            return "a%d" % t[1]
        if t[0] == "fld":
            chain = []
            x = t
            while isinstance(x, tuple) and x[0] == "fld":
                chain.append((x[2], x[3]))
                x = x[1]
            chain.reverse()
            root = x
            cur = root
            out = self.name_term(I, root, st, depth + 1)
            i = 0
            while i < len(chain):
                ty = self.ty_of(I, cur)
                k = I.tk(self.F.peel(ty)) if ty is not None else {"k": "?"}
                vi, fi = chain[i]
                if k["k"] == "tuple":
                    out = (".%d" % fi, out)
                    cur = ("fld", cur, vi, fi)
                    i += 1
                    continue
                if k["k"] == "adt":
                    ad = self.F.adts.get(k["def"])
                    n = base(k["def"])
                    if ad is not None and ad["kind"] == "enum":
                        if k["def"] == "std::option::Option" and vi == 1:
                            out = ("unwrap", out)
                        else:
                            out = ("%s::%s.%d" % (n, ad["variants"][vi]["name"], fi), out)
                        cur = ("fld", cur, vi, fi)
                        i += 1
                        continue
                    sp = STRUCTS.get(n)
                    if sp == ["*"]:
                        out = (n + ".*", out)
                        cur = ("fld", cur, vi, fi)
                        i += 1
                        continue
                    if sp:
                        hit = None
                        for j in range(len(chain), i, -1):
                            tt = cur
                            for c in chain[i:j]:
                                tt = ("fld", tt, c[0], c[1])
                            for a in sp:
                                if a[0] == ".":
                                    if j == i + 1 and fi in field_ix(self.F, ad["variants"][0]["fields"], a):
                                        hit = (j, strip_acc(a), tt)
                                elif self.acc_term(I, n, a, ty, cur) == tt:
                                    hit = (j, a, tt)
                                if hit:
                                    break
                            if hit:
                                break
                        if hit:
                            out = ("%s.%s" % (n, hit[1]), out)
                            cur = hit[2]
                            i = hit[0]
                            continue
                    out = ("private %s.%d" % (n, fi), out)
                    cur = ("fld", cur, vi, fi)
                    i += 1
                    continue
                out = ("fld%d.%d" % (vi, fi), out)
                cur = ("fld", cur, vi, fi)
                i += 1
            return out
        if t[0] in ("elt", "len", "text", "discr", "not"):
            return (t[0], self.name_term(I, t[1], st, depth + 1))
        if t[0] == "idx":
            return ("idx", self.name_term(I, t[1], st, depth + 1), self.name_term(I, t[2], st, depth + 1))
        if t[0] in ("Sym",):
            return self.name_term(I, t[1], st, depth + 1)
        if t[0] == "deq":
            ad = I.variants(t[3])
            vn = [v["name"] for v in ad["variants"] if v["discr"] == t[2]] if ad else []
            return ("is", self.name_term(I, t[1], st, depth + 1), vn[0] if vn else t[2])
        if t[0] in ("S", "K", "F"):
            return (t[0], t[1])
        if t[0] == "L":
            return ("L",) + tuple(self.name_term(I, x, st, depth + 1) for x in t[1:])
        if t[0] == "A":
            try:
                return self.show(I, t, st, depth + 1)
            except NoSummary:
                pass
        if isinstance(t[0], str):
            return (t[0],) + tuple(self.name_term(I, x, st, depth + 1) for x in t[1:])
        return tuple(self.name_term(I, x, st, depth + 1) for x in t)

    def acc_term(self, I, n, a, ty, cur):
        key = (n, a, ty)
        c = self.__dict__.setdefault("_acct", {})
        if key not in c:
            c[key] = None
            fs = self.acc.get((n, a))
            if fs:
                arg = ("Sym", ("@",), ty)
                if self.F.tys[fs[0]["inputs"][0]]["k"] == "ref":
                    arg = ("R", ("val", arg), ())
                outs = I.exec(fs[0]["inst"], [arg], ai.St())
                if len(outs) == 1 and outs[0][0] == "ret":
                    r = I.canon(outs[0][1], outs[0][2])
                    if r[0] == "Sym":
                        c[key] = r[1]
        t = c[key]
        if t is None:
            return None

        def sub(x):
            if x == ("@",):
                return cur
            if isinstance(x, tuple):
                return tuple(sub(y) for y in x)
            return x

        return sub(t)

    # ------------------------------------------------------------- showing values
    def show(self, I, v, st, depth=0):
        if depth > 40:
            raise NoSummary("deep value")
        v = I.deref(v, st)
        t = v[0]
        if t == "Unk":
            raise NoSummary("unknown value: %s" % (v[1],))
        if t == "Sym":
            ex = v
            f = st.facts.get(v[1])
            if len(v) > 2 and v[2] is not None and isinstance(f, int):
                ad = I.variants(v[2])
                if ad is not None and ad["kind"] == "enum" and f < len(ad["variants"]) and not ad["variants"][f]["fields"]:
                    ex = I.expand(v, st)
                    if ex[0] == "A":
                        return self.show(I, ex, st, depth + 1)
            if f in (0, 1) and (len(v) < 3 or v[2] is None or I.tk(v[2])["k"] == "bool"):
                return ("K", f)
            if len(v) > 2 and v[2] is not None and v[1][0] not in ("len", "cmp"):
                lo, hi = absstd.len_bounds(st, v[1])
                if hi == 0:
                    return ("L", ())
            return self.name_term(I, v[1], st, depth + 1)
        if t == "A":
            d = v[1]
            ad = self.F.adts.get(d)
            n = base(d)
            if d in ("std::option::Option", "std::result::Result"):
                vn = ("None", "Some")[v[2]] if d.endswith("Option") else ("Ok", "Err")[v[2]]
                return (vn,) + tuple(self.show(I, x, st, depth + 1) for x in v[3])
            if d in self.next_impl:
                return self.drain(I, v, st, depth + 1)
            if ad is None:
                raise NoSummary("value of " + d)
            if ad["kind"] == "enum":
                fs = tuple(self.show(I, x, st, depth + 1) for x in v[3])
                vn = "%s::%s" % (n, ad["variants"][v[2]]["name"])
                if fs and all(isinstance(x, tuple) and len(x) == 2 and x[0] == "%s.%d" % (vn, i) for i, x in enumerate(fs)) and len(set(x[1] for x in fs)) == 1:
                    return fs[0][1]
                return (vn,) + fs
            sp = STRUCTS.get(n)
            if sp is None:
                if not d.startswith("crate::"):
                    raise NoSummary("value of " + d)
                if d == self.NAME:
                    if self.names_opaque:
                        x = self.name_text(I, v, st)
                        return ("Name", x)
                    raise NoSummary("name")
                if not v[3] or all(x == ai.UNIT for x in v[3]):
                    return (n,)
                raise NoSummary("no public view of " + n)
            if sp == ["*"]:
                if len(v[3]) != 1:
                    raise NoSummary("%s is no longer a plain wrapper" % n)
                x = self.show(I, v[3][0], st, depth + 1)
                if isinstance(x, tuple) and x[0] == n + ".*":
                    return x[1]
                return (n, x)
            fields = ad["variants"][0]["fields"]
            out = []
            for a in sp:
                if a[0] == ".":
                    ix = field_ix(self.F, fields, a)
                    if not ix:
                        raise NoSummary("no field %s.%s" % (n, a[1:]))
                    out.append((strip_acc(a), self.show(I, v[3][ix[0]], st, depth + 1)))
                else:
                    out.append((a, self.accessor(I, n, a, v, st, depth + 1)))
            if all(isinstance(x, tuple) and len(x) == 2 and x[0] == "%s.%s" % (n, a) for a, x in out) and len(set(x[1] for a, x in out)) == 1:
                return out[0][1][1]
            return ("{%s}" % n,) + tuple(out)
        if t in ("L", "It", "Set"):
            return self.show_list(I, v[1], st, depth)
        if t == "T":
            out = tuple(self.show(I, x, st, depth + 1) for x in v[1])
            if len(out) > 1 and all(isinstance(x, tuple) and len(x) == 2 and x[0] == ".%d" % i for i, x in enumerate(out)) and len(set(x[1] for x in out)) == 1:
                return out[0][1]
            return ("T",) + out
        if t == "Nm":
            x = self.show(I, v[1], st, depth + 1)
            return x[1] if isinstance(x, tuple) and x[0] == "text" else ("Name", x)
        if t == "Num":
            return ("Number", self.show(I, v[1], st, depth + 1))
        if t in ("S", "K", "F"):
            return (t, v[1])
        if t == "Fl" and v[1] == 32:
            return ("F", v[2])
        if t in ("Box", "Arc"):
            return self.show(I, v[1], st, depth + 1)
        if t == "Disc":
            return ("discr", self.name_term(I, v[1], st))
        if t == "Static":
            r = self.static_text(I, v[1])
            if r is not None:
                return ("S", r)
        raise NoSummary("value " + t + " " + str(v)[:60])

    def name_text(self, I, v, st):
        """text of a Name value built by the crate itself: evaluated with its own Deref"""
        f = [x for x in self.F.fns if x["path"] == "<%s as std::ops::Deref>::deref" % self.NAME]
        if not f:
            raise NoSummary("Name does not dereference")
        outs = I.exec(f[0]["inst"], [("R", ("val", I.freeze(v, st)), ())], st)
        if len(outs) != 1 or outs[0][0] != "ret":
            raise NoSummary("text of a name")
        return self.show(I, outs[0][1], outs[0][2])

    def static_text(self, I, path):
        for b in self.F.bodies:
            if b["path"] == path:
                outs = I.exec(self.F.bodies.index(b), [], ai.St())
                if len(outs) == 1 and outs[0][0] == "ret":
                    x = I.deref(outs[0][1], outs[0][2])
                    if x[0] == "S":
                        return x[1]
        return None

    def accessor(self, I, n, a, v, st, depth):
        fs = self.acc.get((n, a))
        if not fs:
            raise NoSummary("no accessor %s::%s" % (n, a))
        arg = v
        if self.F.tys[fs[0]["inputs"][0]]["k"] == "ref":
            arg = ("R", ("val", I.freeze(v, st)), ())
        outs = I.exec(fs[0]["inst"], [arg], st.copy())
        if len(outs) != 1 or outs[0][0] != "ret":
            raise NoSummary("accessor %s::%s does not reduce" % (n, a))
        return self.show(I, outs[0][1], outs[0][2], depth + 1)

    def show_list(self, I, parts, st, depth):
        out = []
        for p in parts:
            if p[0] == "e":
                out.append(self.show(I, p[1], st, depth + 1))
                continue
            key, alts = p[1], p[2]
            kt = self.name_term(I, key, st, depth + 1) if key[0] != "drop" else ("drop", self.name_term(I, key[1], st, depth + 1), key[2])
            sub = []
            for conds, ps in alts:
                s = st
                if conds:
                    s = st.copy()
                    for k, x in conds:
                        s.facts[k] = x
                cs = tuple(sorted((self.fact(I, k, x, s) for k, x in conds), key=repr))
                sub.append((cs, self.show_list(I, ps, s, depth + 1)[1]))
            if key[0] == "opt" and sub and len(sub) == 1:
                out.append(("if-some", self.name_term(I, key[1], st, depth + 1), sub[0][1]))
            elif len(sub) == 1 and not sub[0][0] and sub[0][1] == (("elt", kt),):
                out.append(("all", kt))
            else:
                out.append(("each", kt, tuple(sub)))
        if len(out) == 1 and isinstance(out[0], tuple) and out[0][0] == "all":
            return ("L", tuple(out)) if depth < 0 else ("L", tuple(out))
        return ("L", tuple(out))

    def drain(self, I, v, st, depth):
        """what a local iterator yields until it ends"""
        f = self.next_impl[v[1]]
        out = []
        cur, s = v, st.copy()
        for step in range(12):
            pos = first_splice(cur)
            if pos is not None:
                path, part = pos
                key, alts = part[1], part[2]
                if len(alts) != 1 or alts[0][0] or len(alts[0][1]) != 1 or key[0] == "opt":
                    raise NoSummary("iterator over a conditional sequence")
                el = alts[0][1][0]
                one = put(cur, path, lambda ps: (el,) + ps[1:])
                rest = put(cur, path, lambda ps: ps[1:])
                r = self.step(I, f, one, s)
                if r is None or r[0] != "Some":
                    raise NoSummary("iterator step")
                if I.freeze(r[2], r[3]) != I.freeze(rest, r[3]):
                    raise NoSummary("iterator does not advance by one element")
                x = self.show(I, r[1], r[3], depth + 1)
                kt = self.name_term(I, key, st, depth + 1)
                out.append(("all", kt) if x == ("elt", kt) else ("each", kt, (((), (x,)),)))
                cur, s = rest, r[3]
                continue
            r = self.step(I, f, cur, s)
            if r is None:
                raise NoSummary("iterator step")
            if r[0] == "None":
                return ("L", tuple(out))
            out.append(self.show(I, r[1], r[3], depth + 1))
            cur, s = r[2], r[3]
        raise NoSummary("iterator does not end")

    def step(self, I, f, v, st):
        s = st.copy()
        cell = ("h", I.fresh())
        s.mem[cell] = v
        outs = I.exec(f["inst"], [("R", cell, ())], s)
        if len(outs) != 1 or outs[0][0] != "ret":
            return None
        r = I.deref(outs[0][1], outs[0][2])
        if r[0] != "A":
            return None
        s = outs[0][2]
        return ("None", None, s.mem[cell], s) if r[2] == 0 else ("Some", r[3][0], s.mem[cell], s)

    # ------------------------------------------------------------- facts
    def fact(self, I, k, x, st):
        if isinstance(k, tuple) and k[0] == "ne":
            ty = self.ty_of(I, k[1])
            ad = I.variants(ty) if ty is not None else None
            names = tuple(sorted(ad["variants"][i]["name"] for i in x)) if ad and ad["kind"] == "enum" else tuple(sorted(x))
            return (("variant", self.name_term(I, k[1], st)), ("not", names))
        if isinstance(k, tuple) and k[0] in ("lenlo", "lenhi"):
            return ((k[0], self.norm_len(self.name_term(I, k[1], st))), x)
        if isinstance(k, tuple) and k[0] in ("streq", "eq", "feq", "finite", "lt", "parses", "leneq", "lenge", "and", "or", "not", "cmp", "fpcmp", "app", "opaque", "deq"):
            return (self.name_term(I, k, st), x)
        ty = self.ty_of(I, k)
        ad = I.variants(ty) if ty is not None else None
        if ad is not None and ad["kind"] == "enum" and isinstance(x, int) and x < len(ad["variants"]):
            return (("variant", self.name_term(I, k, st)), ad["variants"][x]["name"])
        return (self.name_term(I, k, st), x)

    def norm_len(self, t):
        if isinstance(t, tuple) and t[0] == "L" and len(t) == 2 and len(t[1]) == 1 and t[1][0][0] == "sp":
            return t[1][0][1]
        return t

    def conditions(self, I, st):
        out = []
        for k, x in st.facts.items():
            if isinstance(k, tuple) and k[0] == "same":
                continue
            out.append(self.fact(I, k, x, st))
        return tuple(sorted(out, key=repr))

    def summary(self, f, args=None):
        """-> list of (conditions, outcome tree)"""
        res = []
        self.hints = {}
        for k, v, st, I, muts in self.run(f, args):
            self.hints = I.into_ty
            try:
                cs = self.conditions(I, st)
            except NoSummary:
                raise
            if k == "panic":
                res.append((cs, ("PANIC",)))
                continue
            if k != "ret":
                raise NoSummary("path not understood: %s" % (v,))
            o = self.show(I, v, st)
            if muts:
                o = ("RET", o) + tuple((("after a%d" % i), self.show(I, st.mem[c], st)) for i, c in muts)
            res.append((cs, o))
        return merge(res)


def merge(res):
    """drop a condition two otherwise equal paths disagree on"""
    res = sorted(set(res), key=repr)
    changed = True
    while changed:
        changed = False
        for i in range(len(res)):
            for j in range(i + 1, len(res)):
                if res[i][1] != res[j][1]:
                    continue
                a, b = dict(res[i][0]), dict(res[j][0])
                if a.keys() == b.keys():
                    diff = [k for k in a if a[k] != b[k]]
                    if len(diff) == 1 and {a[diff[0]], b[diff[0]]} == {0, 1}:
                        c = tuple(x for x in res[i][0] if x[0] != diff[0])
                        res = [r for n, r in enumerate(res) if n not in (i, j)] + [(c, res[i][1])]
                        res = sorted(set(res), key=repr)
                        changed = True
                        break
            if changed:
                break
    return res


def first_splice(v, path=()):
    """path of the first iterator inside a value whose next part is a repetition"""
    if v[0] == "It":
        if v[1] and v[1][0][0] == "sp":
            return path, v[1][0]
        return None
    if v[0] == "A":
        for i, x in enumerate(v[3]):
            r = first_splice(x, path + (("A", i),))
            if r:
                return r
    if v[0] == "T":
        for i, x in enumerate(v[1]):
            r = first_splice(x, path + (("T", i),))
            if r:
                return r
    return None


def put(v, path, g):
    if not path:
        return (v[0], g(v[1]))
    k, i = path[0]
    if k == "A":
        l = list(v[3])
        l[i] = put(l[i], path[1:], g)
        return (v[0], v[1], v[2], tuple(l))
    l = list(v[1])
    l[i] = put(l[i], path[1:], g)
    return ("T", tuple(l))


def txt(o):
    """readable form"""
    if isinstance(o, str):
        return o
    if isinstance(o, (int, float)):
        return str(o)
    if not isinstance(o, tuple):
        return repr(o)
    if not o:
        return "()"
    h = o[0]
    if h == "S":
        return repr(o[1])
    if h == "K":
        return "#%s" % (o[1],)
    if h == "L" and len(o) == 2 and isinstance(o[1], tuple):
        return "[%s]" % ", ".join(txt(x) for x in o[1])
    if h == "T":
        return "(%s)" % ", ".join(txt(x) for x in o[1:])
    if h == "all":
        return "*%s" % txt(o[1])
    if isinstance(h, str) and h[:1] == "{":
        return "%s{%s}" % (h[1:-1], ", ".join("%s: %s" % (a, txt(x)) for a, x in o[1:]))
    if isinstance(h, str) and (h[0] == "." or "." in h) and len(o) == 2:
        return "%s.%s" % (txt(o[1]), h.lstrip("."))
    if isinstance(h, str):
        return "%s(%s)" % (h, ", ".join(txt(x) for x in o[1:])) if len(o) > 1 else h
    return "<%s>" % ", ".join(txt(x) for x in o)
