"""Extraction: every parser entry point is abstracted to its success chains (PEG productions) with result values."""
from absnom import atom, to_result, from_result, linearize, guard_of, apply, UNIT, last
import ai


def short(ts):
    """crate::types::gd::GoalDefinition<..> -> GoalDefinition<..>"""
    import re

    return re.sub(r"(?:[a-zA-Z_0-9#]+::)+", "", ts)


# elements that merely wrap one other element's token: always seen through
INLINE = {"Predicate", "ActionSymbol", "FunctionSymbol", "DurativeActionSymbol", "PreferenceName", "PrimitiveType", "FunctionType"}


class Prod:
    __slots__ = ("chain", "val", "st", "kind", "why", "site")

    def __init__(self, chain, val, st, kind="ok", why=None):
        self.chain, self.val, self.st, self.kind, self.why = chain, val, st, kind, why


class Summary:
    def __init__(self, path, key):
        self.path, self.key = path, key
        self.prods, self.fails, self.panics, self.unks, self.errs, self.incs = [], [], [], [], [], []
        self.empty_rounds = []
        self.notes = set()


class Grammar:
    def __init__(self, F):
        self.F = F
        self.I = ai.Interp(F)
        self.I.cut = self.cut
        self.cache = {}
        self.entries = {}  # fn path -> key
        self.entry_ty = {}
        self.key_ty = {}
        self.free = {}  # key -> [fn items]
        self.impls = {}  # key -> {parse, parse_span, from_str}
        self.find_entries()

    # ---- entry points
    def item_type(self, out):
        """T of Result<(Span, T), _>"""
        t = self.F.tys[out]
        if t["k"] == "adt" and t["def"] == "std::result::Result" and "ft" in t:
            p = self.F.tys[t["ft"][0][0]]
            if p["k"] == "tuple" and len(p["e"]) == 2:
                s = self.F.tys[p["e"][0]]
                if s["k"] == "adt" and s["def"].startswith("nom_locate::LocatedSpan"):
                    return p["e"][1]
        return None

    def find_entries(self):
        F = self.F
        for f in F.fns:
            if not f["path"].startswith("crate::parsers::") or f.get("inst") is None:
                continue
            if f["kind"] == "Fn" and f["exported"] and len(f["inputs"]) == 1:
                t = self.item_type(f["output"])
                if t is not None:
                    k = short(F.tstr(t))
                    self.free.setdefault(k, []).append(f)
            if f.get("trait") and f["trait"].endswith("parsers::Parser") and f["name"] in ("parse", "parse_span", "from_str") and "<impl" in f["path"]:
                k = short(F.tstr(f["self"]))
                self.impls.setdefault(k, {})[f["name"]] = f
        for k, fs in self.free.items():
            names = KNOWN_FREE.get(k)
            for f in fs:
                if names is None or f["name"] in names:
                    self.entries[f["path"]] = k
                    self.entry_ty[f["path"]] = self.item_type(f["output"])
                    self.key_ty.setdefault(k, self.item_type(f["output"]))
        for k, d in self.impls.items():
            if "parse" in d:
                self.entries[d["parse"]["path"]] = k
                self.entry_ty[d["parse"]["path"]] = self.key_ty.get(k)

    def cut(self, I, fn, fv, args, st, dty):
        p = fn.get("rpath") or fn["path"]
        k = self.entries.get(p)
        if k is None and fn["path"] in ("crate::parsers::Parser::parse_span",) and fn.get("args"):
            k = None
        if k is None or k in INLINE:
            return self.name_cut(I, fn, p, args, st, dty)
        a = I.deref(args[0], st)
        if a[0] != "Span":
            return None
        t = self.entry_ty.get(p)
        if a[2] is not None:
            return [("unk", "element parser on a bounded sub-text", st)]
        if k == "()":
            ident, q = I.fresh(), I.fresh()
            s = st.copy()
            import absnom

            absnom.ev(s, ident, a[1], q, "gap", ((("nt", "()", 0),),))
            return [to_result(I, ("ok", ("Span", q, None), UNIT, s))]
        return [to_result(I, o) for o in atom(I, ("P", "nt", k, t), a, st)]

    def name_cut(self, I, fn, p, args, st, dty):
        """constructing a Name from text: the text is what counts"""
        if dty is None or len(args) != 1:
            return None
        f = self.name_ctors.get(p)
        if f is None:
            if p in ("std::convert::Into::into", "std::convert::From::from", "<T as std::convert::Into<U>>::into"):
                t = self.F.tys[dty]
                if not (t["k"] == "adt" and t["def"] == self.name_def):
                    return None
            else:
                return None
        v = I.deref(args[0], st)
        if v[0] in ("S", "Txt", "Span") or (v[0] == "Sym" and v[2] is not None and I.std.is_text(I, v)):
            if v[0] == "Span":
                v = I.nom.span_text(I, v, st)
            return [("ret", ("Nm", v), st)]
        return None

    @property
    def name_def(self):
        return "crate::types::name::Name"

    @property
    def name_ctors(self):
        c = getattr(self, "_nc", None)
        if c is None:
            c = self._nc = {}
            for f in self.F.fns:
                o = self.F.tys[f["output"]]
                if not (o["k"] == "adt" and o["def"] == self.name_def) or len(f["inputs"]) != 1 or f["has_self"]:
                    continue
                if not f["exported"] and not f.get("trait"):
                    continue
                i = self.F.tys[self.F.peel(f["inputs"][0])]
                if i["k"] in ("str", "param") or i.get("def") in ("std::string::String", "std::borrow::Cow"):
                    c[f["path"]] = f
        return c

    # ---- summaries
    def summarize(self, f, key=None):
        p = f["path"]
        if p in self.cache:
            return self.cache[p]
        I = self.I
        s = Summary(p, key)
        self.cache[p] = s
        st = ai.St()
        I.texts = {}
        I.empty_rounds = []
        I.unknowns = {}
        s.start = start = I.fresh()
        sp = ("Span", start, None)
        try:
            outs = I.exec(f["inst"], [sp], st)
        except ai.Budget as e:
            s.unks.append(str(e))
            return s
        self.collect(s, outs, start)
        return s

    def unrolled(self, f, rounds, steps=400000):
        """the same with repetitions followed round by round; paths that end unknown are kept with the steps they took"""
        I = self.I
        s = Summary(f["path"], None)
        st = ai.St()
        I.texts = {}
        I.empty_rounds = []
        I.unknowns = {}
        s.start = start = I.fresh()
        I.unroll, n0, m0 = rounds, I.steps, I.max_steps
        I.max_steps = n0 + steps
        try:
            outs = I.exec(f["inst"], [("Span", start, None)], st)
        except (ai.Budget, RecursionError):
            return None
        finally:
            I.unroll, I.max_steps = 0, m0
        res = []
        for k, v, t in outs:
            res.extend(from_result(I, k, v, t))
        s.open = [o for o in res if o[0] not in ("ok", "err", "fail", "inc", "panic")]
        self.collect_ref(s, [o for o in res if o[0] in ("ok", "err", "fail", "inc", "panic")], start)
        return s

    def so_far(self, s, st):
        """the steps a path took, as far as they are one chain, and its facts"""
        for e in reversed([e[2] for e in st.trace if e[2] is not None]):
            try:
                ch = linearize(st.trace, s.start, e)
            except (KeyError, IndexError):
                ch = None
            if ch is not None:
                return ch, st.facts
        if not any(e[2] is not None for e in st.trace):
            ch = linearize(st.trace, s.start, s.start)
            if ch is not None:
                return ch, st.facts
        return (), {}

    def collect(self, s, outs, start):
        res = []
        for k, v, st in outs:
            for x in st.notes:
                s.notes.add(x)
            res.extend(from_result(self.I, k, v, st))
        self.collect_ref(s, res, start)

    def collect_ref(self, s, res, start):
        I = self.I
        s.start = start
        if True:
            for o in res:
                if o[0] == "ok":
                    ch = linearize(o[3].trace, start, o[1][1])
                    if ch is None or o[1][2] is not None:
                        s.unks.append("remainder is not the rest of the input")
                        continue
                    s.prods.append(Prod(ch, o[2], o[3]))
                elif o[0] == "err":
                    s.errs.append(o[1])
                elif o[0] == "fail":
                    s.fails.append(o)
                elif o[0] == "inc":
                    s.incs.append(o)
                elif o[0] == "panic":
                    s.panics.append((o[1], o[2]))
                else:
                    s.unks.append(str(o[1]))
        s.empty_rounds = list(I.empty_rounds)

    def summarize_combinator(self, f, nargs=1):
        """public parser combinators (typed_list, literal, ...): the inner parser is opaque"""
        p = f["path"]
        if p in self.cache:
            return self.cache[p]
        I = self.I
        s = Summary(p, f["name"])
        self.cache[p] = s
        st = ai.St()
        args = [("Sym", ("inner", i), None) for i in range(len(f["inputs"]))]
        outs = I.exec(f["inst"], args, st)
        res = []
        s.start = start = I.fresh()
        for k, v, s2 in outs:
            if k != "ret":
                res.append((k, v, s2))
                continue
            res.extend(I.call(v, [("Span", start, None)], s2))
        self.collect(s, res, start)
        return s


KNOWN_FREE = {}


def show_chain(ch):
    out = []
    for k, d, i in ch:
        if k == "lit":
            out.append(repr(d[0]))
        elif k == "gap":
            out.append("_")
        elif k == "nt":
            out.append("<%s>" % (d,))
        elif k == "star":
            out.append("{%s}%s" % (" | ".join(show_chain(c[0]) for c in d[0]), "*" if d[1] == 0 else "+"))
        elif k in ("neg", "peek"):
            out.append(("!" if k == "neg" else "&") + "(%s)" % " | ".join(show_chain(c) for c in d))
        elif k == "cls":
            out.append("[%s%s]{%s,%s}" % ("" if d[0][0] == "in" else "^", d[0][1] if len(d[0][1]) < 12 else d[0][1][:5] + "..", d[1], d[2]))
        else:
            out.append("%s:%s" % (k, d))
    return " ".join(out)


def show_chain_short(ch):
    return show_chain(tuple(x for x in ch if x[0] not in ("neg", "peek")))
