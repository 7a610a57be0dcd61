"""Names: what every constructor stores, how the interning table is used, and what equality, hash and text accessors look at.

The lock and the interning table are modelled abstractly: the table is any sorted table; a search finds an entry or an insertion point.
"""
import re

import absstd
import ai
from absstd import last, ok, some, ret, UNIT, NONE, ORD
from api import NoSummary

NAME = "crate::types::name::Name"


def poly(fn):
    """a trait method of a type parameter: code of the caller's"""
    return "trait" in fn and "rpath" not in fn and "inst" not in fn


class Intern:
    def __init__(self, A):
        self.A = A
        self.F = A.F
        self.I = None
        self.entry = None  # a concrete text as the compared entry
        self.searches = {}  # search number -> (texts compared)
        self.keyed = False  # the table is a set or map
        self.sorted = False  # some lookup relies on the order of the table

    # ------------------------------------------------------------ cuts
    def cut(self, I, fn, fv, args, st, dty):
        p = fn.get("rpath") or fn["path"]
        held = self.held(st)
        if held and poly(fn):
            s = st.copy()
            s.notes = s.notes + (("caller", fn["path"]),)
            st = s
            # fall through to the ordinary model, on the noted state
            r = self.default(I, fn, fv, args, st, dty)
            if r is not None:
                return r
        if "as std::ops::Deref>::deref" in p and len(args) == 1:
            v = I.deref(args[0], st)
            if v[0] == "Static" and v[1] in self.tables:
                return [("ret", ("R", ("val", ("Mutex", v[1])), ()), st)]
        if re.match(r"lazy_static::lazy::Lazy::<T>::get$|std::sync::(Once|Lazy)Lock::<.*>::(get_or_init|force)$", p):
            v = I.deref(args[0], st)
            if v[0] == "Static":
                return [("ret", ("R", ("val", ("Mutex", v[1])), ()), st)]
        l = last(p)
        if l in ("min", "max", "integer_min", "integer_max", "minimum", "maximum", "clamp") and len(args) >= 2:
            ts = [I.deref(a, st) for a in args]
            pos = [x for x in ts if x[0] == "Sym" and x[1][0] == "pos"]
            ln = [x for x in ts if x[0] == "Sym" and x[1][0] == "tablen" and not x[1][1]]
            if len(ts) == 2 and len(pos) == len(ln) == 1 and self.section_of(pos[0], st) == ln[0][1][2]:
                return [("ret", pos[0] if "min" in l else ln[0], st)]
        if ("Mutex" in p or "RwLock" in p) and l in ("lock", "write", "read"):
            v = I.deref(args[0], st)
            if v[0] in ("Mutex", "Static"):
                s = st.copy()
                n = sum(1 for x in s.notes if x[0] == "lock")
                s.notes = s.notes + (("lock", v[1], n) + (("read",) if l == "read" else ()),)
                if ("tab", v[1]) not in s.mem:
                    s.mem[("tab", v[1])] = ("Tab", v[1], ())
                return [("ret", ok(("Guard", v[1], n)), s)]
            return [("unk", "lock of something else", st)]
        if ("Mutex" in p or "RwLock" in p) and l in ("try_lock", "try_write", "try_read", "get_mut", "into_inner"):
            return [("unk", "lock operation " + l, st)]
        if re.search(r"DefaultHasher(::new$| as std::default::Default>::default$)", p):
            return [("ret", ("Hasher", len(st.notes)), st)]
        if (l == "finish" and "Hasher" in p or l == "hash_one") and args:
            v = I.deref(args[0], st)
            if l == "hash_one":
                return [("ret", ("Sym", ("digest", I.canon(args[1], st)), dty), st)]
            if v[0] == "Hasher":
                return [("ret", ("Sym", ("digest", tuple(x for x in st.notes[v[1]:] if x[0] == "hash")), dty), st)]
        if l in ("or_insert", "or_insert_with", "or_insert_with_key", "or_default") and args:
            v = I.deref(args[0], st)
            if v[0] == "Ent":
                return self.or_insert(I, l, v, args, st, dty)
        if l in ("find", "position", "any") and len(args) == 2:
            v = I.deref(args[0], st)
            if v[0] == "TabIt":
                return self.find(I, l, v, args, st)
        if l in ("ptr_eq", "addr_eq") or p in ("std::ptr::eq", "core::ptr::eq"):
            a, b = I.deref(args[0], st), I.deref(args[1], st)
            if a[0] == "S" and b[0] == "S":
                if a[1] != b[1]:
                    return [("ret", ("K", 0), st)]
                if "Arc" in p:
                    return [("ret", ("K", 1), st)]  # one allocation per text
                s = st.copy()
                return [("ret", ("K", 0), s), ("ret", ("K", 1), st)]
            return None
        if l in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "as_slice", "as_mut_slice", "as_mut_vec") and args:
            v = I.deref(args[0], st)
            if v[0] == "Guard":
                return [("ret", ("R", ("tab", v[1]), ()), st)]
            if v[0] == "Tab":
                return [("ret", ("R", ("tab", v[1]), ()), st)]
        if l == "drop" and p in ("std::mem::drop", "core::mem::drop") and args:
            return [("ret", UNIT, self.unlock(I, args[0], st))]
        if args and not (fn.get("local") and fn.get("inst") is not None):
            v = I.deref(args[0], st)
            if v[0] == "Tab":
                return self.table_op(I, l, p, v, args, st, dty)
        return None

    def default(self, I, fn, fv, args, st, dty):
        old, I.cut = I.cut, None
        try:
            return I.call(fv, args, st, dty=dty) if fv is not None else None
        finally:
            I.cut = old

    def held(self, st):
        n = 0
        for x in st.notes:
            if x[0] == "lock":
                n += 1
            elif x[0] == "unlock":
                n -= 1
        return n

    def known(self, term, st):
        """a position a lookup gave lies within the table: at an entry (hit) or up to its end (miss)"""
        if term[0] not in ("lt", "eq") or len(term) != 3:
            return None
        a, b = (x[1] if isinstance(x, tuple) and x[:1] == ("Sym",) else x for x in term[1:])
        if not all(isinstance(x, tuple) and x and x[0] in ("pos", "tablen") for x in (a, b)) or a[0] == b[0]:
            return None
        pos, ln = (a, b) if a[0] == "pos" else (b, a)
        if self.section_of(("Sym", pos), st) != ln[2]:
            return None
        below = pos[2] == "hit" or ln[1] > 0  # strictly inside
        if term[0] == "lt":
            if a is ln:
                return 0
            if below:
                return 1
            return self.at_end(pos, ln, st, "eq")
        return 0 if below else self.at_end(pos, ln, st, "lt")

    def at_end(self, pos, ln, st, h):
        """the negation of what is known of the other relation of a position and the length"""
        for k, x in st.facts.items():
            if isinstance(k, tuple) and len(k) == 3 and k[0] == h and x in (0, 1):
                y = tuple(z[1] if isinstance(z, tuple) and z[:1] == ("Sym",) else z for z in k[1:])
                if (y == (pos, ln)) or (h == "eq" and y == (ln, pos)):
                    return 1 - x
        return None

    def section_of(self, pos, st):
        """number of the critical section a position was looked up in"""
        n = 0
        for x in st.notes:
            if x[0] == "lock":
                n += 1
            elif x[0] == "search" and x[1] == pos[1][1]:
                return n
        return None

    def unlock(self, I, v, st):
        gs = set()

        def walk(x):
            if isinstance(x, tuple):
                if x and x[0] == "Guard":
                    gs.add(x)
                for y in x:
                    walk(y)

        walk(v)
        for g in sorted(gs):
            if not any(x == ("unlock", g[1], g[2]) for x in st.notes):
                st.notes = st.notes + (("unlock", g[1], g[2]),)
        return st

    def on_call(self, kind, I, b, t, st, fid):
        if kind != "drop":
            return
        try:
            pl = t[1]
            cell, path = (fid, pl[0]), ()
            if len(pl) > 1:
                cell, path = I.place(fid, st, pl)
            v = I.load(st, cell, path) if cell in st.mem else None
        except Exception:
            return
        if v is not None:
            self.unlock(I, v, st)

    def entry_ty(self, I, v):
        for s in self.F.statics:
            pass
        return self.ety

    # ------------------------------------------------------------ tables kept by key
    def key_of(self, v, I, st):
        """what a key is compared by: its text or number"""
        v = I.canon(I.freeze(v, st), st)
        while v[0] in ("Arc", "Box", "Nm") and len(v) == 2 and isinstance(v[1], tuple):
            v = v[1]
        return v

    def lookup(self, I, q, st, ins):
        """look a key up: [(entry value or None, state)]"""
        for x in ins:
            if x[0][0] == "pos" and x[0][3:] and x[0][3] == q:
                return [(x[1], st)]
        if ins:
            return None
        for x in reversed(st.notes):
            if x[0] in ("lock", "unlock"):
                break
            if x[0] == "search" and x[4:] and x[4] == q:  # looked up before, nothing happened since
                return [((self.entry or ("Sym", ("entry", x[1]), self.vty)) if x[2] == "hit" else None, st)]
        n = sum(1 for x in st.notes if x[0] == "search")
        ent = self.entry or ("Sym", ("entry", n), self.vty)
        if q[0] == "S" and ent[0] == "S":
            o = (q[1] > ent[1]) - (q[1] < ent[1]) + 1
            how = (("A", absstd.ORD, o, ()),)
            hs = ("hit",) if o == 1 else ("miss",)
        else:
            how = (("Sym", ("cmp", q, I.canon(ent, st))),)
            hs = ("hit", "miss")
        out = []
        for h in hs:
            s = st.copy()
            s.notes = st.notes + (("search", n, h, how, q),)
            out.append((ent if h == "hit" else None, s))
        return out

    def stored(self, I, name, q, x, st):
        """state after inserting x under the key q, missing so far"""
        n = [y[1] for y in st.notes if y[0] == "search" and y[4:] and y[4] == q and y[2] == "miss"][-1]
        pos = ("pos", n, "miss")
        s = st.copy()
        s.notes = s.notes + (("insert", pos, I.canon(x, s), q),)
        s.mem[("tab", name)] = ("Tab", name, st.mem[("tab", name)][2] + ((pos + (q,), x),))
        return s

    def keyed_op(self, I, l, p, v, args, st, dty):
        name, ins = v[1], v[2]
        is_map = "Map" in p
        self.keyed = True
        q = self.key_of(args[1], I, st) if len(args) > 1 else None
        if l in ("get", "get_mut", "contains", "contains_key", "index", "get_key_value") and len(args) == 2:
            r = self.lookup(I, q, st, ins)
            if r is None or l == "get_key_value":
                return [("unk", "table element", st)]
            out = []
            for e, s in r:
                if l.startswith("contains"):
                    out.append(("ret", ("K", int(e is not None)), s))
                elif l == "index":
                    out.append(("ret", ("R", ("val", e), ()), s) if e is not None else ("panic", "index", s))
                else:
                    out.append(("ret", some(("R", ("val", e), ())) if e is not None else absstd.NONE, s))
            return out
        if l == "insert" and len(args) == (3 if is_map else 2):
            r = self.lookup(I, q, st, ins)
            if r is None:
                return [("unk", "insertion into a table", st)]
            out = []
            for e, s in r:
                x = I.freeze(args[-1], s)
                if e is None:
                    s2 = self.stored(I, name, q, x, s)
                    out.append(("ret", absstd.NONE if is_map else ("K", 1), s2))
                elif is_map:
                    return [("unk", "replacement in a table", st)]
                else:
                    out.append(("ret", ("K", 0), s))
            return out
        if l == "entry" and is_map and len(args) == 2:
            return [("ret", ("Ent", name, q, args[1]), st)]
        if l == "len":
            return [("ret", ("Sym", ("tablen", len(ins), sum(1 for x in st.notes if x[0] == "lock")), self.usize(I)), st)]
        return [("unk", "table operation " + p, st)]

    def or_insert(self, I, l, v, args, st, dty):
        name, q = v[1], v[2]
        r = self.lookup(I, q, st, st.mem[("tab", name)][2])
        if r is None or l == "or_default":
            return [("unk", "table entry", st)]
        out = []
        for e, s in r:
            if e is not None:
                out.append(("ret", ("R", ("val", e), ()), s))
                continue
            if l == "or_insert":
                xs = [("ret", args[1], s)]
            else:
                xs = I.call(args[1], [v[3]] if l.endswith("key") else [], s)
            for k, x, s1 in xs:
                if k != "ret":
                    out.append((k, x, s1))
                    continue
                x = I.freeze(x, s1)
                out.append(("ret", ("R", ("val", x), ()), self.stored(I, name, q, x, s1)))
        return out

    def find(self, I, l, v, args, st):
        """a search through all entries: one for which the predicate holds, or none"""
        name, ins = v[1], v[2]
        if ins:
            return [("unk", "search after an insertion", st)]
        n = sum(1 for x in st.notes if x[0] == "search")
        ent = self.entry or ("Sym", ("entry", n), self.ety)
        ref = ("R", ("val", ent), ())
        out = []
        for k, r, s in I.call(args[1], [("R", ("val", ref), ()) if l == "find" else ref], st.copy()):
            if k != "ret":
                out.append((k, r, s))
                continue
            r = I.deref(r, s)
            for val in (1, 0):
                s1 = s.copy()
                if r[0] == "K":
                    if r[1] != val:
                        continue
                elif r[0] == "Sym":
                    if val and not I.assume_bool(s1, r[1], 1):
                        continue
                else:
                    return [("unk", "predicate of a search", st)]
                if not val:
                    if not self.entry and any(o[0] == "ret" and o[3:] == ("none",) for o in out):
                        continue
                    s1 = st.copy()
                h = "hit" if val else "miss"
                how = I.canon(r, s) if r[0] == "Sym" else ("A", absstd.ORD, 1 if val else 0, ())
                if how[0] == "Sym" and how[1][0] == "streq":
                    how = ("Sym", ("cmp", how[1][1], how[1][2]))
                s1.notes = s1.notes + (("search", n, h, (how,), "all"),)
                pos = ("Sym", ("pos", n, "hit"), self.usize(I))
                x = ("K", val) if l == "any" else absstd.NONE if not val else some(ref if l == "find" else pos)
                out.append(("ret", x, s1) + (() if val else ("none",)))
        return [o[:3] for o in out]

    def table_op(self, I, l, p, v, args, st, dty):
        name, ins = v[1], v[2]
        if re.search(r"(Hash|BTree|Index)(Map|Set)\b", p):
            return self.keyed_op(I, l, p, v, args, st, dty)
        if l == "iter":
            return [("ret", ("TabIt", name, ins), st)]
        if l == "binary_search_by_key" and len(args) == 3 and not ins:
            n = sum(1 for x in st.notes if x[0] == "search")
            ent = self.entry or ("Sym", ("entry", n), self.ety)
            outs = []
            for k, r, s in I.call(args[2], [("R", ("val", ent), ())], st.copy()):
                if k != "ret":
                    return [(k, r, s)]
                a, b = self.key_of(r, I, s), self.key_of(args[1], I, s)
                if a[0] == "S" and b[0] == "S":
                    how = (("A", absstd.ORD, (a[1] > b[1]) - (a[1] < b[1]) + 1, ()),)
                else:
                    how = (("Sym", ("cmp", a, b)),)
                for h, w in ((0, "hit"), (1, "miss")):
                    s1 = s.copy()
                    s1.notes = s1.notes + (("search", n, w, how),)
                    outs.append(("ret", ("A", absstd.RES, h, (("Sym", ("pos", n, w), self.usize(I)),)), s1))
            return outs
        if l in ("binary_search_by", "binary_search"):
            self.sorted = True
            if ins:
                return [("unk", "search after an insertion", st)]
            n = sum(1 for x in st.notes if x[0] == "search")
            ent = self.entry or ("Sym", ("entry", n), self.ety)
            outs = []
            if l == "binary_search":
                cmpv = [("ret", self.cmp(I, ("R", ("val", ent), ()), args[1], st), st)]
            else:
                cmpv = I.call(args[1], [("R", ("val", ent), ())], st.copy())
            hows = set()
            for k, r, s in cmpv:
                if k != "ret":
                    return [(k, r, s)]
                r = I.canon(r, s)
                hows.add(r)
                extra = tuple(x for x in s.notes[len(st.notes):] if x[0] in ("caller", "lock", "unlock"))
                if extra and not any(x in st.notes for x in extra):
                    st = st.copy()
                    st.notes = st.notes + extra
            how = tuple(sorted(hows, key=repr))
            self.searches[n] = (args[1] if l != "binary_search" else None, how, st.copy())
            s1, s2 = st.copy(), st.copy()
            s1.notes = st.notes + (("search", n, "hit", how),)
            s2.notes = st.notes + (("search", n, "miss", how),)
            pos = self.usize(I)
            return [("ret", ok(("Sym", ("pos", n, "hit"), pos)), s1), ("ret", ("A", absstd.RES, 1, (("Sym", ("pos", n, "miss"), pos),)), s2)]
        if l == "insert" and len(args) == 3:
            i = I.deref(args[1], st)
            x = I.freeze(args[2], st)
            s = st.copy()
            if i[0] == "Sym" and i[1][0] == "pos" and not ins:
                s.notes = s.notes + (("insert", i[1], I.canon(x, s)),)
                s.mem[("tab", name)] = ("Tab", name, ((i[1], x),))
                return [("ret", UNIT, s)]
            s.notes = s.notes + (("insert", ("elsewhere", I.canon(i, st)), I.canon(x, s)),)
            s.mem[("tab", name)] = ("Tab", name, ins + ((("elsewhere",), x),))
            return [("ret", UNIT, s)]
        if l == "push" and len(args) == 2:
            s = st.copy()
            sr = [x for x in st.notes if x[0] == "search" and x[2] == "miss"]
            if sr and not ins:
                p0 = ("pos", sr[-1][1], "miss")
                ln = ("tablen", 0, sum(1 for x in st.notes if x[0] == "lock"))
                if self.section_of(("Sym", p0), st) == ln[2] and 0 in (self.at_end(p0, ln, st, "eq"), 1 if self.at_end(p0, ln, st, "lt") is None else 1 - self.at_end(p0, ln, st, "lt")):
                    x = I.freeze(args[1], st)
                    s.notes = s.notes + (("insert", p0, I.canon(x, s)),)
                    s.mem[("tab", name)] = ("Tab", name, ((p0, x),))
                    return [("ret", UNIT, s)]
            s.notes = s.notes + (("insert", ("end",), I.canon(I.freeze(args[1], st), s)),)
            s.mem[("tab", name)] = ("Tab", name, ins + ((("end",), I.freeze(args[1], st)),))
            return [("ret", UNIT, s)]
        if l in ("index", "get", "get_unchecked") and len(args) == 2:
            i = I.deref(args[1], st)
            r = None
            if i[0] == "Sym" and i[1][0] == "pos":
                if i[1][2] == "hit" and not ins:
                    r = self.entry or ("Sym", ("entry", i[1][1]), self.ety)
                elif len(ins) == 1 and ins[0][0] == i[1]:
                    r = ins[0][1]
            if r is None and l == "index" and not ins:
                r = self.other_entry(("Sym", ("entry", ("at", I.canon(i, st))), self.ety))
            if r is None:
                return [("unk", "table element", st)]
            ref = ("R", ("val", r), ())
            return [("ret", some(ref) if l == "get" else ref, st)]
        if l == "len":
            return [("ret", ("Sym", ("tablen", len(ins), sum(1 for x in st.notes if x[0] == "lock")), self.usize(I)), st)]
        if l == "reserve":
            return [("ret", UNIT, st)]
        if l in ("is_empty", "iter", "capacity"):
            return [("unk", "table " + l, st)]
        return [("unk", "table operation " + p, st)]

    def other_entry(self, sym):
        return self.entry or sym

    def usize(self, I):
        for i, t in enumerate(self.F.tys):
            if t["k"] == "uint" and t["s"] == "usize":
                return i
        return None

    def cmp(self, I, a, b, st):
        return ("Sym", ("cmp", I.canon(I.deref(a, st), st), I.canon(I.deref(b, st), st)), None)

    # ------------------------------------------------------------ running
    @property
    def tables(self):
        """statics (and lazy statics) that guard a table of texts"""
        return {s["path"] for s in self.F.items if s["kind"] == "Static"}

    @property
    def ety(self):
        """type of a table entry"""
        if not hasattr(self, "_ety"):
            self._ety = None
            for i, t in enumerate(self.F.tys):
                if t["k"] == "adt" and t["def"].endswith(("::Mutex", "::RwLock")):
                    e = self.F.tys[t["args"][0]]
                    if e["k"] == "adt" and e.get("args"):
                        self._ety = e["args"][0]
        return self._ety

    @property
    def vty(self):
        """type of what a lookup by key gives"""
        if not hasattr(self, "_vty"):
            self._vty = self.ety
            for t in self.F.tys:
                if t["k"] == "adt" and t["def"].endswith(("::Mutex", "::RwLock")):
                    e = self.F.tys[t["args"][0]]
                    if e["k"] == "adt" and e["def"].endswith("Map"):
                        self._vty = e["args"][1]
        return self._vty

    def number_keys(self):
        """the table is a map from numbers"""
        t = self.F.tys[self.ety] if self.ety is not None else {}
        return self.vty != self.ety and t.get("k") in ("uint", "int")

    def run(self, f, args):
        """-> [(kind, value, state)] of a function on given argument values"""
        A = self.A
        A.names_opaque, A.extra_cut = False, self.cut
        try:
            I = A.interp()
            I.on_call = self.on_call
            I.known = self.known
            self.I = I
            st = ai.St()
            try:
                return I.exec(f["inst"], args, st), I
            except ai.Budget as e:
                raise NoSummary("not bounded: %s" % e)
            except (ai.Unknown, RecursionError, KeyError, IndexError, TypeError) as e:
                raise NoSummary(repr(e))
        finally:
            A.names_opaque, A.extra_cut = True, None

    def again(self, f, args, st):
        """run in an existing state (facts kept)"""
        A = self.A
        A.names_opaque, A.extra_cut = False, self.cut
        try:
            return self.I.exec(f["inst"], args, st.copy())
        except (ai.Unknown, ai.Budget, RecursionError, KeyError, IndexError, TypeError) as e:
            raise NoSummary(repr(e))
        finally:
            A.names_opaque, A.extra_cut = True, None

    # ------------------------------------------------------------ functions of names
    def fn(self, pat):
        for f in self.F.fns:
            if f.get("inst") is not None and re.search(pat, f["path"]):
                return f
        return None

    def fns(self, pat):
        return [f for f in self.F.fns if f.get("inst") is not None and re.search(pat, f["path"])]

    def ctors(self):
        """public ways to make a name from one text"""
        out = []
        for f in self.F.fns:
            o = self.F.tys[f["output"]]
            if f.get("inst") is None or not (o["k"] == "adt" and o["def"] == NAME) or len(f["inputs"]) != 1 or f["has_self"]:
                continue
            if "parsers::" in f["path"] or not (f["exported"] or f.get("trait")):
                continue
            i = self.F.tys[self.F.peel(f["inputs"][0])]
            if i["k"] in ("str", "param") or i.get("def") in ("std::string::String", "std::borrow::Cow"):
                out.append(f)
        return out

    def text_of(self, v, st):
        """text a name value reports, in a state: canonical text values of all paths"""
        f = self.fn(r"^<crate::types::name::Name as std::ops::Deref>::deref$")
        out = set()
        for k, r, s in self.again(f, [("R", ("val", v), ())], st):
            if k != "ret":
                raise NoSummary("deref: %s" % (r,))
            out.add(self.I.canon(r, s))
        return out


def cmp_texts(how):
    """the two texts a three-way comparison is about, when it is exactly that"""
    if how[0] == "Sym" and how[1][0] == "cmp":
        return how[1][1], how[1][2]
    if how[0] == "Sym" and how[1][0] == "rev" and how[1][1][0] == "cmp":
        return how[1][1][1], how[1][1][2]
    return None
