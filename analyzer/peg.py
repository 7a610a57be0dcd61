"""Deterministic reading of extracted or reference productions on a concrete text.

This does not run any code of the analysed crate: a production is a chain of symbolic matching steps that the
abstract interpretation found, and the text is a candidate counterexample to the equality of two sets of chains.
"""
import math, re
import absnom
import fl
import absstd
import absstd2
import ai
from lex import in_class, NUMRE, FLOATFAIL, std_parses, Opaque

NUMC = {k: re.compile(v) for k, v in NUMRE.items()}
FAILC = re.compile(FLOATFAIL)


LAYOUT = re.compile(r"(?:[ \t\r\n]|;[^\r\n]*)*")


FLOATOPS = ("Add", "Sub", "Mul", "Div", "Rem", "Neg", "cast", "app")
FLOATFNS = ("round", "floor", "ceil", "trunc", "abs", "max", "min", "clamp", "copysign", "signum")


def f32(x):
    return fl.py(fl.mk(32, x))


WORDCH = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.")


def layout_run(s, i):
    return LAYOUT.match(s, i).end()


def untyped(x):
    """canonical values carry no types: give symbols the shape of values"""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "Sym":
            return ("Sym", x[1], None)
        return tuple(untyped(y) for y in x)
    return x


class Env:
    __slots__ = ("d", "pos", "up", "elt")

    def __init__(self, up=None):
        self.d, self.pos, self.up, self.elt = {}, {}, up, {}

    def get(self, k):
        e = self
        while e is not None:
            if k in e.d:
                return e.d[k]
            e = e.up
        raise Opaque("event %s" % (k,))

    def at(self, p):
        e = self
        while e is not None:
            if p in e.pos:
                return e.pos[p]
            e = e.up
        raise Opaque("position %s" % (p,))

    def element(self, key):
        e = self
        while e is not None:
            if key in e.elt:
                return e.elt[key]
            e = e.up
        raise Opaque("element of %s" % (key,))


class Model:
    """prods: key -> [(chain, view or None, facts)]"""

    def __init__(self, views, prods, ref=None, layout=None, noneg=False):
        self.V, self.prods = views, prods
        self.ref = ref or self
        self.layout = layout  # productions of ignore_eol_comment-like helpers
        self.memo = {}
        self.noneg = noneg
        self.lenient = False  # layout between tokens that cannot run together may be missing
        self.tries = {}
        self.nmvar, self.nm_touched = 0, False
        self.starts = ()  # positions that stand for the place where an element begins
        self.lead = None  # key -> does the code's own parser of that element skip layout in front

    # ---------------------------------------------------------------- parse
    def parse(self, key, s, i=0, which=None):
        """-> (end, value) or None"""
        mk = (key, s, i)
        if which is None and mk in self.memo:
            return self.memo[mk]
        r = None
        if which is None and len(self.prods[key]) > 6:
            hit = self.walk(self.trie(key), s, i, self.env(i), key)
            if hit is not None:
                n, e, env = hit
                view = self.prods[key][n][1]
                r = (e, self.conc(view, env, s) if view is not None else None, n)
        else:
            for n, (chain, view, facts) in enumerate(self.prods[key]):
                if which is not None and n not in which:
                    continue
                env = self.env(i)
                e = self.match(chain, s, i, env)
                if e is None:
                    continue
                if not self.holds(facts.items(), env, s):
                    continue
                r = (e, self.conc(view, env, s) if view is not None else None, n)
                break
        if which is None:
            if len(self.memo) > 400000:
                self.memo.clear()
            self.memo[mk] = r
        return r

    def env(self, i):
        env = Env()
        for p in self.starts:
            env.pos[p] = i
        return env

    # productions that begin with the same steps share them
    def trie(self, key):
        t = self.tries.get(key)
        if t is None:
            t = self.tries[key] = ({}, [])
            for n, (chain, view, facts) in enumerate(self.prods[key]):
                node = t
                for it in chain:
                    k = (it[0], it[2], id(it[1]) if not isinstance(it[1], (str, int)) else it[1])
                    nx = node[0].get(k)
                    if nx is None:
                        nx = node[0][k] = (it, ({}, []))
                    node = nx[1]
                node[1].append(n)
        return t

    def walk(self, node, s, i, env, key):
        best = None
        for n in node[1]:
            if self.holds(self.prods[key][n][2].items(), env, s):
                best = (n, i, env)
                break
        kids = list(node[0].values())
        for it, child in kids:
            e2 = env
            if len(kids) > 1:
                e2 = Env()
                e2.d, e2.pos, e2.elt = dict(env.d), dict(env.pos), dict(env.elt)
            e = self.match((it,), s, i, e2)
            if e is None:
                continue
            r = self.walk(child, s, e, e2, key)
            if r is not None and (best is None or r[0] < best[0]):
                best = r
        return best

    def parse_all(self, key, s, i=0):
        """every production that matches, look-ahead ignored"""
        out = []
        for n, (chain, view, facts) in enumerate(self.prods[key]):
            env = self.env(i)
            ch = tuple(x for x in chain if x[0] != "neg")
            try:
                e = self.match(ch, s, i, env)
                if e is None or not self.holds(facts.items(), env, s):
                    continue
                out.append((e, self.conc(view, env, s) if view is not None else None, n))
            except Opaque:
                continue
        return out

    def alts(self, chains, s, i, env, depth):
        for c in chains:
            e = self.match(c, s, i, Env(env), depth)
            if e is not None:
                return e
        return None

    def match(self, chain, s, i, env, depth=0):
        if depth > 300:
            raise Opaque("depth")
        n = len(s)
        for k, d, ident in chain:
            i0 = i
            if k == "lit":
                t, ci = d
                seg = s[i:i + len(t)]
                if not ((seg.lower() == t.lower()) if ci else (seg == t)):
                    return None
                i += len(t)
            elif k == "cls":
                cs, lo, hi = d
                j = i
                while j < n and (hi is None or j - i < hi) and in_class(cs, s[j]):
                    j += 1
                if j - i < lo:
                    return None
                i = j
            elif k == "gap":
                e = self.alts(d, s, i, env, depth + 1)
                if e is None and self.lenient and not (0 < i < n and s[i - 1] in WORDCH and s[i] in WORDCH):
                    e = i
                if e is None:
                    return None
                i = e
            elif k == "star":
                bodies, lo, hi = d
                rounds = []
                while hi is None or len(rounds) < hi:
                    hit = None
                    for bi, b in enumerate(bodies):
                        sub = Env(env)
                        e = self.match(b[0], s, i, sub, depth + 1)
                        if e is not None:
                            hit = (bi, sub, e)
                            break
                    if hit is None or hit[2] == i:
                        break
                    rounds.append((hit[0], hit[1]))
                    i = hit[2]
                if len(rounds) < lo:
                    return None
                if ident:
                    env.d[ident] = ("rounds", rounds)
            elif k == "neg":
                if self.noneg:
                    continue
                if self.alts(d, s, i, env, depth + 1) is not None:
                    return None
                continue
            elif k == "peek":
                if self.alts(d, s, i, env, depth + 1) is None:
                    return None
                continue
            elif k == "eof":
                if i != n:
                    return None
            elif k == "num":
                m = NUMC[d].match(s, i)
                if not m or m.end() == i or d[0] in "ui" and not std_parses(d, m.group(0)):
                    return None
                i = m.end()
            elif k == "numfail":
                m = FAILC.match(s, i)
                if not m:
                    return None
                i = m.end()
            elif k == "guard":
                if not self.holds(d, env, s):
                    return None
                continue
            elif k == "open":
                if self.noneg:
                    return None
                if self.holds(d, env, s):
                    raise Opaque("a path that was not followed to its end")
                return None
            elif k == "nt":
                if d == "()":
                    e = self.layout_end(s, i, depth)
                    if e is None:
                        return None
                    i = e
                else:
                    if d not in self.ref.prods:
                        raise Opaque("element %s" % (d,))
                    if self.lead is not None and i < n and s[i] in " \t\r\n;":
                        ld = self.lead(d)
                        if ld is None:
                            raise Opaque("layout in front of %s" % (d,))
                        if ld:
                            i = layout_run(s, i)
                    r = self.ref.parse(d, s, i)
                    if r is None:
                        return None
                    i = r[0]
                    if ident:
                        env.d[ident] = r[1]
            else:
                raise Opaque(k)
            if ident and ident in absnom.EVPOS:
                p, q = absnom.EVPOS[ident]
                env.pos[p] = i0
                if q is not None:
                    env.pos[q] = i
        return i

    def layout_end(self, s, i, depth):
        if self.layout is None:
            raise Opaque("layout helper")
        for c in self.layout:
            e = self.match(c, s, i, Env(), depth + 1)
            if e is not None:
                return e
        return None

    # ---------------------------------------------------------------- values
    def holds(self, facts, env, s):
        for k, x in facts:
            if k[0] == "same":
                continue
            if k[0] == "ne":
                v = self.ival(k[1], env, s)
                if v in x:
                    return False
                continue
            if k[0] == "lenlo":
                if self.len_of(k[1], env, s) < x:
                    return False
                continue
            if k[0] == "lenhi":
                if self.len_of(k[1], env, s) > x:
                    return False
                continue
            if k[0] in ("ev", "fld", "part", "elt"):
                if self.ival(k, env, s) != x:
                    return False
                continue
            if int(self.ival(k, env, s)) != int(x):
                return False
        return True

    def raw_list(self, t, env, s):
        """elements of a list given by its parts, before views"""
        ps = self.V.vparts(untyped(t[1]), ai.St(), 0)
        return self.parts(ps, env, s)

    def changed_list(self, key, env, s):
        """a list after a call that changes it"""
        xs = self.raw_list(key[1], env, s)
        op = key[0]
        if op == "rev":
            return xs[::-1]
        if op == "truncate" and len(key) == 3:
            return xs[:int(self.ival(key[2], env, s))]
        if op in ("take", "skip") and len(key) == 3:
            n = int(key[2] if not isinstance(key[2], tuple) else self.ival(key[2], env, s))
            return xs[:n] if op == "take" else xs[n:]
        if op == "step_by" and len(key) == 3:
            return xs[::int(key[2] if not isinstance(key[2], tuple) else self.ival(key[2], env, s))]
        if op == "dedup":
            return [x for i, x in enumerate(xs) if i == 0 or xs[i - 1] != x]
        raise Opaque("list after " + str(op))

    def some(self, t, env, s):
        """is there an element of the list that meets one of the sets of conditions"""
        key, sets = t[1], t[2]
        if key[0] == "ev":
            r = env.get(key[1])
            if r[0] == "rounds":
                for bi, sub in r[1]:
                    for cs in sets:
                        if any(k == ("body", key) and x != bi for k, x in cs):
                            continue
                        if self.holds([(k, x) for k, x in cs if k[0] != "body"], sub, s):
                            return 1
                return 0
        lst = self.term(key, env, s)
        if lst[0] == "W" and len(lst[2]) == 1:
            lst = lst[2][0][1]
        if lst[0] != "L":
            raise Opaque("any of " + str(lst[0]))
        for x in lst[1]:
            sub = Env(env)
            sub.elt[key] = x
            if any(self.holds(cs, sub, s) for cs in sets):
                return 1
        return 0

    def order(self, t, env, s):
        """-1, 0, 1 or None"""
        a, b = self.term_or_num(t[1], env, s), self.term_or_num(t[2], env, s)
        if a != a or b != b:
            return None
        return (a > b) - (a < b)

    def term_or_num(self, t, env, s):
        if t[0] == "K" or t[0] == "F":
            return t[1]
        if t[0] == "S":
            return t[1].encode()
        v = self.term(t, env, s)
        if v[0] == "num":
            return float(v[1])
        if v[0] in ("S", "Nm"):
            return v[1].encode()
        if v[0] == "W" and len(v[2]) == 1:
            v = v[2][0][1]
            if v[0] in ("S", "Nm"):
                return v[1].encode()
            if v[0] == "num":
                return float(v[1])
        if v[0] == "V" and not v[2]:
            return self.variant(v)
        raise Opaque("order of " + str(v[0]))

    def len_of(self, t, env, s):
        if t[0] == "L":
            return len(self.raw_list(t, env, s))
        if t[0] in ("S", "Span", "Txt"):
            return len(self.text(t, env, s).encode())
        if t[0] == "num":
            raise Opaque("length")
        if t[0] == "ev":
            r = env.get(t[1])
            if r[0] == "rounds":
                return len(r[1])
        v = self.term(t, env, s)
        if v[0] in ("S", "Nm"):
            return len(v[1].encode())
        if v[0] == "W" and len(v[2]) == 1:
            v = v[2][0][1]
        if v[0] == "L":
            return len(v[1])
        raise Opaque("length")

    def ival(self, t, env, s):
        """number, truth value or variant index of a term"""
        k = t[0]
        if k == "app" and t[1].rsplit("::", 1)[-1] not in FLOATFNS or k == "fld" and self.is_std(t):
            v = self.std(t, env, s)
            if v[0] == "K":
                return v[1]
            if v[0] == "A":
                return v[2]
            raise Opaque("call")
        if k == "K" or k == "F":
            return t[1]
        if k in ("finite", "is_finite") and t[1][0] in FLOATOPS:
            return int(math.isfinite(fl.py(self.flo(t[1], env, s))))
        if k in ("is_nan", "is_infinite", "is_sign_negative", "is_sign_positive", "is_normal", "is_subnormal"):
            return fl.call(k, [self.flo(t[1], env, s)])[1]
        if k in ("feq", "flt", "fle"):
            a, b = self.flo(t[1], env, s), self.flo(t[2], env, s)
            if a[0] != "Fl" and b[0] != "Fl":
                raise Opaque("width of a number")
            return fl.binop({"feq": "Eq", "flt": "Lt", "fle": "Le"}[k], a, b)[1]
        if k in ("finite", "is_finite"):
            return int(self.finite(self.term(t[1], env, s), t[1]))
        if k == "parses":
            return int(std_parses(t[1], self.text(t[2], env, s)))
        if k == "nomnum":
            return int(NUMC[t[1]].match(self.text(t[2], env, s)) is not None)
        if k == "nomexp":
            return int(FAILC.match(self.text(t[2], env, s)) is not None)
        if k == "streq":
            return int(self.text(t[1], env, s) == self.text(t[2], env, s))
        if k == "lenge":
            return int(self.len_of(t[1], env, s) >= t[2])
        if k == "leneq":
            return int(self.len_of(t[1], env, s) == t[2])
        if k == "len":
            return self.len_of(t[1], env, s)
        if k == "not":
            return 1 - int(self.ival(t[1], env, s))
        if k == "and":
            return int(all(self.ival(x, env, s) for x in t[1:]))
        if k == "or":
            return int(any(self.ival(x, env, s) for x in t[1:]))
        if k == "eq" and all(x[0] in ("ev", "fld", "part", "elt", "Sym") for x in t[1:]):
            a, b = self.term(t[1], env, s), self.term(t[2], env, s)
            if a[0] == b[0] == "num":
                return int(float(a[1]) == float(b[1]))
            return int(a == b)
        if k == "eq" and any(x[0] == "A" for x in t[1:]):
            return self.same(t[1], t[2], env, s)
        if k == "eq":
            return int(self.ival(t[1], env, s) == self.ival(t[2], env, s))
        if k == "lt":
            return int(self.ival(t[1], env, s) < self.ival(t[2], env, s))
        if k == "fle":
            return int(self.ival(t[1], env, s) <= self.ival(t[2], env, s))
        if k == "Sym":
            return self.ival(t[1], env, s)
        if k == "chars-in":
            x = self.text(t[3], env, s)
            if t[1] == "bytes" and not x.isascii():
                raise Opaque("bytes of a text that is not ASCII")
            return int(all(in_class(t[2], c) for c in x))
        if k == "any":
            return self.some(t, env, s)
        if k == "fpcmp":
            return int(self.order(t, env, s) is not None)
        if k == "discr" and t[1][0] in ("cmp", "fld") and (t[1][0] == "cmp" or t[1][1][0] in ("fpcmp", "cmp")):
            r = self.order(t[1] if t[1][0] == "cmp" else t[1][1], env, s)
            if r is None:
                raise Opaque("no order")
            return r
        if k == "cmp":
            return self.order(t, env, s) + 1
        if k == "fld" and t[1][0] in ("fpcmp", "cmp"):
            r = self.order(t[1], env, s)
            if r is None:
                raise Opaque("no order")
            return r + 1
        if k == "discr":
            return self.variant(self.term(t[1], env, s))
        if k in ("Add", "Sub", "Mul") and len(t) == 3:
            a, b = self.ival(t[1], env, s), self.ival(t[2], env, s)
            return a + b if k == "Add" else a - b if k == "Sub" else a * b
        if k == "ovf":
            a, b = self.ival(t[2], env, s), self.ival(t[3], env, s)
            if isinstance(a, float) or isinstance(b, float):
                raise Opaque("float overflow")
            r = a + b if t[1] == "Add" else a - b if t[1] == "Sub" else a * b
            w = self.width(t)
            return int(r < 0 or r >= 1 << w)
        if k == "oob":
            # a part of a text cut out by constant bounds
            x = self.text(t[1], env, s).encode()
            vals = [self.ival(y, env, s) for y in t[3]]
            lo, hi = 0, len(x)
            if t[2] == "Range":
                lo, hi = vals
            elif t[2] == "RangeFrom":
                lo = vals[0]
            elif t[2] == "RangeTo":
                hi = vals[0]
            else:
                raise Opaque("range")
            if not 0 <= lo <= hi <= len(x):
                return 1
            return int(any(0 < y < len(x) and x[y] & 0xC0 == 0x80 for y in (lo, hi)))
        if k in ("ev", "fld", "part", "elt", "num"):
            v = self.term(t, env, s)
            if v[0] == "num":
                if isinstance(v[1], str):
                    return int(v[1]) if t[0] == "num" and t[1][:1] in "ui" else float(v[1])
                return v[1]
            return self.variant(v)
        raise Opaque("fact %s" % (k,))

    def same(self, a, b, env, s):
        """equality of constructed values"""
        if a[0] == b[0] == "A":
            if a[1] != b[1]:
                raise Opaque("types compared")
            return int(a[2] == b[2] and all(self.ival(("eq", x[1] if x[0] == "Sym" else x, y[1] if y[0] == "Sym" else y), env, s) for x, y in zip(a[3], b[3])))
        if a[0] != "A":
            a, b = b, a
        if self.is_std(b):
            x = self.std(b, env, s)
            if x[0] != "A":
                raise Opaque("value of a call")
            return int(x[2] == a[2] and all(self.plain(y, env, s) == z for y, z in zip(a[3], x[3])))
        v = self.term(b, env, s)
        if self.variant(v) != a[2]:
            return 0
        if a[3]:
            raise Opaque("parts compared")
        return 1

    def flo(self, t, env, s):
        """value of a floating-point expression"""
        k = t[0]
        if k == "Sym":
            return self.flo(t[1], env, s)
        if k in ("F", "Fl"):
            return t
        if k == "num" and t[1] in ("f32", "f64"):
            v = self.term(t, env, s)
            return fl.mk(int(t[1][1:]), float(v[1]))
        if k in ("Add", "Sub", "Mul", "Div", "Rem") and len(t) == 3:
            a, b = self.flo(t[1], env, s), self.flo(t[2], env, s)
            if a[0] != "Fl" and b[0] != "Fl":
                raise Opaque("width of a number")
            return fl.binop(k, a, b)
        if k == "Neg":
            a = self.flo(t[1], env, s)
            if a[0] == "Fl":
                return ("Fl", a[1], a[2] ^ (1 << (a[1] - 1)))
        if k == "app":
            a = [self.flo(x, env, s) for x in t[2]]
            if a and a[0][0] == "Fl":
                r = fl.call(t[1].rsplit("::", 1)[-1], [x if x[0] == "Fl" else ("Fl", a[0][1], x[1]) for x in a])
                if r is not None and r[0] == "Fl":
                    return r
        if k == "cast" and t[2] in ("f32", "f64"):
            a = self.flo(t[1], env, s)
            if a[0] == "Fl":
                return fl.convert(a, int(t[2][1:]))
        if k in ("ev", "fld", "part", "elt"):
            v = self.term(t, env, s)
            if v[0] == "num":
                return fl.mk(32, float(v[1]))
        raise Opaque("number " + str(k))

    def width(self, t):
        if isinstance(t, tuple):
            if t[:1] == ("num",) and isinstance(t[1], str) and t[1][:1] in "ui":
                w = t[1][1:]
                return (64 if w == "size" else int(w)) - (1 if t[1][0] == "i" else 0)
            for x in t:
                w = self.width(x)
                if w:
                    return w
        return 64 if t and t[0] == "ovf" else 0

    def text(self, t, env, s):
        if isinstance(t, str):
            return t
        if t[0] == "S":
            return t[1]
        if t[0] in ("Span", "Txt"):
            return s[env.at(t[1]):len(s) if t[2] is None else env.at(t[2])]
        if t[0] == "Sym":
            return self.text(t[1], env, s)
        if t[0] == "K" and isinstance(t[1], int) and 0 < t[1] < 0x110000:
            return chr(t[1])
        if self.is_std(t):
            v = self.std(t, env, s)
            if v[0] == "S":
                return v[1]
            if v[0] == "K" and 0 <= v[1] < 0x110000:
                return chr(v[1])
        v = self.term(t, env, s)
        if v[0] in ("S", "Nm"):
            return v[1]
        raise Opaque("text")

    def plain(self, t, env, s):
        """a number or a text as the models of std write it"""
        if t[0] == "K":
            return t
        if t[0] == "A":
            return t[:3] + (tuple(self.plain(x, env, s) for x in t[3]),)
        return ("S", self.text(t, env, s))

    def closure(self, t):
        """the function value of a closure without captures"""
        if t[0] == "Clo":
            insts = [k for k, b in enumerate(self.V.I.F.bodies) if b and b.get("path") == t[1]]
            if not insts:
                raise Opaque("closure")
            return ("Clo", insts[0], t[1], ())
        raise Opaque("function value")

    def is_std(self, t):
        while t[0] == "fld":
            t = t[1]
        return t[0] == "app"

    def std(self, t, env, s):
        """value of a call of std (or of LocatedSpan) on texts that are known, or of a part of such a value"""
        if t[0] == "fld":
            v = self.std(t[1], env, s)
            if v[0] == "A" and v[2] == t[2] and t[3] < len(v[3]):
                return v[3][t[3]]
            if v[0] == "T" and t[3] < len(v[1]):
                return v[1][t[3]]
            raise Opaque("part of a value")
        name = t[1].rsplit("::", 1)[-1]
        if "LocatedSpan" in t[1]:
            a = t[2][0]
            if a[0] != "Span":
                raise Opaque("place of a text")
            p = env.at(a[1])
            if name == "location_offset":
                return ("K", len(s[:p].encode()))
            if name == "location_line":
                return ("K", 1 + s.count("\n", 0, p))
            line = s[s.rfind("\n", 0, p) + 1:p]
            if name in ("get_column", "naive_get_utf8_column", "get_utf8_column"):
                return ("K", 1 + (len(line.encode()) if name == "get_column" else len(line)))
            raise Opaque("call " + t[1])
        if "::" in t[1] and not t[1].lstrip("<").startswith(("std::", "core::", "alloc::")):
            raise Opaque("call " + t[1])
        x = self.text(t[2][0], env, s)
        if name in absstd.CHARP and len(x) == 1 and len(t[2]) == 1 and self.is_char(t[2][0]):
            return ("K", int(bool(absstd.CHARP[name](x))))
        rest = []
        for y in t[2][1:]:
            if y[0] in ("K", "S"):
                rest.append(y)
            elif y[0] == "Clo" and not y[2]:
                rest.append(self.closure(y))
            elif y[0] == "L" and all(p[0] == "e" and p[1][0] == "K" for p in y[1]):
                rest.append(y)
            elif y[0] in ("Sym", "Span", "Txt") and not self.is_char(y):
                rest.append(("S", self.text(y, env, s)))
            else:
                raise Opaque("call " + t[1])
        if "Chars<" in t[1] or "Bytes<" in t[1]:
            u = [ord(c) for c in x] if "Chars<" in t[1] else list(x.encode())
            if name in ("next", "next_back", "last") and not rest:
                return absstd.some(("K", u[0 if name == "next" else -1])) if u else absstd.NONE
            if name in ("nth", "nth_back") and len(rest) == 1 and rest[0][0] == "K":
                n = rest[0][1]
                return absstd.some(("K", u[n if name == "nth" else -1 - n])) if n < len(u) else absstd.NONE
            if name == "count" and not rest:
                return ("K", len(u))
            raise Opaque("call " + t[1])
        if name == "is_empty":
            return ("K", int(not x))
        if name == "eq_ignore_ascii_case" and rest and rest[0][0] == "S" and x.isascii() and rest[0][1].isascii():
            return ("K", int(x.lower() == rest[0][1].lower()))
        if name == "is_char_boundary" and rest and rest[0][0] == "K":
            b = x.encode()
            return ("K", int(0 <= rest[0][1] <= len(b) and (rest[0][1] in (0, len(b)) or b[rest[0][1]] & 0xC0 != 0x80)))
        try:
            r = absstd2.text_fn(self.V.I, name, x, [("S", x)] + rest, ai.St())
        except Exception as e:
            raise Opaque("call %s (%s)" % (t[1], repr(e)))
        if r is None:
            raise Opaque("call " + t[1])
        return r

    def is_char(self, t):
        """does a term stand for one character"""
        while t[0] == "Sym":
            t = t[1]
        return t[0] in ("fld", "char") or t[0] == "K"

    def texts_of(self, t, env, s):
        """functions of std on text"""
        if t[0] == "slice":
            x = self.text(t[1], env, s).encode()
            vals = [self.ival(y, env, s) for y in t[3]]
            lo, hi = {"Range": lambda: vals, "RangeFrom": lambda: (vals[0], len(x)), "RangeTo": lambda: (0, vals[0])}.get(t[2], lambda: (None, None))()
            if lo is None:
                raise Opaque("range")
            return x[lo:hi].decode(errors="replace")
        if "::" in t[1] and not t[1].startswith(("std::", "core::", "alloc::")):
            raise Opaque("call " + t[1])
        name = t[1].rsplit("::", 1)[-1]
        a = [self.text(x, env, s) for x in t[2]]
        if len(a) == 1:
            f = {"to_lowercase": str.lower, "to_uppercase": str.upper, "to_ascii_lowercase": str.lower, "to_ascii_uppercase": str.upper, "trim": str.strip,
                 "trim_start": str.lstrip, "trim_end": str.rstrip, "trim_left": str.lstrip, "trim_right": str.rstrip}.get(name)
            if f and (a[0].isascii()):
                return f(a[0])
        if len(a) == 2 and a[1]:
            x, y = a
            if name in ("trim_start_matches", "trim_matches", "trim_left_matches", "trim_end_matches", "trim_right_matches"):
                if "end" not in name and "right" not in name:
                    while x.startswith(y):
                        x = x[len(y):]
                if "start" not in name and "left" not in name:
                    while x.endswith(y):
                        x = x[:-len(y)]
                return x
        if len(a) == 3 and name == "replace" and a[1]:
            return a[0].replace(a[1], a[2])
        raise Opaque("call " + t[1])

    def finite(self, v, t):
        try:
            f = float(v[1])
        except ValueError:
            return False
        lim = 3.4028235677973366e38 if t[1] == "f32" else float("inf")
        return f == f and abs(f) < lim

    def variant(self, v):
        if v[0] == "Nm":
            # how a name is stored is not part of its view: run_code tries every storage
            self.nm_touched = True
            return self.nmvar
        if v[0] == "V":
            if v[1] in ("Some", "None"):
                return 1 if v[1] == "Some" else 0
            ty, va = v[1].split("::")
            ad = self.V.enum(ty)
            for i, x in enumerate(ad["variants"]):
                if x["name"] == va:
                    return i
            raise Opaque("variant " + v[1])
        if v[0] == "W":
            return 0
        raise Opaque("variant of " + str(v[0]))

    def term(self, t, env, s):
        k = t[0]
        if k == "ev":
            v = env.get(t[1])
            if v[0] == "rounds":
                raise Opaque("rounds as value")
            return v
        if k == "part":
            v = self.term(t[1], env, s)
            if v[0] == "W":
                for a, x in v[2]:
                    if a == t[3]:
                        return x
            raise Opaque("part")
        if k == "fld":
            v = self.term(t[1], env, s)
            if v[0] == "V":
                if t[3] < len(v[2]):
                    return v[2][t[3]]
            if v[0] == "W":
                a = self.V.part_of_field(v[1], t[3])
                for b, x in v[2]:
                    if a == b:
                        return x
            if v[0] == "T":
                return v[1][t[3]]
            if v[0] == "Nm":
                return v  # the inside of a name: only its text counts
            raise Opaque("field")
        if k == "elt":
            return env.element(t[1])
        if k in absstd.CHANGED and len(t) > 1 and isinstance(t[1], tuple) and t[1][:1] == ("L",):
            return ("L", tuple(self.changed_list(t, env, s)))
        if k == "idx":
            v = self.term(t[1], env, s) if t[1][0] != "L" else ("L", tuple(self.raw_list(t[1], env, s)))
            if v[0] == "W" and len(v[2]) == 1:
                v = v[2][0][1]
            i = t[2] if isinstance(t[2], int) else int(self.ival(t[2], env, s))
            if v[0] != "L" or not 0 <= i < len(v[1]):
                raise Opaque("index")
            return v[1][i]
        if k == "num":
            if t[2][0] in ("Span", "Txt"):
                x = s[env.at(t[2][1]):env.at(t[2][2])]
                m = NUMC[t[1]].match(x) if t[1] in NUMC else None
                return ("num", m.group(0) if m else x)
            raise Opaque("num")
        if k in ("Span", "Txt"):
            return ("S", s[env.at(t[1]):env.at(t[2])])
        if k == "Sym":
            return self.term(t[1], env, s)
        if k in FLOATOPS and k != "app" or k == "app" and t[1].rsplit("::", 1)[-1] in FLOATFNS:
            return ("num", fl.py(self.flo(t, env, s)))
        if k in ("slice", "app"):
            return ("S", self.texts_of(t, env, s))
        raise Opaque("term " + str(k))

    def conc(self, v, env, s):
        k = v[0]
        if k == "Sym":
            r = self.term(v[1], env, s)
            if r[0] == "num":
                if isinstance(r[1], float):
                    return ("num", r[1])
                return ("num", f32(float(r[1])) if v[1][1] == "f32" else float(r[1]) if v[1][1] == "f64" else int(r[1]))
            return r
        if k == "V":
            return ("V", v[1], tuple(self.conc(x, env, s) for x in v[2]))
        if k == "W":
            return ("W", v[1], tuple((a, self.conc(x, env, s)) for a, x in v[2]))
        if k == "T":
            return ("T", tuple(self.conc(x, env, s) for x in v[1]))
        if k == "L":
            return ("L", tuple(self.parts(v[1], env, s)))
        if k == "Nm":
            t = self.conc(v[1], env, s)
            return ("Nm", t[1])
        if k == "Num":
            t = self.conc(v[1], env, s)
            m = NUMC["f32"].match(t[1])
            if not m:
                raise Opaque("number")
            return ("num", f32(float(m.group(0))))
        if k == "S":
            return ("S", v[1])
        if k in ("Span", "Txt"):
            return ("S", s[env.at(v[1]):env.at(v[2])])
        if k == "K":
            return v
        raise Opaque("value " + str(k))

    def parts(self, ps, env, s):
        out = []
        for p in ps:
            if p[0] == "e":
                out.append(self.conc(p[1], env, s))
                continue
            key = p[1]
            if len(key) > 1 and isinstance(key[1], tuple) and key[1][:1] == ("L",) and not p[2]:
                out.extend(self.changed_list(key, env, s))
                continue
            if key[0] == "ev":
                r = env.get(key[1])
                if r[0] == "rounds":
                    for bi, sub in r[1]:
                        out.extend(self.alt(p[2], bi, key, sub, s))
                    continue
                lst = r
            elif key[0] in absstd.CHANGED and len(key) > 1 and isinstance(key[1], tuple) and key[1][:1] == ("L",):
                lst = ("L", tuple(self.changed_list(key, env, s)))
            else:
                lst = self.term(key, env, s)
            if lst[0] == "W" and len(lst[2]) == 1:
                lst = lst[2][0][1]
            if lst[0] != "L":
                raise Opaque("splice of " + str(lst[0]))
            for x in lst[1]:
                sub = Env(env)
                sub.elt[key] = x
                out.extend(self.alt(p[2], None, key, sub, s))
        return out

    def alt(self, alts, bi, key, sub, s):
        for conds, parts in alts:
            c = []
            ok = True
            for kk, x in conds:
                if kk[0] == "body" and kk[1] == key:
                    if x != bi:
                        ok = False
                else:
                    c.append((kk, x))
            if ok and self.holds(c, sub, s):
                return self.parts(parts, sub, s)
        raise Opaque("no alternative of a repetition applies")
