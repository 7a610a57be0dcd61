"""Normal forms of productions: layout erased, events renumbered in textual order, irrelevant look-ahead dropped.

Two productions with the same normal form accept the same token sequences under the same priorities and
build the same value from them.  Sub-elements (non-terminals) are opaque: each is compared on its own."""
import absnom
from view import NoView

UNI = set(chr(i) for i in range(128))


NAMECH = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
LAYOUT = set(" \t\r\n;")


def needs(chain):
    """layout that cannot be empty"""
    for k, d, i in chain:
        if k in ("neg", "peek", "guard"):
            continue
        if k == "star":
            if d[1] > 0:
                return True
            continue
        if k == "cls":
            if d[1] > 0:
                return True
            continue
        if k == "gap":
            if all(needs(c) for c in d):
                return True
            continue
        if k == "nt" and d == "()":
            continue
        return True
    return False


def addgap(out, req):
    j = len(out) - 1
    while j >= 0 and out[j][0] in ("neg", "peek", "guard"):
        j -= 1
    if j == len(out) - 1 and out and out[-1][0] == "gap":
        out[-1] = ("gap", out[-1][1] or req, 0)
    else:
        out.append(("gap", req, 0))


class NF:
    def __init__(self, first):
        self.first = first  # nt key -> set of possible first characters (None: anything), from the reference

    # ---------------------------------------------------------------- structure
    def strip(self, chain):
        """drop layout, also inside repetitions"""
        out = []
        for k, d, i in chain:
            if k == "gap":
                addgap(out, all(needs(c) for c in d))
                continue
            if k == "star":
                bodies = []
                for b in d[0]:
                    c = self.strip(b[0])
                    if any(x[0] != "gap" for x in c):
                        bodies.append(c)
                if not bodies:
                    addgap(out, d[1] > 0)
                    continue
                cs = self.charclass(bodies)
                if cs is not None:
                    if out and d[1] == 0 and out[-1][0] == "cls" and out[-1][1][0][0] == "in" and out[-1][1][1] == 1 and set(out[-1][1][0][1]) <= set(cs):
                        out[-1] = ("cls", (out[-1][1][0], 1, 1), out[-1][2])
                    out.append(("cls", (("in", cs), d[1], d[2]), i))
                    continue
                out.append((k, (tuple(bodies), d[1], d[2]), i))
            elif k in ("neg", "peek"):
                alts = [self.strip(c) for c in d]
                out.append((k, tuple(alts), i))
            elif k == "guard":
                out.append((k, d, i))
            elif k == "nt" and d == "()":
                addgap(out, False)
            else:
                out.append((k, d, i))
        return tuple(out)

    def charclass(self, bodies):
        """a repetition of single characters (or runs of them) is a character class"""
        cs = set()
        for b in bodies:
            b = [x for x in b if x[0] != "neg"]
            if len(b) != 1:
                return None
            k, d, i = b[0]
            if k == "cls" and d[0][0] == "in" and d[1] == 1 and d[2] in (1, None):
                cs |= set(d[0][1])
            elif k == "lit" and len(d[0]) == 1 and not d[1]:
                cs.add(d[0])
            else:
                return None
        return "".join(sorted(cs))

    def firstset(self, chain):
        """(set of possible first chars or None for unknown/anything, nullable)"""
        acc = set()
        for k, d, i in chain:
            if k in ("neg", "peek", "guard", "gap"):
                continue
            if k == "lit":
                return acc | {d[0][0]}, False
            if k == "cls":
                cs = d[0]
                s = set(cs[1]) if cs[0] == "in" else (UNI - set(cs[1])) if cs[0] == "not" else None
                if s is None:
                    return None, False
                acc |= s
                if d[1] > 0:
                    return acc, False
                continue
            if k in ("num", "numfail"):
                return acc | set("0123456789+-.naiNAI"), False
            if k == "nt":
                f = self.first.get(d)
                if f is None:
                    return None, False
                return acc | f, False
            if k == "star":
                for b in d[0]:
                    f, nl = self.firstset(b)
                    if f is None:
                        return None, False
                    acc |= f
                if d[1] > 0:
                    return acc, False
                continue
            return None, False
        return acc, True

    def disjoint(self, neg, main):
        """can the look-ahead chain `neg` match on no text that `main` matches?"""
        a = [x for x in neg if x[0] not in ("neg", "peek", "guard", "gap")]
        b = [x for x in main if x[0] not in ("neg", "peek", "guard", "gap")]
        negs_b = main
        i = 0
        while True:
            if i >= len(a):
                return False
            if i >= len(b):
                return False
            x, y = a[i], b[i]
            if x[0] == "lit" and y[0] == "lit":
                s, t = x[1][0], y[1][0]
                if s == t:
                    i += 1
                    continue
                if x[1][1] or y[1][1]:
                    return False
                if s.startswith(t) or t.startswith(s):
                    # a word that is only a prefix of the other: apart if the shorter must end there
                    sh, lo, chain = (x, t, neg) if len(s) < len(t) else (y, s, main)
                    nxt = lo[len(sh[1][0])]
                    return self.bounded(chain, sh, nxt)
                return True
            if x[0] == "nt" and y[0] == "nt" and x[1] == y[1]:
                i += 1
                continue
            if x[0] == "num" and y[0] == "num" and x[1] == y[1]:
                i += 1
                continue
            if x[0] == "cls" and y[0] == "cls" and x[1] == y[1]:
                i += 1
                continue
            f, n1 = self.firstset(a[i:])
            g, n2 = self.firstset(b[i:])
            if f is None or g is None or n1 or n2:
                return False
            return not (f & g)

    def bounded(self, chain, item, ch):
        """the literal `item` in chain is directly followed by a look-ahead excluding ch"""
        for j, it in enumerate(chain):
            if it is item:
                for x in chain[j + 1:]:
                    if x[0] == "gap":
                        return True
                    if x[0] != "neg":
                        return False
                    for c in x[1]:
                        c = [y for y in c if y[0] != "neg"]
                        if len(c) == 1 and c[0][0] == "cls" and c[0][1][1] <= 1 and c[0][1][0][0] == "in" and ch in c[0][1][0][1]:
                            return True
                        if len(c) == 1 and c[0][0] == "lit" and c[0][1][0] == ch:
                            return True
                return False
        return False

    # ---------------------------------------------------------------- normal form
    def norm(self, chain, val=None, facts=None, view=True):
        """-> hashable normal form, or None when the production can match nothing"""
        ch = self.strip(chain)
        ren = Ren()
        pos = {}
        body = self.chain(ch, ren)
        if body is None:
            return None
        out = [body]
        if val is not None:
            ren.positions(chain)
            out.append(ren.value(val))
        if facts is not None:
            fs = []
            for k, x in facts.items():
                if k[0] in ("same", "body"):
                    continue
                if k[0] in ("finite", "parses", "is_finite"):
                    continue
                t = ren.fact(k)
                if t is not None:
                    fs.append((t, x if not isinstance(x, frozenset) else tuple(sorted(x))))
            out.append(tuple(sorted(fs, key=repr)))
        return tuple(out)

    def chain(self, ch, ren):
        # number the events in textual order first
        out = []
        pend = set()
        for j, (k, d, i) in enumerate(ch):
            rest = ch[j + 1:]
            nxt = [x for x in rest if x[0] not in ("neg", "peek", "guard")][:1]
            atgap = bool(nxt) and nxt[0][0] == "gap"
            atreq = atgap and nxt[0][1]
            if k not in ("neg", "peek", "guard"):
                if k == "gap":
                    f, nl = self.firstset(rest)
                    prev = bool(out) and out[-1][0] == "lit"
                    if prev and f is not None and not nl:
                        if f & NAMECH and (d or f & NAMECH <= pend):
                            out.append(("sep",))
                            pend = set()
                        elif d:
                            pend &= LAYOUT
                        else:
                            pend &= f | LAYOUT
                    elif d:
                        if prev:
                            out.append(("sep",))
                        pend &= LAYOUT
                elif pend:
                    f, nl = self.firstset(ch[j:])
                    if f is not None and not nl:
                        if f <= pend:
                            return None
                        pend &= f
                if pend:
                    out.append(("neg1", "".join(sorted(pend))))
                pend = set()
            if k == "gap":
                continue
            if k == "neg":
                alts = []
                for c in d:
                    if not c:
                        return None  # !() : never
                    m = [x for x in c if x[0] not in ("neg", "peek")]
                    if len(m) == 1 and m[0][0] == "cls" and m[0][1][1] == 1 and m[0][1][0][0] == "in":
                        pend |= set(m[0][1][0][1])
                        continue
                    if len(m) == 1 and m[0][0] == "lit" and len(m[0][1][0]) == 1:
                        pend |= set(m[0][1][0])
                        continue
                    if self.disjoint(c, rest):
                        continue
                    if atreq and c and c[0][0] != "gap":
                        f0, nl0 = self.firstset(c)
                        if f0 is not None and not nl0 and not (f0 & LAYOUT):
                            continue
                    n = self.chain(c, ren.sub())
                    if n is None:
                        continue
                    alts.append(n)
                for a in alts:
                    out.append(("neg", a))
                continue
            if k == "peek":
                f, nl = self.firstset(rest)
                if atgap:
                    f = None
                for c in d:
                    g, nl2 = self.firstset(c)
                    if f is not None and g is not None and not nl and not nl2 and not (f & g):
                        return None
                    m = [x for x in c if x[0] not in ("neg", "peek")]
                    if f is not None and not nl and len(m) == 1 and m[0][0] == "cls" and m[0][1][1] <= 1 and f <= set(m[0][1][0][1]) and m[0][1][0][0] == "in":
                        continue
                    n = self.chain(c, ren.sub())
                    if n is None:
                        return None
                    if not n:
                        continue
                    out.append(("peek", n))
                continue
            if k == "star":
                r = ren.id(i)
                bs = []
                for b in d[0]:
                    n = self.chain(b, ren)
                    if n is not None:
                        bs.append(n)
                out.append(("star", tuple(bs), d[1], d[2]))
                continue
            if k == "guard":
                g = []
                for kk, x in d:
                    if kk[0] in ("same", "body", "finite", "parses"):
                        continue
                    g.append((ren.fact(kk) or kk, x if not isinstance(x, frozenset) else tuple(sorted(x))))
                if g:
                    out.append(("guard", tuple(sorted(g, key=repr))))
                continue
            if i:
                ren.id(i)
            if k == "cls":
                out.append((k, d))
            else:
                out.append((k, d))
        if pend:
            out.append(("neg1", "".join(sorted(pend))))
        # a look-ahead set directly in front of the same place: order does not matter
        res = []
        run = []
        for it in out:
            if it[0] in ("neg", "peek", "neg1"):
                run.append(it)
                continue
            res.extend(sorted(set(run), key=repr))
            run = []
            res.append(it)
        res.extend(sorted(set(run), key=repr))
        return tuple(res)


class Ren:
    def __init__(self, m=None):
        self.m = {} if m is None else m
        self.p = {}

    def sub(self):
        return Ren(dict(self.m))

    def id(self, i):
        if i not in self.m:
            self.m[i] = len(self.m) + 1
        return self.m[i]

    def positions(self, chain):
        prev = None
        for k, d, i in chain:
            if k in ("neg", "peek", "guard"):
                continue
            if k == "star":
                for b in d[0]:
                    self.positions(b[0])
            if not i or i not in absnom.EVPOS:
                prev = None
                continue
            p, q = absnom.EVPOS[i]
            if k == "gap":
                continue
            n = self.m.get(i)
            self.p.setdefault(("s", p), n)
            self.p[("e", q)] = n

    def value(self, v):
        if not isinstance(v, tuple):
            return v
        if v[:1] == ("ev",) and len(v) == 2 and isinstance(v[1], int):
            return ("ev", self.m.get(v[1], "?%d" % v[1]))
        if v[:1] == ("Span",) and len(v) == 3:
            return ("Span", self.p.get(("s", v[1]), "?"), self.p.get(("e", v[2]), "?"))
        if v[:1] == ("sp",):
            alts = []
            for c, parts in v[2]:
                c = tuple(sorted(((self.value(k), x if not isinstance(x, frozenset) else tuple(sorted(x))) for k, x in c), key=repr))
                alts.append((c, self.value(parts)))
            return ("sp", self.value(v[1]), tuple(alts))
        return tuple(self.value(x) for x in v)

    def fact(self, k):
        return self.value(k)


def first_sets(prods_of, keys):
    """possible first characters of every element, from the reference productions"""
    first = {k: set() for k in keys}
    changed = True
    n = NF(first)
    chains = {k: [n.strip(p.chain) for p in prods_of[k].prods] for k in keys}
    while changed:
        changed = False
        for k in keys:
            for c in chains[k]:
                f, nl = n.firstset(c)
                if f is None:
                    f = UNI
                if not f <= first[k]:
                    first[k] |= f
                    changed = True
    return first


def subsumed(nfs):
    """drop productions that only add look-ahead conditions to another one with the same value"""
    def key(x):
        return (tuple(i for i in x[0] if i[0] not in ("neg", "neg1", "peek")),) + x[1:]

    def conds(x):
        return frozenset((n, i) for n, i in pos(x[0]))

    def pos(c):
        n = 0
        for i in c:
            if i[0] in ("neg", "neg1", "peek"):
                yield n, i
            else:
                n += 1

    g = {}
    for x in nfs:
        g.setdefault(key(x), []).append(x)
    out = []
    for xs in g.values():
        for x in xs:
            if any(y is not x and (conds(y) < conds(x)) for y in xs):
                continue
            out.append(x)
    return out
