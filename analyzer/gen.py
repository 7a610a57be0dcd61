"""Candidate texts: sentences of the extracted and of the reference productions, and small edits of them."""
import itertools
from nf import needs

NAMEPOOL = ["a", "b", "c", "d", "e", "f", "g", "h", "k", "m", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"]
TRICKY = ["object", "objects", "number", "numbers", "not", "and", "or", "imply", "either", "x-1", "at", "all", "define", "undefined", "total-time",
          "e5", "A", "Z_", "a-", "inf", "nan", "when", "forall", "exists", "preference", "over", "start", "end", "assign", "increase", "minus", "duration"]


class Gen:
    def __init__(self, prods_of, ok=None):
        """prods_of: key -> [chain]; ok(key, text): the reference reads all of it"""
        self.ok = ok
        self.prods = prods_of
        self.pool = {}
        self.build()

    # a template is a tuple of ('t',text) | ('g',required) | ('n',) | ('d',)
    def build(self):
        for k in self.prods:
            self.pool[k] = []
        self.pool["Name"] = [(("n",),)]
        self.pool["Number"] = [(("d",),)]
        self.pool["()"] = [()]
        for rnd in range(7):
            for k, chains in self.prods.items():
                if k in ("Name", "Number", "()"):
                    continue
                cand = []
                for c in chains:
                    wide = max([len(self.pool.get(x[1], ())) for x in flat(c) if x[0] == "nt"] + [1])
                    for mode in ((0, 0, None), (1, 0, None), (1, 1, None), (2, 1, None)) + tuple((1, 0, x) for x in range(min(wide, 9))):
                        t = self.template(c, *mode[:2], choice=mode[2])
                        if t is not None and len(t) <= (90 if k in ("Domain", "Problem") else 40):
                            cand.append(t)
                cand = [t for t in dict.fromkeys(cand) if t not in self.pool[k] and (self.ok is None or self.ok(k, assemble(fill(t))))]
                seen = dict.fromkeys(self.pool[k] + sorted(cand, key=len))
                # one per production first, then the small ones
                self.pool[k] = self.choose(list(seen), chains)
        return self

    def choose(self, ts, chains):
        ts = sorted(ts, key=lambda t: (len(t), repr(t)))
        heads = {}
        for t in ts:
            h = tuple(x[1] if x[0] == "t" else x[0] for x in t if x[0] != "g")[:3]
            heads.setdefault(h, []).append(t)
        out = [v[0] for v in heads.values()][:24]
        for t in ts:
            if len(out) >= 28:
                break
            if t not in out:
                out.append(t)
        return out

    def template(self, chain, stars, rot, depth=0, choice=None, inner=None):
        out = []
        n = rot
        for k, d, i in chain:
            if k in ("neg", "peek", "guard", "eof"):
                continue
            if k == "lit":
                out.append(("t", d[0]))
            elif k == "gap":
                out.append(("g", all(needs(c) for c in d)))
            elif k == "cls":
                cs, lo, hi = d
                if cs[0] == "in":
                    ch = [c for c in cs[1] if c.isalpha()][:1] or list(cs[1])[:1]
                else:
                    ch = [c for c in "zq0" if c not in cs[1]][:1]
                if not ch:
                    return None
                m = max(lo, min(1, hi if hi is not None else 1)) if stars else lo
                if stars > 3:
                    m = max(m, min(stars, hi if hi is not None else stars))
                if m:
                    out.append(("t", ch[0] * m))
            elif k == "num":
                out.append(("u",))
            elif k == "nt":
                p = self.pool.get(d)
                if not p:
                    return None
                if choice is not None:
                    out.extend(p[choice % len(p)] if n == rot else p[(n + choice // 7) % min(len(p), 8)])
                else:
                    out.extend(p[n % min(len(p), 5)])
                n += 1
            elif k == "star":
                bodies, lo, hi = d
                m = max(lo, stars if inner is None else 1)
                if hi is not None:
                    m = min(m, hi + 1) if stars > 3 else min(m, hi)
                for r in range(m):
                    c = bodies[(r + rot) % len(bodies)][0] if bodies else None
                    if c is None:
                        return None
                    t = self.template(c, inner if inner is not None else (stars if stars < 4 else 1) if depth < 2 else 0, n, depth + 1)
                    if t is None:
                        return None
                    out.extend(t)
                    n += 1
            else:
                return None
        return tuple(out)

    def repeats(self, chains, more=()):
        """templates with as many rounds of each repetition as its bounds make interesting"""
        out = {}
        for c in chains:
            ns = {5}
            for x in flat(c):
                if x[0] in ("star", "cls"):
                    lo, hi = x[1][1], x[1][2]
                    if hi is not None and hi > 1:
                        ns |= {hi, hi + 1}
                    if lo > 1:
                        ns |= {lo - 1, lo}
                if x[0] in ("neg", "peek", "guard"):
                    continue
            ns |= set(more)
            ns |= {hi + 1 for x in flat(c) if x[0] == "star" for hi in [x[1][2]] if hi is not None}
            for n in sorted(ns):
                if n > 1200:
                    continue
                for rot in (0, 1):
                    t = self.template(c, n, rot, depth=0 if n < 20 else 1)
                    if t is not None and len(t) < 8000:
                        out[t] = 1
                    if n in more and n < 80:
                        # few rounds outside, many inside
                        t = self.template(c, 1, rot, depth=1, inner=n)
                        if t is not None and len(t) < 8000:
                            out[t] = 1
        return list(out)

    def rounds(self, chains, upto=3):
        """templates in which one repetition has few rounds of chosen content: the same, different, in either order"""
        out = {}
        for c in chains:
            for path in star_paths(c):
                menu = {}
                bodies = star_at(c, path)[1][0]
                wide = max([len(self.pool.get(x[1], ())) for b in bodies for x in b[0] if x[0] == "nt"] + [4])
                for n in range(min(wide, 24)):
                    for b in bodies:
                        for mode in ((1, 0, n), (0, 0, n), (2, 0, n), (1, 1, None)) if n < 4 else ((1, 0, n),):
                            t = self.template(b[0], *mode[:2], depth=1, choice=mode[2])
                            if t is not None and len(t) <= 24:
                                menu[t] = 1
                menu = sorted(menu, key=lambda t: (len(t), repr(t)))
                menu = menu[:7] if not menu or len(menu[0]) > 2 else menu[:24]
                pats = [(), (0,)]
                k = len(menu)
                pats += [(i, j) for i in range(k) for j in range(k)]
                pats += [x for x in itertools.product(range(min(k, 3)), repeat=3)]
                for x in pats:
                    if len(x) > upto:
                        continue
                    t = self.with_rounds(c, path, [menu[i] for i in x])
                    if t is not None:
                        out[t] = 1
        return list(out)

    def with_rounds(self, chain, path, content):
        """the chain with the given content of the repetition at the path, once everything else"""
        out = []
        for n, x in enumerate(chain):
            if path and n == path[0] and x[0] == "star":
                if len(path) == 1:
                    for t in content:
                        out.extend(t)
                    continue
                t = self.with_rounds(x[1][0][path[1]][0], path[2:], content)
            else:
                t = self.template((x,), 1 if x[0] != "star" else max(x[1][1], 1), 0, depth=1)
            if t is None:
                return None
            out.extend(t)
        return tuple(out)

    def sentences(self, key, chains, deep=False):
        """templates for one element: every production, several repetition counts, every small sub-element once"""
        out = {}
        for c in chains:
            nts = sum(1 for x in c if x[0] == "nt") + sum(1 for x in c if x[0] == "star")
            width = max([len(self.pool.get(x[1], ())) for x in flat(c) if x[0] == "nt"] + [1])
            if len(chains) > 60:
                width = min(width, 2)
            for st in (0, 1, 2, 3) if deep else (0, 1, 2):
                for rot in range(3 if deep else 2):
                    t = self.template(c, st, rot)
                    if t is not None:
                        out[t] = 1
            for ch in range(width * (3 if deep else 1)):
                t = self.template(c, 1, 0, choice=ch)
                if t is not None:
                    out[t] = 1
        return list(out)


def star_paths(c):
    """positions of the repetitions of a chain: index, (body, index)*"""
    for n, x in enumerate(c):
        if x[0] == "star":
            yield (n,)
            for i, b in enumerate(x[1][0]):
                for p in star_paths(b[0]):
                    yield (n, i) + p


def star_at(c, path):
    x = c[path[0]]
    return x if len(path) == 1 else star_at(x[1][0][path[1]][0], path[2:])


def flat(c):
    for x in c:
        yield x
        if x[0] == "star":
            for b in x[1][0]:
                yield from flat(b[0])


def fill(t, names=None, nums=("1", "2.5", "3", "40", "5", "6.25", "7", "8")):
    """-> [token or ('g', required)]"""
    ni = di = 0
    out = []
    for x in t:
        if x[0] == "n":
            out.append(names[ni] if names and ni < len(names) and names[ni] else NAMEPOOL[ni % len(NAMEPOOL)])
            ni += 1
        elif x[0] == "d":
            out.append(nums[di % len(nums)])
            di += 1
        elif x[0] == "u":
            out.append(str(int(float(nums[di % len(nums)]))))
            di += 1
        elif x[0] == "t":
            out.append(x[1])
        else:
            out.append(x)
    # tokens: glue texts that no gap separates only when they form one word
    return out


def slots(t):
    return sum(1 for x in t if x[0] == "n")


def assemble(items, at=None, word=None):
    """canonical layout: nothing next to parentheses, one space elsewhere; gap number `at` gets `word`"""
    # merge neighbouring gaps
    its = []
    for x in items:
        if isinstance(x, tuple):
            if its and isinstance(its[-1], tuple):
                its[-1] = ("g", its[-1][1] or x[1])
                continue
        its.append(x)
    out = []
    g = 0
    for j, x in enumerate(its):
        if isinstance(x, tuple):
            if at is not None and g == at:
                out.append(word)
            else:
                prev = its[j - 1] if j else "("
                nxt = its[j + 1] if j + 1 < len(its) else ")"
                if not (prev == "(" or nxt == ")" or j == 0):
                    out.append(" ")
            g += 1
        else:
            out.append(x)
    return "".join(out)


def gaps(items):
    """[(required, previous token, next token)] of the merged gaps"""
    its = []
    for x in items:
        if isinstance(x, tuple):
            if its and isinstance(its[-1], tuple):
                its[-1] = ("g", its[-1][1] or x[1])
                continue
        its.append(x)
    return [(x[1], its[j - 1] if j else None, its[j + 1] if j + 1 < len(its) else None) for j, x in enumerate(its) if isinstance(x, tuple)]


def equal_names(t):
    """the same name in several places: all of them, and each pair"""
    n = slots(t)
    if n < 2:
        return
    yield ["a"] * n
    for i in range(min(n, 8)):
        for j in range(i + 1, min(n, 8)):
            names = [None] * n
            names[i] = names[j] = "a1"
            yield names


def char_edits(text, chars="0a.-_? +:;(\u00e9"):
    """one character put in, at every place"""
    for j in range(len(text) + 1):
        for c in chars:
            yield text[:j] + c + text[j:]
    for j in range(len(text)):
        yield text[:j] + text[j + 1:]
        yield text[:j] + text[j] + text[j:]


POOL = ["x", "(", ")", "?v", "-", "not", "and", "at", "5", "=", ":k", "#t", "?duration", "undefined", "start", "all", "+", "assign", "either", "end"]


def mutations(items, rich=True):
    """token-level edits"""
    toks = [x for x in items if not isinstance(x, tuple)]
    idx = [j for j, x in enumerate(items) if not isinstance(x, tuple)]
    n = len(idx)
    for a in range(n):
        yield items[:idx[a]] + items[idx[a] + 1:]
        yield items[:idx[a] + 1] + [("g", True)] + items[idx[a]:]
    for a in range(n - 1):
        m = list(items)
        m[idx[a]], m[idx[a + 1]] = m[idx[a + 1]], m[idx[a]]
        yield m
    # groups: drop, double, swap parenthesised parts
    spans = []
    stack = []
    for j in idx:
        if items[j] == "(":
            stack.append(j)
        elif items[j] == ")" and stack:
            spans.append((stack.pop(), j + 1))
    for a, b in spans:
        if (a, b) == (idx[0], idx[-1] + 1):
            continue
        yield items[:a] + items[b:]
        yield items[:b] + [("g", True)] + items[a:b] + items[b:]
        yield items[:a] + ["(", ")"] + items[b:]
        yield items[:a] + ["x"] + items[b:]
        yield items[:a] + ["("] + items[a:b] + [")"] + items[b:]
    if rich:
        for a in range(n):
            for w in POOL:
                if items[idx[a]] != w:
                    yield items[:idx[a]] + [w] + items[idx[a] + 1:]
            for w in ("x", "?v", "(", ")", "5", "-", "(p)"):
                yield items[:idx[a]] + [w, ("g", True)] + items[idx[a]:]


def slots_of(items):
    """positions of names and numbers put in for placeholders"""
    return [j for j, x in enumerate(items) if isinstance(x, str) and ((len(x) == 1 and x.isalpha()) or x[:1].isdigit())]
