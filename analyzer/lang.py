"""Comparison of the extracted grammar with the reference: normal forms first, then concrete counterexamples."""
import json, os, re, time
import ai, nf, spec, gen
from absnom import apply
from grammar import Grammar, Summary, short, show_chain_short
from lex import Opaque
from peg import Env, Model
from view import Views, NoView

HERE = os.path.dirname(os.path.abspath(__file__))


DEAD = (("cls", (("in", ""), 1, 1), 0),)


class Later(str):
    """a text that stands behind another one"""

    prefix = ""

    def __repr__(self):
        return "%s (from offset %d, line %d, on)" % (str.__repr__(self), len(self.prefix), 1 + self.prefix.count("\n"))


def later(prefix, text):
    t = Later(text)
    t.prefix = prefix
    return t


class Lang:
    def __init__(self, F):
        self.F = F
        self.G = Grammar(F)
        self.V = Views(self.G)
        GG, CC = spec.elem(lambda k: ("P", "nt", k, self.G.key_ty.get(k)))
        self.refp, self.comb = GG, CC
        self.R = {}
        for k in GG:
            self.R[k] = self.ref_summary(k, GG[k])
        self.RC = {k: self.ref_summary(k, v) for k, v in CC.items()}
        self.first = nf.first_sets(self.R, list(self.R))
        self.N = nf.NF(self.first)
        self.refprods = {k: self.prods(self.R[k]) for k in self.R}
        for k in CC:
            self.refprods["$" + k] = self.prods(self.RC[k])
        # inside combinators the argument parser is arbitrary: a name stands for it
        self.refprods[("param", ("inner", 0))] = self.refprods["Name"]
        self.first[("param", ("inner", 0))] = set(nf.UNI) - nf.LAYOUT - set("()-=")
        self.refmodel = Model(self.V, self.refprods)
        self.easymodel = Model(self.V, self.refprods)
        self.easymodel.lenient = True
        self._gen = None

    def ref_summary(self, k, p):
        st = ai.St()
        start = self.G.I.fresh()
        s = Summary("ref", k)
        self.G.I.empty_rounds = []
        self.G.collect_ref(s, apply(self.G.I, p, ("Span", start, None), st), start)
        return s

    def prods(self, s):
        out = []
        for p in s.prods:
            try:
                v = self.V.view(p.val, p.st)
            except NoView as e:
                v = None
                s.unks.append("no view: %s" % e)
            except Exception as e:  # an unexpected shape of value: undecided, not a verdict
                v = None
                s.unks.append("no view: %r" % e)
            out.append((p.chain, v, p.st.facts))
        return out

    def reads_all(self, k, text):
        r = self.refmodel.parse(k, text)
        return r is not None and r[0] == len(text)

    @property
    def gen(self):
        if self._gen is None:
            self._gen = gen.Gen({k: [c for c, v, f in ps] for k, ps in self.refprods.items() if isinstance(k, str)}, self.reads_all)
            self._gen.pool[("param", ("inner", 0))] = self._gen.pool["Name"]
        return self._gen

    # ---------------------------------------------------------------- code side
    def code(self, f, key):
        """summary and productions of one entry point"""
        s = self.G.summarize(f, key)
        if not hasattr(s, "viewed"):
            s.viewed = self.prods(s)
        return s

    def layout_prods(self):
        if not hasattr(self, "_lay"):
            fs = self.G.free.get("()", [])
            self._lay = None
            for f in fs:
                s = self.G.summarize(f, "()")
                if s.prods and not s.unks:
                    self._lay = [p.chain for p in s.prods]
        return self._lay

    # ---------------------------------------------------------------- layout steps that follow one another
    RUNS = [" ", "\n", "\t", "  ", ";c\n", " ;c\n", ";c\n ", " ;c\n ", ";c\n;d\n", " ;c\n ;d\n ", "\r\n"]

    def run_lives(self, run):
        """does a sequence of layout steps match anything?  (one that takes all layout leaves none for a later one)"""
        if not hasattr(self, "_runs"):
            self._runs = {}
            self._runm = Model(self.V, {}, ref=self.refmodel, layout=self.layout_prods())
        from absnom import strip_chain
        k = strip_chain(run)
        if k not in self._runs:
            ok = False
            try:
                for w in [""] + self.RUNS:
                    if self._runm.match(run, w + "(", 0, Env()) == len(w):
                        ok = True
                        break
            except (Opaque, RecursionError, KeyError):
                ok = True
            self._runs[k] = ok
        return self._runs[k]

    def live(self, chain):
        """the chain with repetitions that can never go round marked, None when it can match no text"""
        from absnom import strip_chain
        out = []
        run = []

        def is_gap(x):
            return x[0] == "gap" or x[0] == "nt" and x[1] == "()"

        for x in chain + (("eof", None, 0),):
            if is_gap(x):
                run.append(x)
            elif x[0] in ("neg", "peek", "guard"):
                pass
            else:
                if len(run) > 1 and any(x[0] == "gap" and all(nf.needs(c) for c in x[1]) for x in run[1:]) and not self.run_lives(tuple(run)):
                    return None
                run = []
            if x[0] in ("neg", "peek"):
                alts = tuple(y for y in (self.live(c) for c in x[1]) if y is not None)
                if not alts and x[0] == "neg":
                    continue
                x = (x[0], alts or (DEAD,), x[2])
            if x[0] == "star":
                bodies = tuple((self.live(b[0]) or DEAD,) + tuple(b[1:]) for b in x[1][0])
                x = (x[0], (bodies,) + tuple(x[1][1:]), x[2])
            out.append(x)
        return tuple(out[:-1])

    def nf_set(self, prods):
        out = {}
        for c, v, f in prods:
            c = self.live(c)
            if c is None:
                continue
            x = self.N.norm(c, v, f)
            if x is not None:
                out.setdefault(x, []).append((c, v, f))
        keep = nf.subsumed(out)
        return {x: out[x] for x in keep}

    def compare_nf(self, code, refkey):
        """-> (only code, only ref) lists of productions"""
        try:
            a = self.nf_set(code)
        except (RecursionError, KeyError, IndexError, TypeError, ValueError) as e:
            return None
        b = self.nf_set(self.refprods[refkey])
        return [a[x][0] for x in a if x not in b], [b[x][0] for x in b if x not in a]

    # ---------------------------------------------------------------- concrete counterexamples
    def model(self, s):
        m = Model(self.V, {"$code": s.viewed}, ref=self.refmodel, layout=self.layout_prods())
        m.lead = self.lead
        if getattr(s, "start", None) is not None:
            m.starts = (s.start,)
        return m

    def lead(self, key, busy=()):
        """does the crate's parser of this element skip layout in front of it?  True, False or None (depends)"""
        if not hasattr(self, "_lead"):
            self._lead = {}
        if key in self._lead:
            return self._lead[key]
        if not isinstance(key, str) or key in busy:
            return None
        r = set()
        for f in self.G.free.get(key, []):
            for c, v, fa in self.code(f, key).viewed:
                h = next((x for x in c if x[0] not in ("neg", "peek", "guard")), None)
                if h is None:
                    r.add(None)
                elif h[0] == "gap":
                    r.add(None if all(nf.needs(x) for x in h[1]) else True)
                elif h[0] == "nt":
                    r.add(self.lead(h[1], busy + (key,)))
                else:
                    r.add(False)
        self._lead[key] = r.pop() if len(r) == 1 else False if not r else None
        return self._lead[key]

    def run_code(self, m, text):
        pre = getattr(text, "prefix", "")
        try:
            m.nm_touched = False
            r = m.parse("$code", pre + text, len(pre))
            if m.nm_touched:
                m.memo.clear()
                m.nmvar = 1
                try:
                    r2 = m.parse("$code", pre + text, len(pre))
                finally:
                    m.nmvar = 0
                    m.memo.clear()
                if r is None and r2 is not None or r is not None and (r2 is None or r[:2] != r2[:2]):
                    return ("?", "depends on how a name is stored")
            return r if r is None or not pre else (r[0] - len(pre),) + tuple(r[1:])
        except (Opaque, NoView, RecursionError, ValueError, KeyError, IndexError, TypeError, AttributeError) as e:
            return ("?", str(e))

    def run_ref(self, key, text):
        return self.refmodel.parse(key, text)

    def differs(self, m, refkey, text):
        """None, or (kind, code result, reference result)"""
        if text[:1] in nf.LAYOUT | {";"} and text:
            return None  # layout in front of an element belongs to what stands before it: each parser may skip it or leave it
        a = self.run_code(m, text)
        if a is not None and a[0] == "?":
            m.opaque = getattr(m, "opaque", 0) + 1
            return None
        b = self.run_ref(refkey, text)
        if a is None and b is None:
            return None
        if a is not None and a[1] is not None and (b is None or b[:2] != a[:2]):
            # missing layout between tokens that cannot run together is no matter of the grammar
            c = self.easymodel.parse(refkey, text)
            if c is not None and c[:2] == a[:2]:
                return None
        if a is None or b is None:
            return ("accept", a, b)
        if a[0] != b[0]:
            return ("end", a, b)
        if a[1] is None:
            m.opaque = getattr(m, "opaque", 0) + 1
            return None
        if a[1] != b[1]:
            return ("value", a, b)
        return None

    def base_items(self, s, refkey, deep=False):
        chains = [c for c, v, f in self.refprods[refkey]] + [c for c, v, f in s.viewed]
        return self.gen.sentences(refkey, chains, deep)

    def words_of(self, refkey):
        """alphabetic words of the element and of the elements directly inside it"""
        if not hasattr(self, "_words"):
            self._words = {}
        if refkey in self._words:
            return self._words[refkey]
        ws = set()
        ks = {refkey}
        for c, v, f in self.refprods[refkey]:
            for x in gen.flat(c):
                if x[0] == "nt" and x[1] in self.refprods:
                    ks.add(x[1])
        for k in ks:
            for c, v, f in self.refprods[k]:
                for x in gen.flat(c):
                    if x[0] == "lit" and re.fullmatch(r"[a-z][a-z-]*", x[1][0]):
                        ws.add(x[1][0])
        self._words[refkey] = sorted(ws)
        return self._words[refkey]

    def constants(self, s, refkey):
        """words, numbers and lengths that the conditions of the productions mention"""
        words, nums, lens = set(), set(), set()

        def go(x, depth=0):
            if depth > 40:
                return
            if isinstance(x, str):
                return
            if isinstance(x, (tuple, list, frozenset)):
                if isinstance(x, tuple) and x:
                    if x[0] == "S" and len(x) == 2 and isinstance(x[1], str):
                        words.add(x[1])
                    elif x[0] in ("K", "F") and len(x) >= 2 and isinstance(x[1], (int, float)) and not isinstance(x[1], bool):
                        nums.add(x[1])
                    elif x[0] in ("take", "skip", "truncate", "step_by") and len(x) > 2 and isinstance(x[-1], int):
                        lens.add(x[-1])
                    elif x[0] in ("lenge", "leneq") and isinstance(x[2], int):
                        lens.add(x[2])
                    elif x[0] == "streq":
                        for y in x[1:]:
                            if isinstance(y, str):
                                words.add(y)
                for y in x:
                    go(y, depth + 1)

        for c, v, f in s.viewed:
            for k, x in f.items():
                go(k)
                if k[0] in ("lenlo", "lenhi") and isinstance(x, int):
                    lens.add(x)
            for it in gen.flat(c):
                if it[0] == "guard":
                    for k, x in it[1]:
                        go(k)
                        if k[0] in ("lenlo", "lenhi") and isinstance(x, int):
                            lens.add(x)
            go(v)
        return sorted(w for w in words if w and len(w) < 60), sorted(nums)[:12], sorted(l for l in lens if 0 < l < 2000)[:8]

    def directed(self, s, refkey, cmp):
        """texts made for the productions in which the code and the reference differ"""
        chains = [c for side in (cmp or ((), ())) for c, v, f in side] or [c for c, v, f in s.viewed]
        chains = sorted(chains, key=lambda c: len(repr(c)))[:40]
        ts = sorted(dict.fromkeys(self.gen.sentences(refkey, chains)), key=lambda t: (len(t), repr(t)))
        for t in ts[:200]:
            yield "sentence", gen.assemble(gen.fill(t))
        words, nums, lens = self.constants(s, refkey)
        small = sorted(set(lens) | {int(v) for v in nums if float(v).is_integer() and 3 < v < 600})[:6]
        for t in self.gen.repeats(chains, [y for v in small for y in (v - 1, v, v + 1, 2 * v + 1, 3 * v + 1) if y > 0]):
            yield "repeat", gen.assemble(gen.fill(t))
        for t in ts[:80]:
            for names in gen.equal_names(t):
                yield "names", gen.assemble(gen.fill(t, names))
        for t in ts[:60]:
            n = min(gen.slots(t), 6)
            ws = words + ["a" * k for l in lens for k in (l - 1, l, l + 1) if k > 0]
            for sl in range(n):
                for w in ws:
                    yield "names", gen.assemble(gen.fill(t, [None] * sl + [w]))
            if any(x[0] in ("d", "u") for x in t):
                for v in nums:
                    for y in (v - 1, v, v + 1, v + 0.5, 2 * v, v / 2):
                        if y >= 0:
                            y = str(int(y)) if float(y).is_integer() else repr(y)
                            yield "names", gen.assemble(gen.fill(t, None, (y,)))
                yield "names", gen.assemble(gen.fill(t, None, ("3",)))
                for ns in (("9", "8", "7", "6", "5", "4", "3", "2", "1"), ("2", "1", "3"), ("0", "1", "0.5"), ("1", "3", "2"), ("1", "1", "2"), ("1", "2", "2")):
                    yield "names", gen.assemble(gen.fill(t, None, ns))
                for y in ("0", "0.0", "00", "9" * 45, "18446744073709551616", "4294967296", "1.0", "0.1", "16777217", "1e3", "-1", "+1", ".5", "5.", "3" + "0" * 37, "123" + "0" * 30, "0." + "0" * 9 + "1", "0." + "0" * 43 + "1"):
                    yield "names", gen.assemble(gen.fill(t, None, (y,)))
        yield from self.around(s, ts, refkey)
        small = [t for t in ts if len(t) < 14][:10]
        for t in small:
            for x in gen.char_edits(gen.assemble(gen.fill(t))):
                yield "edit", x

    def ahead(self, s):
        """what the conditions of the productions say about the text that is still unread: words, lengths, and does the place matter"""
        words, lens, places = set(), set(), set()

        def has_span(x):
            return isinstance(x, tuple) and (x[:1] == ("Span",) or any(has_span(y) for y in x))

        def consts(x, out):
            if isinstance(x, tuple):
                if x[:1] == ("S",) and len(x) == 2 and isinstance(x[1], str):
                    out.add(x[1])
                elif x[:1] == ("K",) and isinstance(x[1], int) and not isinstance(x[1], bool):
                    out.add(x[1])
                else:
                    for y in x:
                        consts(y, out)

        def fact(k, x):
            if not has_span(k):
                return
            c = set()
            consts(k, c)
            r = repr(k)
            if "location_" in r or "column" in r:
                places.update(y for y in c if isinstance(y, int))
                places.add(0)
                return
            if k[0] in ("lenlo", "lenhi") and isinstance(x, int):
                lens.add(x)
            for y in c:
                if isinstance(y, str):
                    words.add(y)
                else:
                    if 32 <= y < 0x110000 and not 0xD800 <= y < 0xE000 and "app" in r:
                        words.add(chr(y))
                    lens.add(y)

        for c, v, f in s.viewed:
            for k, x in f.items():
                fact(k, x)
            for it in gen.flat(c):
                if it[0] == "guard":
                    for k, x in it[1]:
                        fact(k, x)
        return sorted(w for w in words if 0 < len(w) < 60)[:8], sorted(n for n in lens if 0 <= n <= 20000)[:6], sorted(n for n in places if 0 <= n <= 20000)[:6]

    def around(self, s, ts, refkey):
        """the same texts with something behind them or in front of them, where the parser looks at that"""
        words, lens, places = self.ahead(s)
        if not (words or lens or places):
            return
        bs = [gen.assemble(gen.fill(t)) for t in ts[:60]]
        for c, v, f in self.refprods[refkey][:60]:
            own = sorted(self.gen.sentences(refkey, [c]), key=lambda t: (len(t), repr(t)))
            bs += [gen.assemble(gen.fill(t)) for t in own[:3]]
        bs = list(dict.fromkeys(bs))
        for w in words:
            for b in bs:
                yield "suffix", b + " " + w
                yield "suffix", b + w
            for b in bs[:40]:
                yield "names", b.replace("a", w) if w.isalnum() else b
        for n in lens:
            for b in bs:
                for y in (n - 1, n, n + 1):
                    if y > len(b):
                        yield "suffix", b + " " * (y - len(b))
        for n in places:
            for b in bs:
                for y in (n - 1, n, n + 1):
                    if y > 0:
                        yield "place", later(" " * y, b)
                        if y < 3000:
                            yield "place", later("\n" * y, b)

    def texts(self, s, refkey, deep=False, cmp=None):
        """candidate texts with the kind of edit that made them"""
        if cmp is not None:
            yield from self.directed(s, refkey, cmp)
        yield from self.plain_texts(s, refkey, deep)

    def plain_texts(self, s, refkey, deep=False):
        """candidate texts with the kind of edit that made them"""
        bases = self.base_items(s, refkey, deep)
        bases.sort(key=len)
        for t in bases:
            yield "sentence", gen.assemble(gen.fill(t))
        words = self.words_of(refkey)
        tr = []
        for w in words:
            tr += [w, w + "x", w + "-y", w[:-1] or "q", w + "1"]
        tr = list(dict.fromkeys(tr + gen.TRICKY))
        for t in bases[: 60 if deep else 25]:
            n = min(gen.slots(t), 3)
            for sl in range(n):
                for w in tr:
                    names = [None] * sl + [w]
                    yield "names", gen.assemble(gen.fill(t, names))
        for t in [t for t in bases if sum(1 for x in t if x[0] in ("d", "u")) > 1][: 60 if deep else 25]:
            for ns in (("9", "8", "7", "6", "5", "4", "3", "2", "1"), ("3",)):
                yield "names", gen.assemble(gen.fill(t, None, ns))
        lim = 80 if deep else 22
        for t in bases[:lim] + bases[lim::7]:
            it = gen.fill(t)
            for m in gen.mutations(it, rich=len(it) < (60 if deep else 36)):
                yield "edit", gen.assemble(m)
        for t in bases[:10]:
            x = gen.assemble(gen.fill(t))
            for suf in (" x", ")", " (p)", "x", "- t", " - t", ";c", "5"):
                yield "suffix", x + suf

    def round_texts(self, refkey):
        chains = [c for c, v, f in self.refprods[refkey]]
        ts = sorted(self.gen.rounds(chains), key=lambda t: (len(t), repr(t)))
        up = ("1", "2", "3", "4", "5", "6", "7", "8", "9")
        for t in ts:
            n = gen.slots(t)
            yield "rounds", gen.assemble(gen.fill(t))
            if n > 1:
                yield "rounds", gen.assemble(gen.fill(t, ["a"] * n, up))
                yield "rounds", gen.assemble(gen.fill(t, gen.NAMEPOOL[:n][::-1], up[::-1]))
                yield "rounds", gen.assemble(gen.fill(t, ["b", "a", "b", "a", "c", "b"], ("1", "1", "1", "1", "1", "1")))
                yield "rounds", gen.assemble(gen.fill(t, ["ab", "b", "abc", "bc", "c"], up))
        for t in ts[:60]:
            for names in gen.equal_names(t):
                yield "rounds", gen.assemble(gen.fill(t, names))

    def search_rounds(self, f, key, refkey=None, budget=20.0, deep=False, limit=6):
        """the same with the code's repetitions followed round by round; paths not followed to the end decide nothing"""
        refkey = refkey or key
        for rounds in (3, 2):
            s = self.G.unrolled(f, rounds)
            if s is not None and len(s.prods) < 3000:
                break
        else:
            return [], 0, 0
        s.viewed = self.prods(s)
        op = []
        for o in s.open:
            ch, fs = self.G.so_far(s, o[2])
            op.append((ch + (("open", tuple(fs.items()), 0),), None, {}))
        s.viewed = op + s.viewed
        m = self.model(s)
        return self.compare_texts(m, refkey, self.round_texts(refkey), budget, limit)

    def search(self, f, key, refkey=None, budget=20.0, deep=False, limit=6, s=None, cmp=None):
        """bounded search for a text on which extracted and reference productions differ"""
        refkey = refkey or key
        s = s or self.code(f, key)
        return self.compare_texts(self.model(s), refkey, self.texts(s, refkey, deep, cmp), budget, limit)

    def compare_texts(self, m, refkey, texts, budget, limit):
        out = []
        n = 0
        t0 = time.time()
        seen = set()
        for kind, text in texts:
            mark = (text, getattr(text, "prefix", ""))
            if mark in seen:
                continue
            seen.add(mark)
            n += 1
            if n % 64 == 0 and time.time() - t0 > budget:
                break
            d = self.differs(m, refkey, text)
            if d is not None:
                sig = (d[0], d[1][2] if d[1] else None, d[2][2] if d[2] else None)
                if any(o["sig"] == sig for o in out):
                    continue
                out.append({"kind": d[0], "edit": kind, "text": text, "code": d[1], "ref": d[2], "sig": sig, "model": m})
                if len(out) >= limit:
                    break
        return out, n, getattr(m, "opaque", 0)
