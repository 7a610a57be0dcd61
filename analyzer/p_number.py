"""C15: numbers are finite; equality, order and hash agree; a number reports the value it was made from."""
import math, re
import ai, contract, fl
from api import Api, NoSummary
from facts import Facts
import dump as dumper

NUMBER = "crate::types::number::Number"
ORDS = ("less", "equal", "greater")


class Num:
    def __init__(self, A):
        self.A, self.F = A, A.F
        ad = self.F.adts[NUMBER]
        self.fty = ad["variants"][0]["fields"][0]["ty"] if ad["variants"][0]["fields"] else None
        self.w = fl.width(self.F.tys[self.fty]) if self.fty is not None and len(ad["variants"][0]["fields"]) == 1 else None

    def cut(self, I, fn, fv, args, st, dty):
        p = fn["path"]
        if p == "std::convert::Into::into" and "rpath" not in fn and len(args) == 1:
            v = I.deref(args[0], st)
            if v[0] == "A" and v[1] == NUMBER:
                return [("ret", v, st)]
        return None

    def run(self, f, args, floats=True):
        A = self.A
        A.names_opaque, A.extra_cut = False, self.cut
        try:
            I = A.interp()
            I.floats = floats
            I.max_steps = 20000
            try:
                return I.exec(f["inst"], args, ai.St()), I
            except (ai.Budget, ai.Unknown, RecursionError, KeyError, IndexError, TypeError, AttributeError) as e:
                raise NoSummary(repr(e))
        finally:
            A.names_opaque, A.extra_cut = True, None

    def value(self, x):
        return ("A", NUMBER, 0, (fl.mk(self.w, x),))

    def ref(self, v):
        return ("R", ("val", v), ())

    def numbers_in(self, v):
        """numbers inside a result"""
        out = []

        def walk(x):
            if isinstance(x, tuple):
                if x[:1] == ("A",) and len(x) == 4 and x[1] == NUMBER:
                    out.append(x)
                    return
                for y in x:
                    walk(y)

        walk(v)
        return out


def samples(w, consts=()):
    one = {32: [1.0, 1.0000001192092896, 0.9999999403953552], 64: [1.0, 1.0000000000000002, 0.9999999999999999]}[w]
    big = {32: 3.4028234663852886e38, 64: 1.7976931348623157e308}[w]
    tiny = {32: 1.401298464324817e-45, 64: 5e-324}[w]
    norm = {32: 1.1754943508222875e-38, 64: 2.2250738585072014e-308}[w]
    xs = [0.0, -0.0] + one + [-x for x in one] + [big, -big, tiny, -tiny, norm, -norm, 0.1, 0.10000000149011612, -0.1, 2.0, 3.0, 1e-7, 1e-8, 1000000.0, 1000000.0625, 16777216.0, 16777218.0, 42.0, -42.0, 0.5, 1.5, 2.5, 1e30, -1e30]
    for c in consts:
        xs += [c, -c]
    out, seen = [], set()
    for x in xs:
        v = fl.mk(w, x)
        if v[2] not in seen and math.isfinite(fl.py(v)):
            seen.add(v[2])
            out.append(v)
    return out


def constants(F, fns):
    """float constants in the bodies of the given functions (and of those they call)"""
    out, seen = set(), set()

    def body(ix):
        if ix in seen:
            return
        seen.add(ix)
        walk(F.bodies[ix]["bbs"])

    def walk(x):
        if isinstance(x, dict):
            if x.get("c") == "int" and isinstance(x.get("ty"), int) and F.tys[x["ty"]]["k"] == "float":
                out.add(fl.py(("Fl", fl.width(F.tys[x["ty"]]), int(x["v"]))))
            if x.get("inst") is not None and isinstance(x["inst"], int) and "path" in x and F.bodies[x["inst"]].get("local"):
                body(x["inst"])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)

    for f in fns:
        if f is not None:
            body(f["inst"])
    return [x for x in out if math.isfinite(x)]


def C15(ctx, rep):
    one(ctx, rep, ctx.F, "")
    if True:
        try:
            F2 = Facts(dumper.dump(tag="release", release=True))
        except dumper.DumpError as e:
            rep.undecided("configuration without debug assertions", str(e)[-200:])
        else:
            one(ctx, rep, F2, " (without debug assertions)")
    rep.explanation = ("Every function that hands out a number is interpreted on arbitrary arguments: a number is built only on paths that tested its value to be finite. Comparison, equality and hash are interpreted "
                       "on arbitrary pairs; their paths test only finiteness, equality and order of the two values and constants, so evaluating every combination relative to those constants decides them. "
                       "Constructors are evaluated on the float classes (both zeros, subnormals, limits, infinities, NaN) and must report the given value. Builds with and without debug assertions are analysed.")
    rep.assumptions += ["f32 arithmetic and comparison as in IEEE 754", "str::parse::<f32> behaves as documented"]


def one(ctx, rep, F, cfg):
    if NUMBER not in F.adts:
        rep.undecided("Number" + cfg, "not found")
        return
    N = Num(Api(F))
    if N.w is None:
        rep.undecided("Number" + cfg, "its representation is not a single float")
        return
    fld = F.adts[NUMBER]["variants"][0]["fields"][0]
    if fld["pub"]:
        rep.bad("public field" + cfg, "the value of a Number is a public field: it can be set to anything", F.adts[NUMBER]["span"])
    else:
        rep.ok("representation is private" + cfg, "one private field")
    mutators(rep, N, F, cfg)
    constructors(rep, N, F, cfg)
    comparisons(rep, N, F, cfg)


def mutators(rep, N, F, cfg):
    n = 0
    for f in F.fns:
        if not f["exported"] and not f.get("trait"):
            continue
        if f.get("inst") is None or not f["inputs"]:
            continue
        i = F.tys[f["inputs"][0]]
        if i["k"] != "ref" or not i.get("mut"):
            continue
        e = F.tys[i["e"]]
        if e["k"] != "adt" or e["def"] != NUMBER:
            continue
        n += 1
        o = F.tys[f["output"]]
        what = contract.norm(f["path"]) + cfg
        t = o
        if t["k"] == "ref" and t.get("mut") and (F.tys[t["e"]]["k"] in ("float", "alias") or F.tys[t["e"]]["s"] in ("f32", "f64")):
            rep.bad("mutable:" + what, "%s hands out a mutable reference to the value: it can be set to anything" % what, f["span"])
            continue
        # writes through &mut self: on every path the stored value must be finite
        bad = None
        und = None
        for v in [math.inf, -math.inf, math.nan, 1.0, 3.4e38]:
            args = [("R", ("h", "self"), ())]
            ok_ = True
            for x in f["inputs"][1:]:
                t = F.tys[F.peel(x)]
                if t["k"] == "float":
                    args.append(fl.mk(fl.width(t), v))
                elif t["k"] == "adt" and t["def"] == NUMBER and math.isfinite(v):
                    args.append(N.value(v))
                elif t["k"] in ("int", "uint"):
                    args.append(("K", 1))
                else:
                    ok_ = False
            if not ok_:
                continue
            for start in (1.0, 3.4e38, -3.4e38, 0.0):
                A = N.A
                A.names_opaque, A.extra_cut = False, N.cut
                try:
                    I = A.interp()
                    I.floats = True
                    st = ai.St()
                    st.mem[("h", "self")] = N.value(start)
                    outs = I.exec(f["inst"], args, st)
                except Exception as e:
                    und = repr(e)
                    continue
                finally:
                    A.names_opaque, A.extra_cut = True, None
                for k, r, s in outs:
                    if k != "ret":
                        continue
                    x = s.mem.get(("h", "self"))
                    x = I.freeze(x, s) if x else None
                    if x and x[0] == "A" and x[3][0][0] == "Fl":
                        if not math.isfinite(fl.py(x[3][0])):
                            bad = (start, v)
                    else:
                        und = "stored value not determined"
        if bad:
            rep.bad("mutator:" + what, "%s makes the number %s non-finite (argument %s)" % (what, bad[0], bad[1]), f["span"])
        else:
            rep.undecided(what, und or "changes a number; finite on the values tried")
    if not n:
        rep.ok("no function changes a number in place" + cfg, "none takes &mut Number")


def constructors(rep, N, F, cfg):
    found = 0
    for f in F.fns:
        if f.get("inst") is None or "parsers::" in f["path"] or "::visitor" in f["path"]:
            continue
        if not mentions(F, f["output"]):
            continue
        tr = f.get("trait") or ""
        if tr.endswith("::Clone"):
            continue
        found += 1
        what = contract.norm(f["path"]) + cfg
        prim = None
        if len(f["inputs"]) == 1 and not f["has_self"]:
            t = F.tys[F.peel(f["inputs"][0])]
            if t["k"] in ("float", "int", "uint", "str") or t.get("def", "").endswith("string::String"):
                prim = t
        bad = concrete_ctor(rep, N, F, f, what, prim)
        if bad:
            continue
        # every path builds only tested values
        try:
            outs, I = N.run(f, [("Sym", ("arg", i), t) for i, t in enumerate(f["inputs"])], floats=False)
        except NoSummary as e:
            rep.undecided(what, e)
            continue
        good = True
        for k, v, s in outs:
            rep.count("constructor_paths")
            if k == "panic":
                continue
            if k != "ret":
                good = False
                rep.undecided(what, "path not understood: %s" % (v,))
                continue
            for x in N.numbers_in(I.freeze(v, s)):
                t = I.canon(x[3][0], s)
                if t[0] == "F":
                    if not math.isfinite(fl.py(("Fl", N.w, t[1]))):
                        good = False
                        rep.bad("constant:" + what, "%s makes a non-finite number" % what, f["span"])
                    continue
                if t[0] == "Sym" and (s.facts.get(("finite", t[1])) == 1 or small_int(F, f, t[1])):
                    continue
                if t[0] == "Sym" and t[1][0] == "fld":
                    continue  # the value of an existing number
                good = False
                rep.undecided(what, "not shown finite: %s" % (t,))
        if good:
            rep.ok(what, "each of its %d paths tests the value it stores, refuses, or builds no number" % len(outs))
    if not found:
        rep.undecided("constructors" + cfg, "none found")


def small_int(F, f, t):
    if t[0] == "arg":  # a lossless conversion: there are such only from 8 and 16 bits
        return F.tys[f["inputs"][t[1]]]["k"] in ("int", "uint")
    return t[0] == "cast" and isinstance(t[1], tuple) and t[1][0] == "arg" and F.tys[f["inputs"][t[1][1]]]["k"] in ("int", "uint")


def mentions(F, ty, depth=0):
    t = F.tys[ty]
    if t["k"] == "adt":
        return t["def"] == NUMBER or (t["def"] in ("std::option::Option", "std::result::Result") and any(isinstance(a, int) and mentions(F, a, depth + 1) for a in t["args"][:1]))
    return False


FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 3.4028234663852886e38, -3.4028234663852886e38, 3.5e38, -3.5e38, 1e39, 1.401298464324817e-45, 1e-46, 1.1754943508222875e-38, 16777217.0, 16777216.0, 42.0, -42.0,
          123456.789, 0.30000001192092896, 1e-10, 1.7976931348623157e308, 5e-324, math.inf, -math.inf, math.nan]
TEXTS = ["0", "-0", "0.0", "1", "42", "1.5", "-1.5", "0.1", "1e3", "3.4028235e38", "3.5e38", "1e39", "-1e39", "1e-46", "9" * 39, "9" * 60, "inf", "-inf", "infinity", "nan", "NaN", "Infinity", "", "a", "1a", " 1", "1 ", "1.", ".5", ".", "+1", "--1", "1e", "16777217", "0.30000001"]


def concrete_ctor(rep, N, F, f, what, prim):
    """evaluated on the float classes; True when a violation was reported"""
    if prim is None:
        return combos(rep, N, F, f, what)
    n = 0
    if prim["k"] == "float":
        w = fl.width(prim)
        args = [fl.mk(w, x) for x in FLOATS]
        want = [fl.convert(a, N.w) for a in args]
    elif prim["k"] in ("int", "uint"):
        b = prim.get("bits") or int(re.sub(r"\D", "", prim["s"]) or 64)
        lo, hi = (0, (1 << b) - 1) if prim["k"] == "uint" else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        vals = sorted({lo, hi, 0, 1, hi // 2, hi - 1, lo + 1, min(hi, 100), min(hi, 16777217), max(lo, -1)})
        args = [("K", v) for v in vals]
        want = [fl.mk(N.w, float(v)) for v in vals]
    else:
        args = [("S", t) for t in TEXTS]
        want = [fl.parse(N.w, t) for t in TEXTS]
    for a, w in zip(args, want):
        shown = repr(fl.py(a)) if a[0] == "Fl" else repr(a[1])
        try:
            outs, I = N.run(f, [N.ref(a) if F.tys[f["inputs"][0]]["k"] == "ref" else a])
        except NoSummary:
            continue
        for k, v, s in outs:
            if k == "unk":
                continue
            finite = w is not None and math.isfinite(fl.py(w))
            if k == "panic":
                if finite:
                    rep.bad("refused:" + what, "%s refuses %s" % (what, shown), f["span"])
                    return True
                if f.get("name") in ("try_new", "from_str", "try_from"):
                    rep.bad("panics:" + what, "%s panics on %s instead of reporting an error" % (what, shown), f["span"])
                    return True
                continue
            v = I.freeze(v, s)
            ns = N.numbers_in(v)
            for x in ns:
                y = x[3][0]
                if y[0] != "Fl":
                    continue
                n += 1
                if not math.isfinite(fl.py(y)):
                    rep.bad("nonfinite:" + what, "%s of %s makes the non-finite number %r" % (what, shown, fl.py(y)), f["span"])
                    return True
                if w is None or y[2] != w[2]:
                    rep.bad("value:" + what, "%s of %s makes a number reporting %r" % (what, shown, fl.py(y)), f["span"])
                    return True
            if not ns and finite and v[0] == "A":
                rep.bad("refused:" + what, "%s refuses %s" % (what, shown), f["span"])
                return True
    rep.count("constructed_values", n)
    return False


def combos(rep, N, F, f, what):
    """functions of several numbers or values: no combination makes a non-finite number"""
    import itertools

    pools = []
    for t in f["inputs"]:
        k = F.tys[F.peel(t)]
        if k["k"] == "float":
            p = [fl.mk(fl.width(k), x) for x in (0.0, 1.0, -1.0, 3.4e38, -3.4e38, math.inf, math.nan)]
        elif k["k"] in ("int", "uint"):
            p = [("K", 0), ("K", 1)]
        elif k.get("def") == NUMBER:
            p = [N.value(x) for x in (0.0, 1.0, -1.0, 3.4e38, -3.4e38, 1.401298464324817e-45)]
        else:
            return False
        pools.append([N.ref(x) for x in p] if F.tys[t]["k"] == "ref" else p)
    if len(pools) > 3:
        return False
    for c in itertools.product(*pools):
        try:
            outs, I = N.run(f, list(c))
        except NoSummary:
            return False
        for k, v, s in outs:
            if k == "ret":
                for x in N.numbers_in(I.freeze(v, s)):
                    if x[3][0][0] == "Fl" and not math.isfinite(fl.py(x[3][0])):
                        rep.bad("nonfinite:" + what, "%s makes the non-finite number %r" % (what, fl.py(x[3][0])), f["span"])
                        return True
    return False


def comparisons(rep, N, F, cfg):
    def fn(pat):
        for f in F.fns:
            if f.get("inst") is not None and re.search(pat, contract.norm(f["path"])):
                return f
        return None

    cmp_ = fn(r"^<Number as Ord>::cmp$")
    pcmp = fn(r"^<Number as PartialOrd(<.*>)?>::partial_cmp$")
    eqs = [f for f in F.fns if f.get("inst") is not None and re.search(r"^<Number as PartialEq(<.*>)?>::(eq|ne)$", contract.norm(f["path"]))]
    hash_ = fn(r"^<Number as Hash>::hash$")
    deref = fn(r"^<Number as Deref>::deref$")
    more = [f for f in F.fns if f.get("inst") is not None and re.search(r"^<Number as (PartialOrd|Ord)(<.*>)?>::(lt|le|gt|ge|max|min)$", contract.norm(f["path"]))]
    xs = samples(N.w, constants(F, [cmp_, pcmp, hash_] + eqs))
    checks = []
    for f in [cmp_, pcmp] + more:
        if f is not None:
            checks.append((f, "ord"))
    for f in eqs:
        # the other side: a Number (or what converts into one)
        checks.append((f, "eq"))
    for f, kind in checks:
        what = contract.norm(f["path"]) + cfg
        oty = F.tys[F.peel(f["inputs"][1])]
        und = n = 0
        bad = False
        for a in xs:
            for b in xs:
                if bad:
                    break
                other = ("A", NUMBER, 0, (b,))
                if oty["k"] == "float":
                    other = fl.convert(b, fl.width(oty))
                elif oty["k"] not in ("param", "alias") and oty.get("def") != NUMBER:
                    und += 1
                    continue
                try:
                    by_value = F.tys[f["inputs"][0]]["k"] != "ref"
                    outs, I = N.run(f, [("A", NUMBER, 0, (a,)) if by_value else N.ref(("A", NUMBER, 0, (a,))), other if by_value else N.ref(other)])
                except NoSummary:
                    und += 1
                    continue
                c = fl.cmp(a, b)
                name = f["name"]
                for k, r, s in outs:
                    if k == "unk":
                        und += 1
                        continue
                    if k == "panic":
                        bad = True
                        rep.bad("panic:" + what, "%s panics for %r and %r" % (what, fl.py(a), fl.py(b)), f["span"])
                        break
                    r = I.freeze(r, s)
                    got = shown(r)
                    if got is None:
                        und += 1
                        continue
                    n += 1
                    want = {"cmp": ORDS[c], "partial_cmp": ORDS[c], "eq": c == 1, "ne": c != 1, "lt": c == 0, "le": c <= 1, "gt": c == 2, "ge": c >= 1}.get(name)
                    if name in ("max", "min"):
                        continue
                    if got != want:
                        bad = True
                        rep.bad("pair:" + what, "%s of %r and %r is %s" % (what, fl.py(a), fl.py(b), got), f["span"])
                        break
        rep.count("pairs", n)
        if bad:
            continue
        why = atoms(N, F, f)
        if und or not n:
            rep.undecided(what, "%d pairs right, %d not determined" % (n, und))
        elif why:
            rep.undecided(what, "%d pairs right; tests more than order and finiteness: %s" % (n, why))
        else:
            rep.ok(what, "numeric order (both zeros equal), on each combination of the values and constants its paths test (%d pairs)" % n)
    if cmp_ is None:
        rep.undecided("order of numbers" + cfg, "not found")
    if not eqs:
        rep.undecided("equality of numbers" + cfg, "not found")
    # hash
    if hash_ is None:
        rep.undecided("hash of numbers" + cfg, "not found")
    else:
        by = {}
        good = True
        for a in xs:
            try:
                outs, I = N.run(hash_, [N.ref(("A", NUMBER, 0, (a,))), ("Sym", ("hasher",), None)])
            except NoSummary as e:
                good = False
                rep.undecided("hash of numbers" + cfg, e)
                break
            hs = set()
            for k, r, s in outs:
                if k == "panic":
                    rep.bad("hash panic" + cfg, "hashing the number %r panics" % fl.py(a), hash_["span"])
                    good = False
                elif k != "ret":
                    good = False
                    rep.undecided("hash of numbers" + cfg, str(r))
                else:
                    hs.add(tuple(x for x in s.notes if x[0] == "hash"))
            if any("Unk" in repr(h) or not h for h in hs):
                good = False
                rep.undecided("hash of numbers" + cfg, "what is hashed is not determined")
                break
            by[a] = hs
        for a in by:
            for b in by:
                if fl.cmp(a, b) == 1 and by[a] != by[b]:
                    good = False
                    rep.bad("hash" + cfg, "the numbers %r and %r are equal but hash differently" % (fl.py(a), fl.py(b)), hash_["span"])
        if good:
            rep.ok("hash of numbers" + cfg, "equal numbers feed the hasher the same words (%d values)" % len(by))
    # the reported value
    if deref is None:
        rep.undecided("reported value" + cfg, "not found")
    else:
        good = True
        for a in xs:
            try:
                outs, I = N.run(deref, [N.ref(("A", NUMBER, 0, (a,)))])
            except NoSummary as e:
                good = False
                rep.undecided("reported value" + cfg, e)
                break
            for k, r, s in outs:
                r = I.deref(r, s) if k == "ret" else ("Unk",)
                if r[0] == "Fl" and r[2] != a[2]:
                    good = False
                    rep.bad("deref" + cfg, "the number %r reports %r" % (fl.py(a), fl.py(r)), deref["span"])
                elif r[0] != "Fl":
                    good = False
                    rep.undecided("reported value" + cfg, str(r))
        if good:
            rep.ok("reported value" + cfg, "the stored value itself")


def shown(r):
    if r[0] == "K":
        return bool(r[1])
    if r[0] == "A" and r[1].endswith("Option"):
        return shown(r[3][0]) if r[3] else None
    if r[0] == "A" and r[1].endswith("Ordering"):
        return ORDS[r[2]]
    return None


ATOMS = {"eq", "feq", "flt", "fle", "lt", "finite", "is_nan", "is_infinite", "fpcmp", "cmp", "not", "and", "or", "is_sign_negative", "is_sign_positive"}


def atoms(N, F, f):
    """what a comparison tests besides order, equality and finiteness of its two values and constants; None when nothing"""
    nt = None
    for i, t in enumerate(F.tys):
        if t["k"] == "adt" and t["def"] == NUMBER:
            nt = i
    args = []
    for i, t in enumerate(f["inputs"]):
        v = ("A", NUMBER, 0, (("Sym", ("val", i), N.fty),))
        if F.tys[F.peel(t)]["k"] == "float":
            v = ("Sym", ("val", i), F.peel(t))
        args.append(N.ref(v) if F.tys[t]["k"] == "ref" else v)
    try:
        outs, I = N.run(f, args, floats=False)
    except NoSummary as e:
        return str(e)
    bad = []

    def walk(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] in ("val", "F", "K"):
            return
        if isinstance(x[0], str) and x[0] in ATOMS:
            for y in x[1:]:
                walk(y)
            return
        if x[0] == "Sym":
            walk(x[1])
            return
        if x[0] == "fld" and x[1][0] in ("fpcmp", "cmp"):
            return
        if x[0] == "discr":
            walk(x[1])
            return
        bad.append(x)

    for k, v, s in outs:
        for key in s.facts:
            walk(key[1] if key[:1] == ("ne",) else key)
    return str(bad[0])[:100] if bad else None
