"""The reviewed behaviour of the public constructors, accessors, builders and conversions (contract.json), and the comparison of the
current summaries with it."""
import json
import os
import random
import re

import ev
import texts as probe
from api import NoSummary, txt
from ev import EvErr

HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, "contract.json")


def norm(s):
    """paths without modules and lifetimes"""
    s = re.sub(r"'\w+ ?,? ?", "", s)
    return re.sub(r"(?<![\w:])(?:[a-z_0-9]+::)+(?=[\w<])", "", s)


TRAITS_CONV = ("From", "TryFrom", "Into", "TryInto", "FromIterator", "IntoIterator", "Iterator", "Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut", "ToTyped", "FromStr", "Extend", "Index", "IndexMut")
KEYWORDS = ("BinaryComp", "BinaryOp", "MultiOp", "AssignOp", "AssignOpT", "DOp", "Interval", "TimeSpecifier", "Optimization", "Requirement")
COLL_METHODS = ("try_get_single", "len", "get", "iter", "first", "last", "into_iter", "iter_mut", "to_effective", "contains", "expand")


def trait_of(f):
    m = re.search(r" as ([\w:]+)", f["path"])
    return m.group(1).split("::")[-1] if m and f["path"].startswith("<") else (f.get("trait") or "").split("::")[-1].split("<")[0] or None


def self_name(f):
    p = f["path"]
    m = re.match(r"<&?(?:crate::)?(?:\w+::)*(\w+)", p)
    if m:
        return m.group(1)
    m = re.match(r"crate::(?:\w+::)*?([A-Z]\w*)", p)
    return m.group(1) if m else None


def category(F, f):
    """property a public function belongs to, None when it has none here"""
    p = f["path"]
    if "parsers::" in p or f.get("inst") is None or F.bodies[f["inst"]].get("derived"):
        return None
    t = trait_of(f)
    if not (f.get("exported") or t):
        return None
    if "STRING_INTERNING" in p or "__static_ref" in p:
        return None
    n = self_name(f)
    if t in ("Debug", "Display", "Drop", "Formatter") or f["name"] == "fmt":
        return None
    if t in ("PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Clone"):
        return None
    if n == "Name" and t != "ToTyped":
        return None
    if n in ("Number", "NumberError"):
        return None
    if t in ("Accept", "AcceptMut", "Visitor") or "visitor" in p:
        return None
    if f["name"] == "is_empty":
        return None
    if n in KEYWORDS and (t in ("TryFrom", "AsRef", "Borrow", "FromStr", "TryInto") or f["name"] in ("as_str", "contains", "expand", "to_effective")):
        return None
    if n == "Requirements" and f["name"] == "to_effective":
        return None
    if t in TRAITS_CONV or f["name"] in COLL_METHODS:
        return "C17"
    return "C16"


def freeze(x):
    if isinstance(x, list):
        return tuple(freeze(y) for y in x)
    return x


def load():
    with open(FILE) as fh:
        d = json.load(fh)
    return {k: dict(v, summary=freeze(v["summary"])) for k, v in d.items()}


def canon(o):
    """order-insensitive operations in one order; conditions as sorted sets"""
    if isinstance(o, tuple):
        o = tuple(canon(x) for x in o)
        if o and o[0] in ("eq", "streq", "feq") and len(o) == 3 and repr(o[1]) > repr(o[2]):
            return (o[0], o[2], o[1])
        return o
    return norm(o) if isinstance(o, str) and "::" in o else o


def canon_summary(s):
    return tuple(sorted(((tuple(sorted(((canon(k), canon(x)) for k, x in cs), key=repr)), canon(o)) for cs, o in s), key=repr))


def lists_of(summary):
    """arguments a summary iterates over or takes the length of"""
    out = set()

    def walk(o):
        if isinstance(o, tuple) and o:
            if o[0] in ("all", "each", "sp") and len(o) > 1 and isinstance(o[1], str):
                out.add(o[1])
            if o[0] in ("lenlo", "lenhi", "leneq", "len", "idx", "elt", "drop") and len(o) > 1 and isinstance(o[1], str):
                out.add(o[1])
            for x in o:
                walk(x)

    for cs, o in summary:
        walk(o)
        walk(cs)
    return out


def gen_args(A, f, hints, ls, rnd, strings, lens, nums):
    g = ev.Gen(A, rnd, strings, lens, nums)
    args = []
    for i, t in enumerate(f["inputs"]):
        k = A.F.tys[A.F.peel(t)]["k"]
        if k in ("param", "alias"):
            h = hints.get(("arg", i))
            if h is not None:
                args.append(g.gen(h))
            elif "a%d" % i in ls:
                e = hints.get(("elt", ("arg", i)))
                if e is None:
                    args.append(("L", tuple(("X", rnd.choice([1, 2, 100 + j])) for j in range(rnd.choice(lens)))))
                else:
                    args.append(("L", tuple(g.gen(e) for j in range(rnd.choice(lens)))))
            else:
                args.append(("X", i + 1))
        else:
            args.append(g.gen(t))
    return args


def witness(A, f, hints, cur, ref, tries=1500, fns=None, extra=()):
    """argument values on which the current summary and the reference differ"""
    S, N = ev.consts(cur)
    S, N = ev.consts(ref, S, N)
    S = sorted(S)
    lens = sorted(set([0, 1, 2, 3] + [n + d for n in N for d in (0, 1)]))
    lens = [x for x in lens if x <= 5] + [x for x in lens if 5 < x < 80][:6]
    ls = lists_of(cur) | lists_of(ref)
    rnd = random.Random(7)
    used = ok = 0
    last = None
    for i in range(tries):
        try:
            args = gen_args(A, f, hints, ls, rnd, S, lens, (0.0, 1.0, 2.5, -3.0))
            used += 1
        except (EvErr, RecursionError) as e:
            last = e
            continue
        try:
            want = ev.run(ref, args, fns)
            got = ev.run(cur, args, fns)
        except (EvErr, TypeError, IndexError, KeyError) as e:
            last = e
            continue
        ok += 1
        if want != got:
            return dict(args=args, want=want, got=got), ok, last
    return None, ok, last


def item_ty(F, f):
    """element type of an iterator argument of `FromIterator<X>` and `Extend<X>`"""
    m = re.search(r" as [\w:]*(?:FromIterator|Extend)<(.*)>>::\w+$", f["path"])
    if m:
        for i in range(len(F.tys)):
            if norm(F.tstr(i)) == norm(m.group(1)):
                return i
    return None


def raw_args(A, f, V, ls):
    """candidate values of each argument: [(value or None to leave it arbitrary)]"""
    from p_eq import spread  # noqa: F401

    cols = []
    ns = probe.consts(A.F, str(f["span"]).rsplit(":", 1)[0])[2]
    sizes = [n for n in dict.fromkeys([6] + [m + d for m in sorted(ns) for d in (0, 1, -1)]) if 0 < n < 80][:10]
    for i, t in enumerate(f["inputs"]):
        k = A.F.tys[A.F.peel(t)]
        if k["k"] in ("param", "alias"):
            if "a%d" % i in ls:
                e = item_ty(A.F, f)
                if e is None:
                    e = A.hints.get(("elt", ("arg", i))) or held_ty(A.F, f["output"])
                xs = None
                if e is not None:
                    try:
                        xs = V.values(e)[:4]
                    except NoSummary:
                        pass
                if not xs or len(xs) < 2:
                    xs = [("Sym", ("leaf", j), e) for j in range(3)]
                els = [(), (0,), (0, 0), (0, 1), (1, 0), (0, 0, 1), (0, 1, 0), (0, 1, 2 % len(xs)), (1, 1, 1, 1), (0, 1, 0, 1, 0, 1)]
                els += [tuple(j % 2 for j in range(n)) for n in sizes]
                cols.append([("L", tuple(("e", xs[j]) for j in l)) for l in els])
            else:
                cols.append([None])
            continue
        vs = list(V.values(t))[:40]
        cols.append(vs + longer(vs, sizes))
    return cols


def held_ty(F, t):
    """element type of the list the values of a type are made of"""
    k = F.tys[t]
    for fs in k.get("ft") or ():
        for x in fs:
            y = F.tys[x]
            if y["k"] == "adt" and y["def"].endswith("Vec") and isinstance(y["args"][0], int):
                return y["args"][0]
    return None


def longer(vs, sizes):
    """values that are one list, with as many elements as a size the code mentions"""
    best = None
    for v in vs:
        if v[0] == "A" and len(v[3]) == 1 and v[3][0][0] == "L" and all(p[0] == "e" for p in v[3][0][1]):
            if best is None or len(v[3][0][1]) > len(best[3][0][1]):
                best = v
    if best is None or not best[3][0][1]:
        return []
    ps = best[3][0][1]
    return [("A", best[1], best[2], (("L", tuple(ps[j % len(ps)] for j in range(n))),)) for n in sizes]


def concretely(A, F, f, ref, budget=40.0, limit=160, hints=None):
    """run the function's code abstractly on concrete values: (disagreement or None, runs that were decided, last reason)"""
    import itertools
    import time

    import ai
    import p_eq

    V = p_eq.Vals(A)
    t0 = time.time()
    try:
        cols = raw_args(A, f, V, lists_of(ref))
    except (NoSummary, KeyError, RecursionError) as e:
        return None, 0, e
    if any(not c for c in cols):
        return None, 0, "no values"
    base_ = [c[0] for c in cols]
    combos = [tuple(base_)]
    for i, c in enumerate(cols):
        for x in c[1:]:
            combos.append(tuple(base_[:i] + [x] + base_[i + 1:]))
    rnd = random.Random(5)
    for _ in range(limit):
        combos.append(tuple(rnd.choice(c) for c in cols))
    seen = set()
    done, last = 0, None
    for vals in combos:
        if repr(vals) in seen or len(seen) >= 2 * limit or time.time() - t0 > budget:
            continue
        seen.add(repr(vals))
        try:
            I0 = A.interp()
            args = []
            for i, v in enumerate(vals):
                h = (hints or {}).get(("arg", i)) if v is None else None
                args.append(ev.Gen(A, rnd).gen(h) if h is not None else ("X", i + 1) if v is None else ev.run([((), A.show(I0, v, ai.St()))], []))
            want = ev.run(ref, args)

            def put_args(I, st, a):
                out = list(a)
                for i, v in enumerate(vals):
                    if v is None:
                        continue
                    k = F.tys[f["inputs"][i]]
                    if k["k"] == "ref" and k.get("mut"):
                        st.mem[out[i][1]] = v
                    else:
                        out[i] = wrap_refs(F, f["inputs"][i], v)
                return out

            old, A.extra_cut = A.extra_cut, p_eq.cut_eq
            try:
                cur = A.summary(f, put_args)
            finally:
                A.extra_cut = old
            got = ev.run(cur, args)
        except (NoSummary, EvErr, TypeError, IndexError, KeyError, RecursionError, ValueError) as e:
            last = e
            continue
        done += 1
        if got != want:
            return dict(args=args, want=want, got=got, cur=cur), done, last
    return None, done, last


def iterators(A, F, rep):
    """methods a local iterator defines besides `next` agree with `next` (the provided ones do so by construction)"""
    import time

    import ai
    import p_eq

    V = p_eq.Vals(A)
    nexts, more = {}, {}
    for f in F.fns:
        t = trait_of(f)
        if f.get("inst") is None or not f["path"].startswith("<crate::") or F.bodies[f["inst"]].get("derived"):
            continue
        if t == "Iterator" and f["name"] == "next":
            nexts[self_name(f)] = f
        elif t in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator"):
            more.setdefault(self_name(f), []).append(f)
    for n, f in sorted(nexts.items()):
        for g in sorted(more.get(n, []), key=lambda x: x["path"]):
            one_override(A, F, rep, V, f, g, time, ai, p_eq)


def drained(A, I, nf, v, st):
    """what the iterator still yields: list of shown elements"""
    out = []
    cur, s = v, st.copy()
    for _ in range(40):
        r = A.step(I, nf, cur, s)
        if r is None:
            raise NoSummary("iterator step")
        if r[0] == "None":
            return tuple(out)
        out.append(A.show(I, r[1], r[3]))
        cur, s = r[2], r[3]
    raise NoSummary("iterator does not end")


NTHS = (0, 1, 2, 3, 7)


def one_override(A, F, rep, V, nf, g, time, ai, p_eq):
    what = norm(g["path"])
    name = g["name"]
    by_ref = F.tys[g["inputs"][0]]["k"] == "ref"
    args2 = NTHS if name in ("nth", "nth_back", "advance_by") else (None,)
    done, last = 0, None
    t0 = time.time()
    try:
        vals = V.values(F.peel(nf["inputs"][0]))
    except NoSummary as e:
        rep.undecided(what, "no iterators to look at: %s" % e)
        return
    for v in vals[:60]:
        for k in args2:
            if time.time() - t0 > 30:
                break
            old, A.extra_cut = A.extra_cut, p_eq.cut_eq
            try:
                I = A.interp()
                st = ai.St()
                l = drained(A, I, nf, v, st)
                s = st.copy()
                cell = ("h", I.fresh())
                s.mem[cell] = v
                outs = I.exec(g["inst"], [("R", cell, ()) if by_ref else v] + ([("K", k)] if k is not None else []), s)
                if len(outs) != 1 or len(g["inputs"]) != (1 if k is None else 2):
                    raise NoSummary("several paths")
                kk, r, s2 = outs[0]
                if kk == "panic":
                    got = "panic"
                elif kk != "ret":
                    raise NoSummary(str(r))
                else:
                    got = A.show(I, r, s2)
                rest = drained(A, I, nf, s2.mem[cell], s2) if by_ref and kk == "ret" else None
            except (NoSummary, ai.Unknown, ai.Budget, TypeError, KeyError, IndexError, RecursionError) as e:
                last = e
                continue
            finally:
                A.extra_cut = old
            opt = lambda xs: ("Some", xs[0]) if xs else ("None",)
            if name == "nth":
                want, left = opt(l[k:]), l[k + 1:]
            elif name == "next_back":
                want, left = opt(l[::-1]), l[:-1]
            elif name == "nth_back":
                want, left = opt(l[::-1][k:]), l[: max(0, len(l) - k - 1)]
            elif name == "last":
                want, left = opt(l[::-1]), None
            elif name in ("count", "len"):
                want, left = ("K", len(l)), l if name == "len" else None
            elif name == "is_empty":
                want, left = ("K", int(not l)), l
            elif name == "size_hint":
                left = l
                want = got
                if got == "panic" or not size_ok(got, len(l)):
                    want = "a range that contains %d" % len(l)
            else:
                rep.undecided(what, "no reference for this method")
                return
            done += 1
            if got != want or (left is not None and rest is not None and rest != left):
                rep.bad("iterator:" + what, "%s%s on an iterator over [%s] gives %s%s, by its next() it should be %s%s" % (
                    what, "(%s)" % k if k is not None else "", ", ".join(txt(x) for x in l), txt(got), " leaving [%s]" % ", ".join(txt(x) for x in rest) if rest is not None else "",
                    txt(want), " leaving [%s]" % ", ".join(txt(x) for x in left) if left is not None and rest is not None else ""), g["span"])
                return
    if done:
        rep.ok(what, "agrees with next() on %d iterators" % done)
    else:
        rep.undecided(what, "not determined: %s" % (last,))


def size_ok(got, n):
    if not (isinstance(got, tuple) and got[:1] == ("T",) and len(got) == 3 and got[1][:1] == ("K",)):
        return True
    if got[1][1] > n:
        return False
    return got[2] == ("None",) or not (got[2][0] == "Some" and got[2][1][:1] == ("K",)) or got[2][1][1] >= n


def wrap_refs(F, t, v):
    k = F.tys[t]
    return ("R", ("val", wrap_refs(F, k["e"], v)), ()) if k["k"] == "ref" else v


def report(rep, path, f, w):
    rep.bad("contract:" + path, "%s with arguments %s gives %s, expected %s" % (path, ", ".join(ev.show(a) for a in w["args"]), ev.show(w["got"]), ev.show(w["want"])), f["span"],
            current=[(" & ".join("%s=%s" % (txt(k), txt(x)) for k, x in cs), txt(o)) for cs, o in w.get("cur", ())][:20])


def compare(A, F, rep, prop, cats=None, keep=None):
    """one obligation per reviewed function: its current summary means the same"""
    import api

    ref = load()
    now = {}
    for f in F.fns:
        c = category(F, f)
        if c is not None:
            now.setdefault(norm(f["path"]), f)
    n = 0
    for path, r in sorted(ref.items()):
        if r["cat"] != prop:
            continue
        n += 1
        f = now.get(path)
        if f is None:
            rep.undecided(path, "no such public function any more")
            continue
        if [norm(F.tstr(t)) for t in f["inputs"]] != r["inputs"]:
            rep.undecided(path, "signature changed")
            continue
        why = None
        try:
            cur = A.summary(f)
        except NoSummary as e:
            cur, why = None, str(e)
        except Exception as e:
            cur, why = None, "internal error: %r" % (e,)
        rep.count("functions")
        c2 = canon_summary(r["summary"])
        tried = 0
        if cur is not None:
            c1 = canon_summary(cur)
            rep.count("paths", len(cur))
            if c1 == c2:
                rep.ok(path, "every path gives the specified result: " + "; ".join(txt(o) for cs, o in cur)[:200])
                continue
            w, tried, last = witness(A, f, A.hints, c1, c2)
            if w is not None:
                report(rep, path, f, dict(w, cur=cur))
                continue
            if tried < 50:
                why = "written differently and not comparable (%s)" % (last,)
        w, runs, last = concretely(A, F, f, c2, hints=dict(A.hints))
        rep.count("concrete_runs", runs)
        if w is not None:
            report(rep, path, f, w)
        elif why is None:
            rep.undecided(path, "written differently; equal on %d evaluated argument lists and %d concrete values, equality in general not shown" % (tried, runs))
        else:
            rep.undecided(path, "%s; right on %d concrete values%s" % (why, runs, "" if runs else " (%s)" % (last,)))
    return n
