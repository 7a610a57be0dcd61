"""C13-C19, C24: the value types."""
from api import Api, NoSummary
import contract
import texts as probe

LEVEL = {"C13": "proof", "C14": "proof", "C15": "proof", "C18": "proof", "C19": "proof", "C16": "proof", "C17": "proof", "C24": "proof"}


def api(ctx):
    if getattr(ctx, "_api", None) is None:
        ctx._api = Api(ctx.F)
    return ctx._api


def by_contract(ctx, rep, prop):
    n = contract.compare(api(ctx), ctx.F, rep, prop)
    rep.assumptions += ["the standard library behaves as modelled (analyzer/absstd.py)"]
    return n


def C16(ctx, rep):
    by_contract(ctx, rep, "C16")
    rep.explanation = ("Every constructor, builder method, default and accessor is interpreted abstractly on symbolic arguments; for every path the conditions and the result, "
                       "seen through the public accessors, must equal the reviewed contract (analyzer/contract.json), by form or on every evaluated argument list; a difference is reported with arguments.")


def C17(ctx, rep):
    by_contract(ctx, rep, "C17")
    contract.iterators(api(ctx), ctx.F, rep)
    rep.explanation = ("Every conversion, collection method and iterator is interpreted abstractly on symbolic arguments (sequences of any length as one symbolic repetition); for every path "
                       "the resulting elements, their order and variants must equal the reviewed contract (analyzer/contract.json); a difference is reported with arguments.")


def C24(ctx, rep):
    """accepting a visitor: one call, of the visitor, with the accepted value; its answer is the result"""
    A = api(ctx)
    seen = {}

    def cut(I, fn, fv, args, st, dty):
        p = fn["path"]
        if p in ("crate::visitor::Visitor::visit", "crate::visitor::VisitorMut::visit_mut"):
            s = st.copy()
            n = sum(1 for x in s.notes if x[0] == "visit")
            term = ("visited", n)
            s.notes = s.notes + (("visit", p, I.canon(args[0], s), I.canon(args[1], s), term),)
            return [("ret", ("Sym", term, dty), s)]
        return None

    n = 0
    for f in ctx.F.fns:
        t = f.get("trait")
        if t not in ("crate::visitor::Accept", "crate::visitor::AcceptMut") or f.get("inst") is None:
            continue
        n += 1
        name = contract.norm(f["path"])
        A.extra_cut = cut
        try:
            outs = A.run(f)
        except NoSummary as e:
            rep.undecided(name, e)
            continue
        finally:
            A.extra_cut = None
        want = "crate::visitor::Visitor::visit" if t.endswith("Accept") else "crate::visitor::VisitorMut::visit_mut"
        for k, v, st, I, muts in outs:
            rep.count("paths")
            vs = [x for x in st.notes if x[0] == "visit"]
            if k == "panic":
                rep.bad("panic:" + name, "%s panics on a path of its own" % name, f["span"])
                continue
            if k != "ret":
                rep.undecided(name, "path not understood: %s" % (v,))
                continue
            r = I.canon(v, st)
            if len(vs) != 1:
                rep.bad("calls:" + name, "%s calls the visitor %d times on one path" % (name, len(vs)), f["span"])
            elif r[0] == "Unk":
                rep.undecided(name, "result not understood")
            elif r[:2] != ("Sym", vs[0][4]):
                rep.bad("result:" + name, "%s does not return the visitor's answer" % name, f["span"])
            elif vs[0][1] != want:
                rep.bad("method:" + name, "%s calls %s" % (name, vs[0][1]), f["span"])
            elif vs[0][3][:2] != ("Sym", ("arg", 0)):
                rep.undecided(name, "visited value not recognised: %s" % (vs[0][3],))
            else:
                rep.ok(name, "one call of %s with the accepted value, answer returned" % want.split("::", 2)[-1])
    if n < 2:
        rep.undecided("acceptors", "blanket implementations not found")
    rep.explanation = "The blanket acceptors are interpreted abstractly: on every path the visitor is called exactly once with the accepted value and its answer is returned."


TEXTS = ["a", "b", "ab", "A", "aa", "object", "number", "objects", "Object", "", "\u00e9", "e\u0301", "a b", "x" * 40, "x" * 300, "x" * 300 + "y", "a-1", "a_1", " a", "a ", "\ta\n", "A B", "a1", "A1", "1", "-"]


def concrete_names(N, texts):
    """every name every constructor can make of a text: [(text, constructor, value)], with what could not be determined"""
    out, und = [], []
    for f in N.ctors():
        for t in texts:
            try:
                N.entry = ("S", t)
                outs, I = N.run(f, [("S", t)])
            except NoSummary as e:
                und.append((contract.norm(f["path"]), str(e)))
                continue
            finally:
                N.entry = None
            for k, v, s in outs:
                if k == "ret":
                    v = I.freeze(v, s)
                    if (t, contract.norm(f["path"]), v) not in out:
                        out.append((t, contract.norm(f["path"]), v))
                elif k == "unk":
                    und.append((contract.norm(f["path"]), str(v)))
    return out, und


def static_text(A, I, v):
    return A.static_text(I, v[1]) if v[0] == "Static" else None


def C13(ctx, rep):
    names_in(ctx, rep, ctx.F, api(ctx), "")
    try:
        from facts import Facts
        import dump as dumper

        F2 = Facts(dumper.dump(features=["--no-default-features", "--features", "parser"], tag="nointern"))
    except dumper.DumpError as e:
        rep.undecided("configuration without interning", str(e)[-200:])
    else:
        names_in(ctx, rep, F2, Api(F2), " (without interning)")
    rep.explanation = ("Every constructor of a name is interpreted on an arbitrary text with an abstract interning table (any content): on every path the text the resulting name reports is the text given, "
                       "the text of a table entry the search compared equal to it, or a constant it was compared equal to.  Equality is interpreted on two arbitrary names and must reduce to equality "
                       "of the reported texts; hashing must feed the reported text alone.  Differences are confirmed on concrete names of all constructors.  Both configurations of interning are analysed.")
    rep.assumptions += ["std::sync::Mutex, Arc and slice::binary_search_by behave as documented"]


def names_in(ctx, rep, F, A, cfg):
    from intern import Intern, cmp_texts

    N = Intern(A)
    ctors = N.ctors()
    if not ctors:
        rep.undecided("constructors" + cfg, "none found")
    # 1. the text a new name reports
    for f in ctors:
        what = contract.norm(f["path"]) + cfg
        try:
            outs, I = N.run(f, [("Sym", ("arg", 0), f["inputs"][0])])
        except NoSummary as e:
            rep.undecided(what, e)
            continue
        good = True
        for k, v, s in outs:
            rep.count("constructor_paths")
            if k == "panic":
                continue  # C14
            if k != "ret":
                good = False
                rep.undecided(what, "path not understood: %s" % (v,))
                continue
            v = I.freeze(v, s)
            try:
                ts = N.text_of(v, s)
            except NoSummary as e:
                good = False
                rep.undecided(what, e)
                continue
            for t in ts:
                if t in (("Sym", ("arg", 0)), ("Arc", ("Sym", ("arg", 0)))):
                    continue
                if t[0] == "Sym" and t[1][0] == "entry":
                    srch = [x for x in s.notes if x[0] == "search" and x[1] == t[1][1] and x[2] == "hit"]
                    if srch and all(set(cmp_texts(h) or ()) == {("Sym", ("arg", 0)), t} for h in srch[0][3]):
                        continue
                txt_ = t[1] if t[0] == "S" else static_text(A, I, t)
                if txt_ is not None and any(key[0] == "streq" and ("S", txt_) in key and ("Sym", ("arg", 0)) in key and x == 1 for key, x in s.facts.items() if isinstance(key, tuple)):
                    continue
                if t[0] == "Sym" and any(x == 1 and isinstance(key, tuple) and key[0] == "streq" and t in key and ("Sym", ("arg", 0)) in key for key, x in s.facts.items()):
                    continue
                good = False
                hits = [x for x in s.notes if x[0] == "search" and x[2] == "hit" and "('entry', %d)" % x[1] in repr(t)]
                if hits and (N.number_keys() or "'digest'" in repr(hits[0][3])):
                    rep.bad("digest:" + what, "%s takes a table entry found by a number computed from the text, without comparing the texts: two texts with the same number share a name" % what, f["span"])
                    continue
                if t[0] == "Sym" and t[1][0] == "entry" and isinstance(t[1][1], tuple) and repr(t[1]) not in repr(s.facts):
                    rep.bad("unrelated:" + what, "%s hands out a table entry at a position unrelated to the lookup: the name reports another text" % what, f["span"])
                    continue
                rep.undecided(what, "reported text not shown to be the given one: %s" % (t,))
        if good:
            rep.ok(what, "the name reports the text it was created from, on each of %d paths" % len(outs))
    ss, chs, ns = probe.consts(F, "types/name.rs")
    texts = list(dict.fromkeys(TEXTS + sorted(ss)[:20]))
    near = probe.around(sorted(x for x in ss if x and len(x) < 12)[:4] or ["a"], sorted(chs)[:6]) + probe.lengths(ns)
    near = [t for t in dict.fromkeys(near) if t not in texts]
    names, und = concrete_names(N, texts)
    for u in und[:3]:
        rep.undecided("concrete names of " + u[0] + cfg, u[1])
    deref = N.fn(r"^<crate::types::name::Name as std::ops::Deref>::deref$")
    # 1b. concrete: text
    more, und = concrete_names(N, near)
    for t, c, v in names + more:
        try:
            for k, r, s in N.run(deref, [("R", ("val", v), ())])[0]:
                r = N.I.deref(r, s)
                g = r[1] if r[0] == "S" else static_text(A, N.I, r)
                if k == "ret" and g is not None and g != t:
                    rep.bad("text:%s%s" % (c, cfg), "%s of %r makes a name that reports %r" % (c, t, g), deref["span"])
        except NoSummary as e:
            rep.undecided("text of " + c + cfg, e)
    # 1c. a table entry is taken for the text only if it is that text
    for f in ctors:
        for t in texts[:12]:
            for e in texts[:12]:
                if e == t:
                    continue
                try:
                    N.entry = ("S", e)
                    outs, I = N.run(f, [("S", t)])
                except NoSummary:
                    continue
                finally:
                    N.entry = None
                for k, v, s in outs:
                    hit = [x for x in s.notes if x[0] == "search" and x[2] == "hit"]
                    if hit and all(h[:3] == ("A", "std::cmp::Ordering", 1) for h in hit[0][3]):
                        rep.bad("entry:%s%s" % (contract.norm(f["path"]), cfg), "%s of %r takes the table entry %r for it" % (contract.norm(f["path"]), t, e), f["span"])
    # 1d. a table kept by key: no two texts under one key
    for f in ctors if N.keyed else ():
        under = {}
        for t in texts + near:
            try:
                N.entry = ("Sym", ("entry", "other"), N.vty)
                outs, I = N.run(f, [("S", t)])
            except NoSummary:
                continue
            finally:
                N.entry = None
            for k, v, s in outs:
                for x in s.notes:
                    if x[0] == "insert" and x[3:] and x[3][0] in ("S", "K"):
                        u = under.setdefault(x[3], t)
                        if u != t:
                            rep.bad("key:%s%s" % (contract.norm(f["path"]), cfg), "%s keeps %r and %r under the same key %r: one is taken for the other" % (contract.norm(f["path"]), u, t, x[3][1]), f["span"])
    # 2. equality
    pair_ops(rep, N, A, F, names, cfg, more)
    # 3. hashing
    hash_op(rep, N, A, names, cfg)
    # 4. equality with texts, length, emptiness
    text_ops(rep, N, A, F, names, texts, cfg, near, more)


def literals(F, file):
    """string constants of the bodies of a source file"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("c") == "str" and isinstance(x.get("v"), str):
                out.add(x["v"])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)

    for b in F.bodies:
        if file in str(b.get("span")):
            walk(b["bbs"])
    return {x for x in out if len(x) < 40}


def bools(N, f, args):
    """set of results of a boolean function on concrete arguments, None when not determined"""
    out = set()
    for k, r, s in N.run(f, args)[0]:
        if k != "ret":
            return None
        r = N.I.deref(r, s)
        if r[0] != "K":
            return None
        out.add(r[1])
    return out


def ref_of(v, n=1):
    for _ in range(n):
        v = ("R", ("val", v), ())
    return v


def pair_ops(rep, N, A, F, names, cfg, more=()):
    f = N.fn(r"^<crate::types::name::Name as std::cmp::PartialEq>::eq$")
    if f is None:
        rep.undecided("equality of names" + cfg, "not found")
        return
    what = "equality of names" + cfg
    nt = F.peel(f["inputs"][0])
    bad = False
    try:
        a, b = ("Sym", ("arg", 0), nt), ("Sym", ("arg", 1), nt)
        outs, I = N.run(f, [ref_of(a), ref_of(b)])
        good = True
        why = ""
        for k, r, s in outs:
            rep.count("equality_paths")
            if k != "ret":
                good, why = False, str(r)
                continue
            r = I.canon(r, s)
            ta, tb = N.text_of(a, s), N.text_of(b, s)
            if len(ta) != 1 or len(tb) != 1:
                good, why = False, "texts not determined"
                continue
            x, y = sorted((list(ta)[0], list(tb)[0]), key=repr)
            if r != ("Sym", ("streq", x, y)) and s.facts.get(("streq", x, y)) != (r[1] if r[0] == "K" else None):
                good, why = False, "result %s for texts %s, %s" % (r, x, y)
        if good and outs:
            rep.ok(what, "equality of the reported texts, on each of %d combinations of representations" % len(outs))
    except NoSummary as e:
        good, why = False, e
    pairs = und = 0
    near = [] if good else [(x, y) for x in more for y in names if abs(len(x[0]) - len(y[0])) < 4]
    for (t, c, v), (u, d, w) in [(x, y) for x in names for y in names] + near + [(y, x) for x, y in near]:
        if True:
            try:
                r = bools(N, f, [ref_of(v), ref_of(w)])
            except NoSummary as e:
                r = None
            if r is None:
                und += 1
                continue
            pairs += 1
            if r != {int(t == u)}:
                bad = True
                rep.bad("eq:%s:%s%s" % (c, d, cfg), "names of %r (by %s) and %r (by %s) compare %s" % (t, c, u, d, "equal" if t != u else "unequal" if r == {0} else "unequal in some histories"), f["span"])
    rep.count("concrete_pairs", pairs)
    if not good and not bad:
        rep.undecided(what, "%s; right on %d concrete pairs" % (why, pairs))
    g = N.fn(r"^<crate::types::name::Name as std::cmp::PartialEq>::ne$")
    for pat, wantf in ((r"^<crate::types::name::Name as std::cmp::(Partial)?Ord>::(partial_)?cmp$", "order"),):
        for o in N.fns(pat):
            for t, c, v in names:
                for u, d, w in names:
                    try:
                        outs = N.run(o, [ref_of(v), ref_of(w)])[0]
                    except NoSummary:
                        continue
                    for k, r, s in outs:
                        r = N.I.freeze(r, s) if k == "ret" else None
                        if r and r[0] == "A" and r[1].endswith("Option"):
                            r = r[3][0] if r[3] else None
                        if r and r[0] == "A" and r[1].endswith("Ordering"):
                            want = 0 if t.encode() < u.encode() else 1 if t == u else 2
                            if (r[2] == 1) != (want == 1):
                                rep.bad("ord:%s:%s%s" % (c, d, cfg), "names of %r and %r order as %s" % (t, u, ("less", "equal", "greater")[r[2]]), o["span"])


def hash_notes(N, f, v):
    out = set()
    cell = ("h", "hasher")
    outs, I = N.run(f, [ref_of(v), ("Sym", ("hasher",), None)])
    for k, r, s in outs:
        if k != "ret":
            return None
        out.add(tuple(x for x in s.notes if x[0] == "hash"))
    return out


def hash_op(rep, N, A, names, cfg):
    f = N.fn(r"^<crate::types::name::Name as std::hash::Hash>::hash$")
    if f is None:
        rep.undecided("hash of names" + cfg, "not found")
        return
    by = {}
    ok_ = True
    for t, c, v in names:
        try:
            h = hash_notes(N, f, v)
        except NoSummary as e:
            h = None
        if not h or any(not x for x in h) or any("Unk" in repr(x) for x in h):
            ok_ = False
            rep.undecided("hash of names" + cfg, "hash of a name by %s not determined" % c)
            continue
        for x in h:
            x = tuple((n[0], n[1], norm_static(A, N.I, n[2])) for n in x)
            by.setdefault(t, {}).setdefault(x, c)
    for t, hs in by.items():
        if len(hs) > 1:
            ok_ = False
            rep.bad("hash" + cfg, "names of %r hash differently when made by %s" % (t, " and ".join(sorted(set(hs.values())))), f["span"], hashed=[repr(x) for x in hs])
    for t, hs in by.items():
        for x in hs:
            if t and ("S", t) not in [n[2] for n in x]:
                ok_ = False
                rep.undecided("hash of names" + cfg, "what is hashed is not recognised as the text")
                break
    if ok_ and by:
        rep.ok("hash of names" + cfg, "the reported text alone is hashed, for each representation")


def norm_static(A, I, v):
    if isinstance(v, tuple) and v[:1] == ("Static",):
        t = A.static_text(I, v[1])
        if t is not None:
            return ("S", t)
    if isinstance(v, tuple) and v[:1] == ("R",) and isinstance(v[1], tuple) and v[1][:1] == ("val",):
        return norm_static(A, I, v[1][1])
    return v


def text_ops(rep, N, A, F, names, texts, cfg, near=(), more=()):
    for f in N.fns(r"^<crate::types::name::Name as std::cmp::PartialEq<(&?str|std::string::String)>>::eq$"):
        what = contract.norm(f["path"]) + cfg
        n = und = 0
        bad = False
        refs = 2 if F.tys[F.tys[f["inputs"][1]]["e"]]["k"] == "ref" else 1
        for t, c, v in names:
            for u in texts + [x for x in near if t and t in x and len(x) < len(t) + 4]:
                try:
                    r = bools(N, f, [ref_of(v), ref_of(("S", u), refs)])
                except NoSummary:
                    r = None
                if r is None:
                    und += 1
                    continue
                n += 1
                if r != {int(t == u)} and not bad:
                    bad = True
                    rep.bad("%s:%s" % (what, c), "%s: name of %r (by %s) and text %r compare %s" % (what, t, c, u, "equal" if t != u else "unequal"), f["span"])
        if not bad and n and not und:
            sym = False
            try:
                nt = F.peel(f["inputs"][0])
                a, b = ("Sym", ("arg", 0), nt), ("Sym", ("arg", 1), F.peel(f["inputs"][1]))
                sym = True
                for k, r, s in N.run(f, [ref_of(a), ref_of(b, refs)])[0]:
                    ta = N.text_of(a, s)
                    x, y = sorted((list(ta)[0], N.I.canon(b, s)), key=repr)
                    r = N.I.canon(r, s) if k == "ret" else None
                    if len(ta) != 1 or r != ("Sym", ("streq", x, y)):
                        sym = False
            except NoSummary:
                sym = False
            if sym:
                rep.ok(what, "equality of the reported text with the given one")
            else:
                rep.undecided(what, "right on %d concrete pairs" % n)
        elif not bad:
            rep.undecided(what, "not determined on %d of %d pairs" % (und, n + und))
    for name, want in (("is_empty", lambda t: int(t == "")), ("len", len)):
        f = N.fn(r"^crate::types::name::Name::%s$" % name)
        if f is None:
            continue
        n = und = 0
        bad = False
        for t, c, v in names + list(more):
            try:
                r = bools(N, f, [ref_of(v)])
            except NoSummary:
                r = None
            if r is None:
                und += 1
                continue
            n += 1
            if r != {want(t)} and not bad:
                bad = True
                rep.bad("%s:%s%s" % (name, c, cfg), "Name::%s of the name of %r (by %s) is %s, not %s" % (name, t, c, sorted(r), want(t)), f["span"])
        if not bad:
            (rep.ok if n and not und else rep.undecided)("Name::%s%s" % (name, cfg), "right for %d concrete names of every constructor%s" % (n, "; %d not determined" % und if und else ""))


def C15(ctx, rep):
    import p_number

    p_number.C15(ctx, rep)


def C18(ctx, rep):
    import p_empty

    p_empty.C18(ctx, rep, api)


def C14(ctx, rep):
    import p_lock

    texts = [t for t in TEXTS if len(t) < 50] + sorted(literals(ctx.F, "types/name.rs"))[:10]
    p_lock.C14(ctx, rep, api, list(dict.fromkeys(texts)))


def C19(ctx, rep):
    import p_eq

    p_eq.C19(ctx, rep, api)
