"""C14: the interning table under concurrency."""
import contract
from api import NoSummary
from intern import Intern
from locks import Locks


def C14(ctx, rep, api, texts):
    A = api(ctx)
    F = ctx.F
    L = Locks(F)
    N = Intern(A)
    # 1. dataflow over guards, for every function of the crate
    fine = True
    n = 0
    for ix, t, fn, h in L.sections():
        n += 1
        b = F.bodies[ix]
        where = b["span"]
        callee = (fn or {}).get("rpath") or (fn or {}).get("path") or "a function value"
        for what, p in sorted(L.does(fn)):
            if what == "lock":
                fine = False
                rep.bad("nested:%s" % contract.norm(b["path"]), "%s takes a lock (%s, through %s) while it holds one" % (contract.norm(b["path"]), p, callee), where)
            elif what == "caller":
                fine = False
                rep.bad("caller:%s:%s" % (contract.norm(b["path"]), p), "%s runs code of the caller (%s, through %s) while it holds a lock" % (contract.norm(b["path"]), p, callee), where)
            else:
                rep.undecided("calls under the lock", "%s calls %s" % (b["path"], p))
    rep.count("calls_under_a_lock", n)
    holders = {F.bodies[ix]["path"] for ix, t, fn, h in L.sections()}
    lockers = set()
    for ix, b in enumerate(F.bodies):
        if b.get("local") and any(fn is not None and L.is_lock(fn) for fn, t, bi in L.calls(ix)):
            lockers.add(b["path"])
    if fine:
        rep.ok("calls made while a lock is held", "%d calls in %s: none of them takes a lock or runs the caller's code" % (n, sorted(holders)))
    # 2. every path of every constructor: one critical section around lookup and insertion
    seen = set()
    ctors = N.ctors()
    if not ctors:
        rep.undecided("constructors", "none found")
    for f in ctors:
        what = contract.norm(f["path"])
        try:
            outs, I = N.run(f, [("Sym", ("arg", 0), f["inputs"][0])])
        except NoSummary as e:
            rep.undecided(what, e)
            continue
        good = True
        for k, v, s in outs:
            rep.count("constructor_paths")
            good &= path(rep, N, what, f, k, v, s)
        if good:
            rep.ok(what, "on each of %d paths at most one critical section, holding lookup and insertion at the position looked up; nothing in it can panic" % len(outs))
    for p in sorted(lockers):
        base = p.split("::{closure")[0]
        if not any(base.startswith("crate::types::name::Name::new") or c["path"] == base for c in ctors):
            rep.undecided("other users of the lock", p)
    # 3. the order the table is kept in: one total order of texts, equal only for equal texts
    order(rep, N, ctors, texts)
    rep.explanation = ("A dataflow over lock guards finds every call made while a lock is held and, over the call graph, whether it can take a lock or run code of the caller (generic trait calls). "
                       "Every path of every constructor of names is interpreted on an arbitrary text and table: lookup and insertion must lie in one critical section, the insertion must go to the position "
                       "that very lookup returned, and no path may panic while holding the lock. The order used by the lookups is evaluated on all pairs and triples of sample texts.")
    rep.assumptions += ["std::sync::Mutex and slice::binary_search_by behave as documented", "allocation failure aborts (it does not unwind)"]


def path(rep, N, what, f, k, v, s):
    good = True
    held = []  # open sections
    section = 0
    srch = {}  # search number -> section it ran in
    full = []  # searches through all entries that found nothing
    for x in s.notes:
        if x[0] == "lock":
            if held:
                rep.bad("nested:" + what, "%s takes the lock of %s while holding one" % (what, x[1].rsplit("::", 1)[-1]), f["span"])
                good = False
            held.append(x[2])
            section += 1
        elif x[0] == "unlock":
            if x[2] in held:
                held.remove(x[2])
        elif x[0] == "caller":
            if held or True:
                rep.bad("caller:%s:%s" % (what, x[1]), "%s runs code of the caller (%s) while it holds the lock" % (what, x[1]), f["span"])
                good = False
        elif x[0] == "search":
            srch[x[1]] = section if held else None
            if x[4:] == ("all",) and x[2] == "miss":
                full.append(x[1])
        elif x[0] == "insert":
            if not held:
                rep.bad("unlocked:" + what, "%s inserts into the table without holding the lock" % what, f["span"])
                good = False
            elif x[1][0] == "elsewhere" and stale(x[1][1], srch, section):
                rep.bad("gap:" + what, "%s inserts at a position looked up in an earlier critical section: another thread may have inserted in between" % what, f["span"])
                good = False
            elif x[1][0] == "elsewhere" and not plain_pos(x[1][1]):
                rep.undecided(what, "inserts at a position not understood: %s" % (x[1][1],))
                good = False
            elif x[1][0] == "end" and full and not N.sorted:
                if srch.get(full[-1]) != section:
                    rep.bad("gap:" + what, "%s adds a text looked up in an earlier critical section: another thread may have added it in between" % what, f["span"])
                    good = False
            elif x[1][0] != "pos":
                rep.bad("position:" + what, "%s inserts at a position (%s) no lookup gave: the table does not stay sorted" % (what, x[1][0]), f["span"])
                good = False
            elif srch.get(x[1][1]) != section:
                rep.bad("gap:" + what, "%s inserts at a position looked up in an earlier critical section: another thread may have inserted in between" % what, f["span"])
                good = False
            elif x[1][2] == "hit":
                rep.bad("twice:" + what, "%s inserts a text the lookup found" % what, f["span"])
                good = False
    if k == "panic":
        if held:
            rep.bad("panic:" + what, "%s can panic while it holds the lock (%s): every later creation fails" % (what, v), f["span"])
            good = False
    elif k != "ret":
        rep.undecided(what, "path not understood: %s" % (v,))
        good = False
    elif held:
        rep.bad("held:" + what, "%s returns without releasing the lock" % what, f["span"])
        good = False
    return good


def positions(t, out=None):
    out = [] if out is None else out
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "pos":
            out.append(t)
        for x in t:
            positions(x, out)
    return out


def stale(t, srch, section):
    """computed from earlier lookups only, with none in this critical section"""
    ps = positions(t)
    return bool(ps) and section not in srch.values() and all(p[1] in srch for p in ps)


def plain_pos(t):
    """a constant, the length, or arithmetic on them and on a position: not the position itself"""
    if t[0] == "K":
        return True
    if t[0] == "Sym":
        t = t[1]
    return isinstance(t, tuple) and (t[0] in ("tablen", "pos") or t[0] in ("add", "sub", "Add", "Sub") and all(x == y or plain_pos(x) for x in t[1:] for y in (x,) if isinstance(x, tuple)))


def order(rep, N, ctors, texts):
    texts = texts[:14]
    mats = {}
    for f in ctors:
        for t in texts:
            for e in texts:
                try:
                    N.entry = ("S", e)
                    outs, I = N.run(f, [("S", t)])
                except NoSummary:
                    continue
                finally:
                    N.entry = None
                for k, v, s in outs:
                    for x in s.notes:
                        if x[0] == "search" and len(x[3]) == 1 and x[3][0][:2] == ("A", "std::cmp::Ordering"):
                            mats.setdefault((contract.norm(f["path"]), x[1], x[4:] == ("all",)), {}).setdefault((t, e), set()).add(x[3][0][2] - 1)
                        elif x[0] == "insert" and x[2][0] == "S" and x[2][1] != t:
                            rep.bad("stored:" + contract.norm(f["path"]), "%s of %r stores %r" % (contract.norm(f["path"]), t, x[2][1]), f["span"])
    if not mats:
        rep.undecided("order of the table", "no lookup evaluated")
        return
    good = True
    ref = None
    n = 0
    for (c, i, eq_only), m in sorted(mats.items()):
        span = [f["span"] for f in ctors if contract.norm(f["path"]) == c][0]
        for (t, e), r in sorted(m.items()):
            n += 1
            if len(r) != 1:
                good = False
                rep.bad("order:" + c, "%s: comparing %r with the entry %r gives different answers" % (c, t, e), span)
                continue
            x = next(iter(r))
            if (x == 0) != (t == e):
                good = False
                rep.bad("order:" + c, "%s: the lookup of %r compares %s with the entry %r%s" % (c, t, "equal" if x == 0 else "unequal", e, ": the text is stored again and again" if t == e else ""), span)
            y = m.get((e, t))
            if y is not None and not eq_only and len(y) == 1 and next(iter(y)) != -x:
                good = False
                rep.bad("order:" + c, "%s: the order of %r and %r depends on which one is looked up: the table does not stay sorted" % (c, t, e), span)
        if good:
            for a in texts:
                for b in texts:
                    for d in texts:
                        if good and not eq_only and m.get((a, b)) == {-1} and m.get((b, d)) == {-1} and (a, d) in m and m[(a, d)] != {-1}:
                            good = False
                            rep.bad("order:" + c, "%s: %r, %r, %r are ordered in a circle: the table does not stay sorted" % (c, a, b, d), span)
        if ref is None:
            ref = (c, m)
        elif good:
            for k in m:
                if k in ref[1] and ref[1][k] != m[k]:
                    good = False
                    rep.bad("order:%s:%s" % (c, ref[0]), "%s and %s look the table up in different orders (%r, %r)" % (c, ref[0], k[0], k[1]), span)
                    break
    rep.count("ordered_pairs", n)
    if good:
        rep.ok("order of the table", "a total order, equal only for equal texts, the same in every lookup (%d pairs, all triples)" % n)
