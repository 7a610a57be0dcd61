"""Locks of the crate: where they are taken, what runs while they are held (MIR dataflow over guards, closed over the call graph)."""
import re

GUARD = re.compile(r"(MutexGuard|RwLockReadGuard|RwLockWriteGuard|ReentrantLockGuard|RefMut|MappedMutexGuard)$")
LOCKS = re.compile(r"std::sync::(poison::)?(mutex::|rwlock::)?(Mutex|RwLock|ReentrantLock)::<[^>]*>::(lock|read|write|try_lock|try_read|try_write)$")


def callee(t):
    f = t[1]
    if f[0] in ("k", "const") or (isinstance(f, (list, tuple)) and len(f) > 1 and isinstance(f[1], dict) and f[1].get("c") == "fn"):
        k = f[1]
        if isinstance(k, dict) and k.get("c") == "fn":
            return k["fn"]
    return None


class Locks:
    def __init__(self, F):
        self.F = F
        self.memo_guard = {}
        self.reach_memo = {}

    def has_guard(self, ty, depth=0):
        """does a value of this type hold a lock"""
        if ty in self.memo_guard:
            return self.memo_guard[ty]
        self.memo_guard[ty] = False
        t = self.F.tys[ty]
        r = False
        if t["k"] == "adt":
            r = bool(GUARD.search(t["def"])) or any(isinstance(a, int) and self.has_guard(a) for a in t.get("args", ()))
        elif t["k"] == "tuple":
            r = any(self.has_guard(a) for a in t.get("e", ()) if isinstance(a, int)) if isinstance(t.get("e"), (list, tuple)) else False
        self.memo_guard[ty] = r
        return r

    def is_lock(self, fn):
        p = fn.get("rpath") or fn["path"]
        return bool(re.search(r"(Mutex|RwLock|ReentrantLock)::<.*>::(lock|read|write|try_lock|try_read|try_write)$", p))

    def calls(self, ix):
        """calls of a body: (callee, terminator, block)"""
        for bi, b in enumerate(self.F.bodies[ix]["bbs"]):
            if b.get("cleanup"):
                continue
            t = b["t"]
            if t[0] == "call":
                yield callee(t), t, bi

    def closures(self, ix):
        """bodies of closures made or named in a body"""
        out = set()

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "closure" and x.get("inst") is not None:
                    out.add(x["inst"])
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)

        walk(self.F.bodies[ix]["bbs"])
        for t in self.F.bodies[ix]["locals"]:
            ty = self.F.tys[t]
            if ty["k"] == "closure" and ty.get("inst") is not None:
                out.add(ty["inst"])
        return out

    def reaches(self, ix, seen=None):
        """what running a body may do: set of ("lock", path) and ("caller", path)"""
        if ix in self.reach_memo:
            return self.reach_memo[ix]
        seen = set() if seen is None else seen
        if ix in seen:
            return set()
        seen.add(ix)
        out = set()
        for fn, t, bi in self.calls(ix):
            out |= self.does(fn, seen)
        if len(seen) == 1:
            self.reach_memo[ix] = out
        return out

    def does(self, fn, seen=None):
        seen = set() if seen is None else seen
        if fn is None:
            return {("indirect", "a function value")}
        out = set()
        if self.is_lock(fn):
            out.add(("lock", fn.get("rpath") or fn["path"]))
        if "trait" in fn and "rpath" not in fn and "inst" not in fn:
            out.add(("caller", fn["path"]))
        if fn.get("inst") is not None:
            out |= self.reaches(fn["inst"], seen)
        for a in list(fn.get("args", ())) + list(fn.get("rargs", ())):
            t = self.F.tys[a] if isinstance(a, int) else {"k": ""}
            if t["k"] == "closure" and t.get("inst") is not None:
                out |= self.reaches(t["inst"], seen)
            elif t["k"] == "fndef" and isinstance(t.get("fn"), dict) and t["fn"] is not fn:
                f2 = t["fn"]
                if self.is_lock(f2):
                    out.add(("lock", f2["path"]))
                elif f2.get("inst") is not None:
                    out |= self.reaches(f2["inst"], seen)
                elif "trait" in f2 and "rpath" not in f2:
                    out.add(("caller", f2["path"]))
        return out

    def sections(self):
        """(body, call, what it may do) for each call made while a guard is held"""
        for ix, b in enumerate(self.F.bodies):
            if not b.get("local"):
                continue
            gl = {i for i, t in enumerate(b["locals"]) if self.has_guard(t)}
            if not gl:
                continue
            n = len(b["bbs"])
            state = {0: frozenset(i for i in gl if 1 <= i <= b["argc"])}
            work = [0]
            held_at = {}
            while work:
                i = work.pop()
                bb = b["bbs"][i]
                if bb.get("cleanup"):
                    continue
                h = set(state[i])
                for s in bb["s"]:
                    if s[0] == "=":
                        self.moves(s[2], h)
                        if s[1][0] in gl and len(s[1]) == 1 and self.mentions_guard(s[2], gl):
                            h.add(s[1][0])
                t = bb["t"]
                held_at[i] = frozenset(h)
                succ = []
                if t[0] == "goto":
                    succ = [t[1]]
                elif t[0] == "switch":
                    succ = [x[1] for x in t[2]] + [t[3]]
                elif t[0] == "drop":
                    if len(t[1]) == 1:
                        h.discard(t[1][0])
                    succ = [t[2]]
                elif t[0] == "call":
                    took = set()
                    for a in t[2]:
                        if a[0] == "mv" and len(a[1]) == 1 and a[1][0] in h:
                            took.add(a[1][0])
                    h -= took
                    # what a call is handed by value is no longer held here, unless it hands a guard back
                    held_at[i] = frozenset(held_at[i] - (took if not self.has_guard(b["locals"][t[3][0]]) else took))
                    if t[3][0] in gl and len(t[3]) == 1:
                        h.add(t[3][0])
                    if t[4] is not None:
                        succ = [t[4]]
                elif t[0] == "assert":
                    succ = [t[4]]
                for j in succ:
                    j = int(j)
                    new = state.get(j, frozenset()) | h
                    if j not in state or new != state[j]:
                        state[j] = frozenset(new)
                        work.append(j)
            for i, h in held_at.items():
                t = b["bbs"][i]["t"]
                if h and t[0] == "call":
                    yield ix, t, callee(t), h
                elif h and t[0] == "drop" and t[1][0] not in h and self.F.tys[t[3]]["k"] == "param":
                    yield ix, t, {"path": "drop of a caller's value", "trait": "Drop"}, h

    def moves(self, r, h):
        def walk(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == "mv" and isinstance(x[1], list) and len(x[1]) == 1 and x[1][0] in h:
                    h.discard(x[1][0])
                for y in x:
                    walk(y)

        walk(r)

    def mentions_guard(self, r, gl):
        found = []

        def walk(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == "mv" and isinstance(x[1], list) and x[1] and x[1][0] in gl:
                    found.append(x)
                for y in x:
                    walk(y)

        walk(r)
        return bool(found)
