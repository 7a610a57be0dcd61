"""C20-C22: properties of the crate as a whole: effects, configurations, ownership of the data types."""
import itertools
import json
import os
import re
import tomllib

import contract
import dump as dumper
from facts import Facts

LEVEL = {"C20": "proof", "C21": "proof", "C22": "proof"}

# ------------------------------------------------------------------------------------------------ C20
DENY = [
    (r"^std::io::|^std::fs::|as std::io::(Read|Write|BufRead|Seek)>|std::io::_?e?print", "performs input or output"),
    (r"^std::os::|^std::net::", "reaches the operating system"),
    (r"^std::env::", "reads the environment"),
    (r"^std::process::", "controls or observes the process"),
    (r"^std::time::(Instant|SystemTime)|std::time::(Instant|SystemTime) as", "reads a clock"),
    (r"^std::thread::LocalKey|std::thread::local|^std::thread::LocalKey", "uses thread-local state"),
    (r"^std::thread::", "depends on threads"),
    (r"^std::random::|RandomState::(new|hash_one)|RandomState as|DefaultHasher::new", "uses randomness"),
    (r"std::fmt::Pointer>?::fmt|Argument::<'_>::new_pointer", "prints an address"),
    (r"^std::panic::(set_hook|take_hook)|^std::backtrace::|^std::panic::Location::<.*>::caller", "observes the caller or the process"),
    (r"^libc::", "calls into the C library"),
]
RANDOM_OK = ("DefaultHasher::new",)  # fixed keys: deterministic
ALLOW = re.compile(
    r"^(<.* as )?&?(std|core|alloc)::(option|result|vec|string|str|slice|iter|fmt|cmp|convert|ops|clone|default|hash|boxed|sync|rc|num|mem|borrow|collections|alloc|ptr|error|array|char|any|cell|ascii|marker|"
    r"intrinsics|hint|panicking|rt|f32|f64|primitive|unicode|time::Duration|tuple|bool|pin|range|prelude|usize|u8|u16|u32|u64|u128|i8|i16|i32|i64|isize|i128)\b|^<.* as (std|core|alloc)::(?!io)|^core::|^(<.* as )?(nom|nom_locate|nom_greedyerror|lazy_static|thiserror|memchr|bytecount)::|^<(nom|nom_locate|nom_greedyerror)")
HASHED = ("std::collections::HashSet", "std::collections::HashMap", "hashbrown::HashMap", "hashbrown::HashSet")
LAZY = ("lazy_static::lazy::Lazy", "std::sync::LazyLock", "std::cell::LazyCell")
ONCE = ("std::sync::OnceLock", "std::cell::OnceCell", "std::sync::Once")
SHARED_MUT = ("std::cell::Cell", "std::cell::RefCell", "std::cell::UnsafeCell", "std::cell::OnceCell", "std::cell::LazyCell", "std::cell::SyncUnsafeCell",
              "std::sync::Mutex", "std::sync::RwLock", "std::sync::OnceLock", "std::sync::LazyLock", "std::sync::Condvar", "std::sync::Barrier", "std::sync::Once", "lazy_static::lazy::Lazy")


def is_shared_mut(d):
    return d in SHARED_MUT or d.startswith("std::sync::atomic::Atomic") or d.startswith("std::sync::mpsc") or d.startswith("std::sync::nonpoison")


def collect(body):
    """callees and statics named in a body: [(kind, callee or path, line)]"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("c") == "fn":
                out.append(("call", x["fn"]))
            elif x.get("c") == "ptr" and x.get("static"):
                out.append(("static", x["static"]))
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            if x and x[0] in ("tls", "threadlocal"):
                out.append(("tls", x))
            for y in x:
                walk(y)

    walk(body["bbs"])
    return out


def local_bodies(F):
    return [b for b in F.bodies if b.get("local")]


def C20(ctx, rep):
    F = ctx.F
    names_ = set()
    uses = {}
    for b in local_bodies(F):
        rep.count("bodies")
        bad = False
        unknown = []
        for k, x in collect(b):
            if k == "static":
                uses.setdefault(x, set()).add(b["path"])
                continue
            if k == "tls":
                bad = True
                rep.bad("tls:" + contract.norm(b["path"]), "%s uses thread-local state" % contract.norm(b["path"]), b["span"])
                continue
            rep.count("call_sites")
            ps = [p for p in (x.get("rpath"), x["path"]) if p]
            hit = None
            for p in ps:
                if any(o in p for o in RANDOM_OK):
                    continue
                for pat, why in DENY:
                    if re.search(pat, p):
                        hit = (p, why)
                        break
                if hit:
                    break
            if hit:
                bad = True
                rep.bad("effect:%s:%s" % (contract.norm(b["path"]), contract.norm(hit[0])), "%s %s (calls %s)" % (contract.norm(b["path"]), hit[1], hit[0]), b["span"])
            elif not any(ALLOW.search(p) or p.startswith(("crate::", "<crate", "<&crate")) or "crate::" in p for p in ps) and not re.match(r"^<[A-Z&]", ps[0]):
                unknown.append(ps[0])
        if hash_order(F, b, rep):
            bad = True
        if unknown:
            rep.undecided(contract.norm(b["path"]), "calls functions of unknown effect: %s" % ", ".join(sorted(set(unknown))[:3]))
        elif not bad:
            rep.ok(contract.norm(b["path"]), "calls only functions without effect")
    for s in F.statics:
        static(F, rep, s, uses)
    thread_locals(F, rep)
    try:
        R = Facts(dumper.dump(tag="release", release=True))
    except dumper.DumpError as e:
        rep.undecided("build without debug assertions", str(e)[-200:])
    else:
        behaviour(ctx, rep, F, R, "a build without debug assertions", panics=False)
    rep.explanation = ("Effect analysis over every body of the crate: each resolved callee is classified by the module it lives in (input/output, environment, clock, threads, thread-locals, randomness, addresses; "
                       "collections with random iteration order consumed in order), and every static is classified by whether its content can change: only the interning table may, and only functions of names use it.")
    rep.assumptions += ["the allowed library modules have no hidden effects", "C13/C14: the content of the interning table is not observable"]


ORDERLESS = ("any", "all", "count", "len", "contains", "sum", "product", "min", "max", "is_empty", "is_subset", "is_superset")


def hash_order(F, b, rep):
    """iteration over a randomly ordered collection whose order can reach the result"""
    calls = [x for k, x in collect(b) if k == "call"]
    it = []
    for x in calls:
        p = x.get("rpath") or x["path"]
        m = re.search(r"std::collections::Hash(Set|Map)(::)?<[^>]*>( as [\w:]+)?>?::(\w+)$|std::collections::hash_(set|map)::", p)
        if m and (m.group(4) in ("iter", "into_iter", "drain", "keys", "values", "into_keys", "into_values", "union", "intersection", "difference", "symmetric_difference", "iter_mut", "values_mut")):
            it.append(p)
        elif p.startswith("<&'a std::collections::Hash") or p.startswith("<&std::collections::Hash"):
            it.append(p)
    if not it:
        return False
    names = [(x.get("rpath") or x["path"]) for x in calls]
    last = [re.sub(r"::<.*", "", n).split("::")[-1] for n in names]
    if any(l.startswith("sort") or "BTree" in n for l, n in zip(last, names)):
        rep.undecided("order in " + contract.norm(b["path"]), "iterates over a hashed collection, sorts as well")
        return False
    # what the body makes of the sequence
    seq = False
    for l, n, x in zip(last, names, calls):
        if l in ("push", "push_str", "write_str", "write_fmt", "extend", "fold", "find", "position", "nth", "last", "chain", "zip", "insert_str"):
            seq = True
        if l in ("collect", "from_iter"):
            a = json.dumps(x.get("args", x))
            ts = [F.tys[t]["s"] for t in (x.get("targs") or []) if isinstance(t, int)]
            txt = a + " ".join(ts) + n
            if not re.search(r"Hash(Set|Map)|BTree", " ".join(ts) + n):
                seq = True
    if seq:
        rep.bad("order:" + contract.norm(b["path"]), "%s iterates over a collection in random order and keeps that order (%s)" % (contract.norm(b["path"]), contract.norm(it[0])), b["span"])
        return True
    rep.undecided("order in " + contract.norm(b["path"]), "iterates over a hashed collection")
    return False


def deep_types(F, ty, seen=None, keep=None):
    """types a value of a type consists of (fields, elements, type arguments)"""
    out = []
    seen = seen if seen is not None else set()
    todo = [(ty, ())]
    while todo:
        i, via = todo.pop()
        if i in seen or i is None:
            continue
        seen.add(i)
        t = F.tys[i]
        out.append((i, t, via))
        k = t["k"]
        if k in ("ref", "ptr", "slice", "array"):
            todo.append((t["e"], via))
        elif k == "tuple":
            todo += [(x, via) for x in t["e"]]
        elif k == "adt":
            todo += [(a, via + (t["def"],)) for a in t.get("args", ()) if isinstance(a, int)]
            ad = F.adts.get(t["def"])
            if ad is not None and ad.get("local"):
                fts = t.get("ft")
                for vi, v in enumerate(ad["variants"]):
                    for fi, f in enumerate(v["fields"]):
                        x = fts[vi][fi] if fts and vi < len(fts) and fi < len(fts[vi]) else f["ty"]
                        todo.append((x, via + ("%s.%s" % (contract.norm(t["def"]), f["name"]),)))
    return out


def static(F, rep, s, uses):
    name = contract.norm(s["path"])
    rep.count("statics")
    if s.get("tls"):
        rep.bad("static:" + name, "%s is thread-local state" % name, s["span"])
        return
    if s.get("mut"):
        rep.bad("static:" + name, "%s is a mutable static" % name, s["span"])
        return
    ts = deep_types(F, s["ty"])
    inner = [t for i, t, via in ts if t["k"] == "adt" and is_shared_mut(t["def"]) and t["def"] not in LAZY]
    lazies = [t for i, t, via in ts if t["k"] == "adt" and t["def"] in LAZY]
    if not inner:
        if s["freeze"] or lazies:
            rep.ok("static " + name, "its content never changes" + (" after its first, argument-free computation" if lazies else ""))
        else:
            rep.undecided("static " + name, "type not understood: %s" % F.tys[s["ty"]]["s"])
        return
    if all(t["def"] in ONCE for t in inner):
        # filled once: with the same value whoever comes first?
        caps = once_fillers(F, s)
        if caps is None:
            rep.bad("static:" + name, "%s is filled at run time by whoever comes first" % name, s["span"])
        else:
            rep.ok("static " + name, "computed once from nothing but constants")
        return
    users = users_of(F, s, uses)
    texts = any(t["k"] == "str" or t.get("def", "").endswith("::String") for i, t, via in ts)
    others = sorted(u for u in users if not re.search(r"types::name::|types::names?::|Name(Variant)?\b", u))
    if not users:
        rep.ok("static " + name, "never used")
    elif texts and not others:
        rep.ok("static " + name, "the table of interned texts, used by the constructors of names only (its content is not observable: C13, C14)")
    else:
        rep.bad("static:" + name, "%s keeps state between calls; used by %s" % (name, ", ".join(contract.norm(u) for u in (others or sorted(users))[:4])), s["span"])


def users_of(F, s, uses):
    out = set()
    todo = [s["path"]]
    seen = set()
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for u in uses.get(p, ()):
            m = re.match(r"^<(crate::[\w:]+) as std::ops::Deref>::deref(::.*)?$", u)
            if m and m.group(1) in F.adts and any(x["path"] == m.group(1) for x in F.statics):
                todo.append(m.group(1))
            else:
                out.add(u)
    # the lazily initialised static behind a lazy_static item
    m = re.match(r"^<(crate::[\w:]+) as std::ops::Deref>::deref::", s["path"])
    if m:
        out |= {u for u in uses.get(m.group(1), ()) if not u.startswith("<" + m.group(1))}
    return out


def once_fillers(F, s):
    """bodies filling a once-cell: None when data of a call can get in"""
    n = 0
    for b in local_bodies(F):
        cs = collect(b)
        if not any(k == "static" and x == s["path"] for k, x in cs):
            continue
        for k, x in cs:
            if k != "call":
                continue
            p = x.get("rpath") or x["path"]
            if re.search(r"Once(Lock|Cell)::<.*>::(set|try_insert|get_mut|take|into_inner)$", p):
                return None
            if re.search(r"Once(Lock|Cell)::<.*>::(get_or_init|get_or_try_init)$", p):
                n += 1
                t = closure_captures(F, b)
                if t:
                    return None
    return n


def closure_captures(F, b):
    """closures of a body which capture something"""
    out = []
    for l in b["locals"]:
        t = F.tys[l]
        if t["k"] == "closure" and (t.get("up") or t.get("upvars") or t.get("captures")):
            out.append(t)
    return out


def thread_locals(F, rep):
    for i in F.items:
        if i["kind"] == "Const" and "ty" in i:
            t = F.tys[i["ty"]]
            if t["k"] == "adt" and t["def"] == "std::thread::LocalKey":
                rep.bad("tls:" + contract.norm(i["path"]), "%s is thread-local state" % contract.norm(i["path"]), i["span"])


# ------------------------------------------------------------------------------------------------ C21
def features():
    with open(os.path.join(dumper.REPO, "Cargo.toml"), "rb") as fh:
        d = tomllib.load(fh)
    fs = dict(d.get("features", {}))
    default = fs.pop("default", [])
    deps = {}
    for sec in ("dependencies",):
        for k, v in d.get(sec, {}).items():
            if isinstance(v, dict) and v.get("optional"):
                deps[k] = v
    named = {x[4:] for vs in list(fs.values()) + [default] for x in vs if x.startswith("dep:")}
    for k in deps:
        if k not in named:
            fs.setdefault(k, [])
    return sorted(fs), default


def surface(F):
    """exported types, functions and implementations outside the parsers"""
    out = {}

    def parsing(p):
        return "parsers::" in p or "crate::parsers" in p

    for p, a in F.adts.items():
        if a.get("local") and a.get("exported") and not parsing(p):
            vis = []
            for v in a["variants"]:
                vis.append((v["name"], [(f["name"], F.tstr(f["ty"])) for f in v["fields"] if a["kind"] == "enum" or f["pub"]]))
            out["type " + contract.norm(p)] = (a["kind"], repr(vis), a.get("span"))
    for f in F.fns:
        if parsing(f["path"]):
            continue
        if f.get("exported") or f.get("trait") and not f["path"].startswith("<crate::parsers"):
            if f.get("trait") and hidden(F, f):
                continue
            sig = "(%s) -> %s%s" % (", ".join(contract.norm(F.tstr(t)) for t in f["inputs"]), contract.norm(F.tstr(f["output"])), " unsafe" if f["unsafe"] else "")
            out["fn " + contract.norm(f["path"])] = (sig, "", f["span"])
    for im in F.impls:
        if im.get("trait") and not parsing(im["path"]) and not parsing(im["trait"]):
            t = F.tys[F.peel(im["self"])]
            if t["k"] == "adt" and t["def"] in F.adts and F.adts[t["def"]].get("local") and not F.adts[t["def"]].get("exported"):
                continue
            k = "impl " + contract.norm(im["path"])
            out[k] = ("", "", im["span"])
    for i in F.items:
        if i["kind"] == "Const" and i.get("exported") and not parsing(i["path"]):
            out["const " + contract.norm(i["path"])] = (contract.norm(F.tstr(i["ty"])), "", i["span"])
    return out


def hidden(F, f):
    if "self" not in f:
        return False
    t = F.tys[F.peel(f["self"])]
    return t["k"] == "adt" and t["def"] in F.adts and F.adts[t["def"]].get("local") and not F.adts[t["def"]].get("exported")


def C21(ctx, rep):
    fs, default = features()
    if len(fs) <= 4:
        subsets = [c for n in range(len(fs) + 1) for c in itertools.combinations(fs, n)]
    else:
        subsets = [()] + [(f,) for f in fs] + [tuple(fs)] + [tuple(x for x in fs if x != f) for f in fs]
    got = {}
    try:
        ctx.F
    except dumper.DumpError as e:
        rep.undecided("default features", str(e)[-300:])
        return
    for c in subsets:
        what = "features {%s}" % ", ".join(c)
        fl = ["--no-default-features"] + (["--features", ",".join(c)] if c else [])
        try:
            G = Facts(dumper.dump(features=fl, tag="cfg-" + "-".join(c or ("none",)), target="default"))
        except dumper.DumpError as e:
            log = str(e)
            m = re.search(r"^error(\[E\d+\])?: .*$", log, re.M)
            at = re.search(r"--> (src/[\w./]+:\d+)", log)
            if m and at:
                rep.bad("build:" + "+".join(c or ("none",)), "with %s the crate does not compile: %s" % (what, m.group(0)), at.group(1), log=log[-1500:])
            else:
                rep.undecided(what, log[-300:])
            continue
        rep.count("configurations")
        rep.ok("%s: compiles" % what, "type-checked")
        got[c] = G
    full = got.get(tuple(fs)) or ctx.F
    ref = surface(full)
    rep.count("public_items", len(ref))
    for c, G in got.items():
        if G is full:
            continue
        s = surface(G)
        what = "features {%s}" % ", ".join(c)
        miss = sorted(k for k in ref if k not in s)
        more = sorted(k for k in s if k not in ref)
        diff = sorted(k for k in ref if k in s and ref[k][:2] != s[k][:2])
        for k in miss:
            rep.bad("missing:%s" % k, "with %s there is no %s" % (what, k), ref[k][2])
        for k in more:
            rep.bad("extra:%s" % k, "only with %s there is %s" % (what, k), s[k][2])
        for k in diff:
            rep.bad("differs:%s" % k, "with %s, %s is %s instead of %s" % (what, k, s[k][0], ref[k][0]), s[k][2])
        if not (miss or more or diff):
            rep.ok("%s: types, functions, implementations" % what, "%d public items outside the parsers identical" % len(s))
        behaviour(ctx, rep, full, G, what)
    rep.explanation = ("Every subset of the optional features is type-checked; the public types with variants and public fields, functions with signatures, constants and trait implementations outside the parsers are "
                       "compared with those of the full configuration; functions whose body differs between configurations are compared by their abstract summaries.")


def shape(F, b):
    """a body without numbering of types and instances"""
    memo = {}

    def ty(i):
        return F.tstr(i)

    def walk(x):
        if isinstance(x, dict):
            o = {}
            for k, v in x.items():
                if k in ("ty", "self", "e") and isinstance(v, int):
                    o[k] = ty(v)
                elif k in ("args", "targs") and isinstance(v, list):
                    o[k] = [ty(y) if isinstance(y, int) else walk(y) for y in v]
                elif k == "inst" and isinstance(v, int):
                    o[k] = F.bodies[v]["path"] if v < len(F.bodies) else None
                elif k in ("span", "line"):
                    continue
                else:
                    o[k] = walk(v)
            return o
        if isinstance(x, list):
            return [walk(y) for y in x]
        return x

    return json.dumps(walk(b["bbs"]), sort_keys=True), [ty(l) for l in b["locals"]]


def shapes(F):
    out = {}
    for b in local_bodies(F):
        if "parsers::" in b["path"]:
            continue
        out.setdefault(b["path"], []).append(shape(F, b))
    return {k: sorted(v, key=repr) for k, v in out.items()}


class Sub:
    """frame for running another property's rules on another configuration"""

    def __init__(self, F, ctx):
        self.F, self.tier, self.thorough, self._api, self._L = F, ctx.tier, False, None, None

    @property
    def L(self):
        if self._L is None:
            from lang import Lang

            self._L = Lang(self.F)
        return self._L


def behaviour(ctx, rep, F1, F2, what, panics=True):
    """functions outside the parsers behave alike in both builds; identical bodies do"""
    from api import Api, NoSummary
    import ev

    h1, h2 = shapes(F1), shapes(F2)
    differ = sorted(p for p in h1 if p in h2 and h1[p] != h2[p])
    rep.count("bodies_compared", len(h1))
    if not differ and set(h1) == set(h2):
        rep.ok("%s: behaviour" % what, "the code of all %d bodies outside the parsers is the same" % len(h1))
        return
    a1 = {contract.norm(f["path"]): f for f in F1.fns if contract.category(F1, f)}
    a2 = {contract.norm(f["path"]): f for f in F2.fns if contract.category(F2, f)}
    A1, A2 = Api(F1), Api(F2)
    same = 0
    for p in sorted(a1):
        if p not in a2:
            continue
        f1, f2 = a1[p], a2[p]
        try:
            s1 = contract.canon_summary(A1.summary(f1))
            hints = A1.hints
            s2 = contract.canon_summary(A2.summary(f2))
        except NoSummary as e:
            rep.undecided("%s: %s" % (what, p), e)
            continue
        except Exception as e:
            rep.undecided("%s: %s" % (what, p), "internal error: %r" % (e,))
            continue
        if not panics:
            # a debug assertion may reject what is outside the function's domain
            s1 = tuple(x for x in s1 if x[1] != ("PANIC",))
        rep.count("summaries_compared")
        if s1 == s2:
            same += 1
            continue
        w, tried, last = contract.witness(A1, f1, hints, s2, s1)
        if w is not None:
            rep.bad("behaves:" + p, "with %s, %s of %s gives %s instead of %s" % (what, p, ", ".join(ev.show(a) for a in w["args"]), ev.show(w["got"]), ev.show(w["want"])), f2["span"])
        elif panics or tried < 50:
            rep.undecided("%s: %s" % (what, p), "written differently, no difference found")
        else:
            same += 1
    rep.ok("%s: behaviour" % what, "%d of %d bodies are the same code; %d functions of the value types have the same summary" % (len(h1) - len(differ), len(h1), same))
    # the rules for keywords, requirements, emptiness and comparison, on the other configuration
    from core import Report
    import p_tables, p_types

    rules = [("C11", p_tables.C11), ("C12", p_tables.C12), ("C18", p_types.C18), ("C19", p_types.C19)]
    changed = " ".join(differ + sorted(set(h1) ^ set(h2)))
    if "types::name::" in changed:
        rules.append(("C13", lambda c, r: p_types.names_in(c, r, c.F, p_types.api(c), "")))
    if "types::number::" in changed:
        import p_number

        rules.append(("C15", lambda c, r: p_number.one(c, r, c.F, "")))
    for prop, run in rules:
        r1, r2 = Report(prop), Report(prop)
        try:
            run(Sub(F2, ctx), r2)
            run(Sub(F1, ctx), r1)
        except Exception as e:
            rep.undecided("%s: %s" % (what, prop), "internal error: %r" % (e,))
            continue
        old = {f["key"] for f in r1.findings}
        new = [f for f in r2.findings if f["key"] not in old]
        for f in new:
            rep.bad("behaves:%s:%s" % (prop, f["key"]), "only with %s: %s" % (what, f["msg"]), f["where"])
        got = {f["key"] for f in r2.findings}
        und = {o[0] for o in r2.obl if o[1] == "undecided"}
        for f in r1.findings:
            if f["key"] not in got and not und:
                new.append(f)
                rep.bad("behaves:%s:%s" % (prop, f["key"]), "except with %s: %s" % (what, f["msg"]), f["where"])
        if not new:
            rep.ok("%s: rules of %s" % (what, prop), "no finding that the full configuration does not have")


# ------------------------------------------------------------------------------------------------ C22
OWNING = {"std::boxed::Box", "std::vec::Vec", "std::string::String", "std::option::Option", "std::result::Result", "std::sync::Arc", "std::collections::HashSet", "std::collections::HashMap",
          "std::collections::BTreeMap", "std::collections::BTreeSet", "std::collections::VecDeque", "std::marker::PhantomData", "std::alloc::Global", "std::hash::RandomState", "std::borrow::Cow",
          "std::num::NonZero", "std::cmp::Ordering", "std::vec::IntoIter", "std::iter::Once", "std::num::ParseFloatError", "std::num::ParseIntError", "std::rc::Rc", "std::ops::Range", "std::cmp::Reverse",
          "std::array::IntoIter", "std::option::IntoIter", "std::time::Duration"}


def C22(ctx, rep):
    F = ctx.F
    n = 0
    for u in F.unsafe_blocks:
        rep.bad("unsafe:" + contract.norm(u["fn"]), "%s contains unsafe code" % contract.norm(u["fn"]), u["span"])
    for f in F.fns:
        if f.get("unsafe"):
            rep.bad("unsafe:" + contract.norm(f["path"]), "%s is unsafe" % contract.norm(f["path"]), f["span"])
    for im in F.impls:
        if im.get("unsafe") and not im["derived"]:
            rep.bad("unsafe:" + contract.norm(im["path"]), "%s is an unsafe implementation" % contract.norm(im["path"]), im["span"])
    if not F.unsafe_blocks:
        rep.ok("no unsafe code", "%d bodies, %d implementations" % (len(local_bodies(F)), len(F.impls)))
    done = set()
    for p, a in sorted(F.adts.items()):
        if not a.get("local") or not a.get("exported") or "parsers::" in p:
            continue
        n += 1
        data_type(F, rep, p, a)
    rep.count("types", n)
    outputs(F, rep)
    rep.explanation = ("For every exported data type the auto traits are computed by the compiler's trait solver (Send and Sync given Send and Sync parameters) and all parts are walked through fields, type arguments and "
                       "private types: no reference other than to constants, no raw pointer, no interior mutability. The items parsed by every Parser are checked the same way. There is no unsafe code that could subvert this.")
    rep.assumptions += ["the listed std containers own their content"]


def lifetimes(s):
    return [x for x in re.findall(r"'(\w+|\{[^}]*\})", s) if x != "static"]


def data_type(F, rep, p, a):
    name = contract.norm(p)
    au = F.auto.get(p)
    bad = False
    if au is None or au["send"] is None or au["sync"] is None:
        rep.undecided(name, "auto traits not computed")
    else:
        for t in ("send", "sync"):
            if not au[t]:
                bad = True
                rep.bad("%s:%s" % (t, name), "%s is not %s" % (name, t.capitalize()), a.get("span", ""))
    if a.get("lifetimes"):
        bad = True
        rep.bad("borrow:" + name, "%s borrows (it has a lifetime parameter)" % name, a.get("span", ""))
    und = []
    seen = set()
    for v in a["variants"]:
        for f in v["fields"]:
            for i, t, via in deep_types(F, f["ty"], seen):
                k = t["k"]
                path = ".".join((name,) + ((v["name"],) if a["kind"] == "enum" else ()) + (f["name"],) + tuple(x for x in via if "." in x))
                if k == "ref" and lifetimes(t["s"].split(" ")[0]):
                    bad = True
                    rep.bad("borrow:" + name, "%s borrows: %s" % (path, t["s"]), a.get("span", ""))
                elif k == "ptr":
                    bad = True
                    rep.bad("pointer:" + name, "%s is a raw pointer" % path, a.get("span", ""))
                elif k == "adt" and is_shared_mut(t["def"]):
                    bad = True
                    rep.bad("mutable:" + name, "%s can change under a shared reference (%s)" % (path, t["def"]), a.get("span", ""))
                elif k == "adt" and not (t["def"] in F.adts and F.adts[t["def"]].get("local")) and t["def"] not in OWNING:
                    und.append("%s: %s" % (path, t["def"]))
                elif k not in ("adt", "ref", "param", "int", "uint", "float", "bool", "str", "slice", "array", "tuple", "char", "alias", "never"):
                    und.append("%s: %s" % (path, t["s"]))
    if und:
        rep.undecided(name, "parts not understood: " + ", ".join(und[:3]))
    elif not bad:
        rep.ok(name, "owned, Send, Sync, no interior mutability: %d types of parts" % len(seen))


def outputs(F, rep):
    n = 0
    for im in F.impls:
        if not (im.get("trait") or "").startswith("crate::parsers::Parser"):
            continue
        for it in im.get("items", ()):
            if it[1] != "type":
                continue
            n += 1
            t = F.tys[it[2]]
            if lifetimes(t["s"]) or any(x["k"] == "ref" and lifetimes(x["s"].split(" ")[0]) for i, x, v in deep_types(F, it[2])):
                rep.bad("item:" + contract.norm(im["path"]), "%s parses into a value borrowing from the text: %s" % (contract.norm(im["path"]), t["s"]), im["span"])
            else:
                rep.ok(contract.norm(im["path"]), "parses into %s, which borrows nothing" % contract.norm(t["s"]))
    rep.count("parsers", n)
