"""Probe texts: chosen from the constants the analysed code itself mentions, so that a special case in the code has a text that reaches it."""

COMMON = [" ", "\t", "\n", "\r", "\0", ":", "-", "_", "(", ")", ";", "?", "x", "X", "0", ".", "\u00e9", "\u00a0", "\ufeff"]


def consts(F, *files):
    """(strings, characters, small numbers) the bodies of some source files mention"""
    ss, cs, ns = set(), set(), set()
    ks = {i: t["k"] + ":" + t.get("s", "") for i, t in enumerate(F.tys) if t["k"] in ("char", "uint", "int")}

    def num(v, ty):
        k = ks.get(ty, "")
        try:
            v = int(v)
        except (TypeError, ValueError):
            return
        if k.startswith("char") and v < 0x110000 and not 0xD800 <= v < 0xE000:
            cs.add(chr(v))
        elif k == "uint:u8" and 0 <= v < 128:
            cs.add(chr(v))
        elif k == "uint:usize" and 2 <= v <= 4096:
            ns.add(v)

    def walk(x):
        if isinstance(x, dict):
            if x.get("c") == "str" and isinstance(x.get("v"), str):
                ss.add(x["v"])
            elif x.get("c") == "int":
                num(x.get("v"), x.get("ty"))
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            if x and x[0] == "switch" and len(x) > 4:
                for v in x[2]:
                    num(v[0], x[4])
            elif x and x[0] == "switch":
                for v in x[2]:
                    try:
                        n = int(v[0])
                    except (TypeError, ValueError, IndexError):
                        continue
                    if 9 <= n < 127:
                        cs.add(chr(n))
            for y in x:
                walk(y)

    for b in F.bodies:
        if any(f in str(b.get("span")) for f in files):
            walk(b["bbs"])
    return {s for s in ss if len(s) < 40}, cs, ns


def around(words, chars=()):
    """texts close to each word: a character more, less, or other, on either side"""
    out = dict.fromkeys(words)
    for w in words:
        for c in list(chars) + COMMON:
            for t in (w + c, c + w, w + c + c, c + w + c, w + c + "x", w + " " + c):
                out[t] = None
        for t in (w.upper(), w.lower(), w.capitalize(), w.swapcase(), w[:-1], w[1:], w.lstrip(":"), w + w, w.replace("-", "_"), w.replace("-", ""), w + " " + w, w[::-1]):
            out[t] = None
        for c in chars:
            out[w.replace("-", c)] = None
            if len(w) > 1:
                out[w[:1] + c + w[1:]] = None
                out[w[:-1] + c] = None
                out[c + w[1:]] = None
    return list(out)


def lengths(nums, unit="x"):
    out = []
    for n in sorted(nums)[:12]:
        for d in (-1, 0, 1):
            if 0 <= n + d <= 4097:
                out.append(unit * (n + d))
    return out
