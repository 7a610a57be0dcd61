"""Deterministic matching of extracted (PEG) chains on character strings: used to decide facts about the
lexical layer (token languages, layout languages) over a finite partition of the alphabet."""
import itertools, re


def in_class(cs, c):
    if cs[0] == "in":
        return c in cs[1]
    if cs[0] == "not":
        return c not in cs[1]
    return c in cs[1] or ord(c) > 127


class Opaque(Exception):
    pass


def match_alts(chains, s, i, res=None, depth=0):
    """first matching chain (their negations make them exclusive); -> end or None"""
    for c in chains:
        e = match(c, s, i, res, depth)
        if e is not None:
            return e
    return None


def match(chain, s, i, res=None, depth=0):
    if depth > 400:
        raise Opaque("depth")
    n = len(s)
    for it in chain:
        k, d = it[0], it[1]
        if k == "lit":
            t, ci = d
            seg = s[i : i + len(t)]
            if (seg.lower() == t.lower()) if ci else (seg == t):
                i += len(t)
            else:
                return None
        elif k == "cls":
            cs, lo, hi = d
            j = i
            while j < n and (hi is None or j - i < hi) and in_class(cs, s[j]):
                j += 1
            if j - i < lo:
                return None
            i = j
        elif k == "gap":
            e = match_alts(d, s, i, res, depth + 1)
            if e is None:
                return None
            i = e
        elif k == "star":
            bodies, lo, hi = d
            cnt = 0
            while hi is None or cnt < hi:
                e = match_alts([b[0] for b in bodies], s, i, res, depth + 1)
                if e is None or e == i:
                    break
                i = e
                cnt += 1
            if cnt < lo:
                return None
        elif k == "neg":
            if match_alts(d, s, i, res, depth + 1) is not None:
                return None
        elif k == "peek":
            if match_alts(d, s, i, res, depth + 1) is None:
                return None
        elif k == "eof":
            if i != n:
                return None
        elif k == "num":
            m = re.compile(NUMRE.get(d, r"\d+")).match(s, i)
            if not m or m.end() == i:
                return None
            i = m.end()
        elif k == "guard":
            for kk, vv in d:
                if kk[0] in ("finite",) and vv == 1:
                    continue
                raise Opaque("guard")
        elif k == "nt" and res is not None:
            e = res(d, s, i, depth + 1)
            if e is None:
                return None
            i = e
        else:
            raise Opaque(k)
    return i


# what nom's number parsers take from the front of a text (a malformed exponent is an unrecoverable failure there)
FLOATRE = r"[+-]?(?>\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+|(?![eE]))|(?i:nan|inf)"
FLOATFAIL = r"[+-]?(?>\d+(?:\.\d*)?|\.\d+)[eE](?![+-]?\d)"
NUMRE = {
    "f32": FLOATRE,
    "f64": FLOATRE,
    "u64": r"\d+", "u32": r"\d+", "u8": r"\d+", "u16": r"\d+", "u128": r"\d+",
    "i64": r"[+-]?\d+", "i32": r"[+-]?\d+",
}
STDFLOAT = re.compile(r"[+-]?(?:(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?|(?i:nan|infinity|inf))")


def std_parses(ty, t):
    """does str::parse::<ty> accept the text?"""
    if ty in ("f32", "f64"):
        return STDFLOAT.fullmatch(t) is not None
    m = re.fullmatch(r"([ui])(\d+|size)", ty)
    if m:
        w = 64 if m[2] == "size" else int(m[2])
        if not re.fullmatch(r"[+-]?[0-9]+" if m[1] == "i" else r"\+?[0-9]+", t):
            return False
        v = int(t)
        return 0 <= v < 1 << w if m[1] == "u" else -(1 << w - 1) <= v < 1 << w - 1
    raise Opaque("parse of " + ty)


LANG = {"decimal": re.compile(r"\d+(\.\d*)?|\.\d+")}


def words(alpha, n):
    for k in range(n + 1):
        for w in itertools.product(alpha, repeat=k):
            yield "".join(w)


def subset(chain, lang):
    """every text up to the bound that the chain matches entirely is in the language"""
    hit = False
    try:
        for w in words("07.-+eax ", 5):
            if w and match(chain, w, 0) == len(w):
                hit = True
                if not LANG[lang].fullmatch(w):
                    return False
    except Opaque:
        return False
    return hit
