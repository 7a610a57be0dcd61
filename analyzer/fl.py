"""Concrete floating-point values: ("Fl", width, bits)."""
import ctypes, math, re, struct


def py(v):
    return struct.unpack("<f", struct.pack("<I", v[2]))[0] if v[1] == 32 else struct.unpack("<d", struct.pack("<Q", v[2]))[0]


def mk(w, x):
    if w == 32:
        return ("Fl", 32, struct.unpack("<I", bytes(ctypes.c_float(x)))[0])
    return ("Fl", 64, struct.unpack("<Q", struct.pack("<d", x))[0])


def convert(v, w):
    return v if v[1] == w else mk(w, py(v))


def width(t):
    return {"f32": 32, "f64": 64}.get(t["s"]) if t["k"] == "float" else None


def binop(op, a, b):
    w = a[1] if a[0] == "Fl" else b[1]
    a, b = (x if x[0] == "Fl" else ("Fl", w, x[1]) for x in (a, b))
    x, y = py(a), py(b)
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        return ("K", int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]))
    try:
        r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x / y, "Rem": lambda: math.fmod(x, y)}[op]()
    except ZeroDivisionError:
        r = math.nan if x == 0 or math.isnan(x) else math.copysign(math.inf, x) * math.copysign(1, y)
    except (ValueError, OverflowError):
        r = math.nan
    except KeyError:
        return None
    return mk(w, r)


def cmp(a, b):
    x, y = py(a), py(b)
    return None if x != x or y != y else 0 if x < y else 1 if x == y else 2


def total(v):
    n = v[1]
    return v[2] if not v[2] >> (n - 1) else -(v[2] & ((1 << (n - 1)) - 1)) - 1


def call(name, args):
    """a method of f32/f64 on concrete values -> value, or None"""
    a = args[0]
    x = py(a)
    w = a[1]
    eb, mb = (8, 23) if w == 32 else (11, 52)
    if name == "is_finite":
        return ("K", int(math.isfinite(x)))
    if name == "is_nan":
        return ("K", int(math.isnan(x)))
    if name == "is_infinite":
        return ("K", int(math.isinf(x)))
    if name in ("is_sign_negative", "is_sign_positive"):
        return ("K", (a[2] >> (w - 1)) if name == "is_sign_negative" else 1 - (a[2] >> (w - 1)))
    if name == "is_normal":
        e = (a[2] >> mb) & ((1 << eb) - 1)
        return ("K", int(0 < e < (1 << eb) - 1))
    if name == "is_subnormal":
        e = (a[2] >> mb) & ((1 << eb) - 1)
        return ("K", int(e == 0 and a[2] & ((1 << mb) - 1) != 0))
    if name == "to_bits":
        return ("K", a[2])
    if name == "abs":
        return ("Fl", w, a[2] & ((1 << (w - 1)) - 1))
    if name in ("floor", "ceil", "trunc", "round"):
        if not math.isfinite(x):
            return a
        r = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda v: math.copysign(math.floor(abs(v) + 0.5), v)}[name](x)
        return mk(w, math.copysign(float(r), x))
    if name == "total_cmp":
        p, q = total(a), total(args[1])
        return ("A", "std::cmp::Ordering", 0 if p < q else 1 if p == q else 2, ())
    if name in ("max", "min"):
        y = py(args[1])
        if math.isnan(x):
            return args[1]
        if math.isnan(y):
            return a
        return (args[1] if (y > x) == (name == "max") and x != y else a)
    if name == "clamp" and len(args) == 3:
        lo, hi = py(args[1]), py(args[2])
        return args[1] if x < lo else args[2] if x > hi else a
    if name == "copysign":
        return mk(w, math.copysign(x, py(args[1])))
    if name == "signum":
        return mk(w, math.nan if math.isnan(x) else math.copysign(1.0, x))
    return None


TEXT = re.compile(r"[+-]?(inf|infinity|nan|(\d+\.?\d*|\.\d+)(e[+-]?\d+)?)$", re.I)


def parse(w, s):
    """str::parse::<f32/f64> -> value or None"""
    if not TEXT.match(s) or not s.isascii():
        return None
    return mk(w, float(s))
