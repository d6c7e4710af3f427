"""Identity testing of extracted terms.

A decode-after-encode term is compared with the encoded component as a function over the reals:
rounding to the stored grid (float to integer conversion) is the identity, widths and casts do not
round. Two terms are taken to be the same function when they agree on many random points that
satisfy the path condition of the term. Nothing of the analysed program is executed: the terms are
the ones the analysis derived from the source."""
import math
import random
from .terms import *
from .values import *

NAN = float("nan")


class NoValue(Exception):
    pass


class Point:
    def __init__(self, seed, leaf):
        self.rnd = random.Random(seed)
        self.leaf = leaf
        self.memo = {}

    def lin(self, l):
        r = float(l.c) if not l.t else l.c
        for a, k in l.t:
            r += k * self.atom(a)
        return r

    def ev(self, x):
        if isinstance(x, Lin):
            return self.lin(x)
        if isinstance(x, B):
            return 1.0 if self.holds(x) else 0.0
        return self.atom(x)

    def atom(self, a):
        v = self.memo.get(a)
        if v is None:
            v = self.leaf(self, a)
            if v is None:
                v = self.compute(a)
            self.memo[a] = v
        return v

    def compute(self, a):
        k = a.key
        op = k[0]
        f = OPS.get(op)
        if f is not None:
            return f(self, k, a)
        raise NoValue(op)

    def holds(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b.op == "lit":
            a, pol = b.x
            return self.bool(a) == pol
        if b.op == "and":
            return all(self.holds(y) for y in b.x)
        if b.op == "or":
            return any(self.holds(y) for y in b.x)
        v = self.lin(b.x)
        return {"le": v <= 1e-9, "eq": abs(v) < 1e-9, "ne": abs(v) > 1e-9}[b.op]

    def bool(self, a):
        k = a.key
        op = k[0]
        if op in ("flt", "fle", "feq"):
            x, y = self.ev(k[1]), self.ev(k[2])
            return {"flt": x < y, "fle": x <= y, "feq": x == y}[op]
        if op == "is_nan":
            v = self.ev(k[1])
            return v != v
        if op in ("is_finite", "is_normal"):
            return math.isfinite(self.ev(k[1]))
        if op == "is_infinite":
            return math.isinf(self.ev(k[1]))
        if op == "is_sign_negative":
            return math.copysign(1, self.ev(k[1])) < 0
        if op == "is_sign_positive":
            return math.copysign(1, self.ev(k[1])) > 0
        raise NoValue(op)


def _b(f):
    def g(p, k, a):
        try:
            return f(*[p.ev(x) for x in k[1:1 + f.__code__.co_argcount]])
        except (ZeroDivisionError, ValueError, OverflowError):
            return NAN
    return g


def _div(x, y):
    if y == 0:
        return NAN if x == 0 or x != x else math.copysign(math.inf, x)
    return x / y


def _f2i(p, k, a):
    x = p.ev(k[1])
    if x != x:
        return 0.0
    lo = k[2] if len(k) > 2 and not isinstance(k[2], (Lin, Atom)) else -math.inf
    hi = k[3] if len(k) > 3 and not isinstance(k[3], (Lin, Atom)) else math.inf
    return min(max(x, float(lo)), float(hi))


def _clz(p, k, a):
    v = int(p.ev(k[1]))
    return float(k[2] - v.bit_length())


OPS = {
    "fadd": _b(lambda x, y: x + y), "fsub": _b(lambda x, y: x - y), "fmul": _b(lambda x, y: x * y),
    "fdiv": _b(_div), "frem": _b(lambda x, y: math.fmod(x, y)), "fneg": _b(lambda x: -x),
    "fconst": lambda p, k, a: float(k[1]), "fnan": lambda p, k, a: NAN, "fnegzero": lambda p, k, a: -0.0,
    "fcast": _b(lambda x: x), "i2f": _b(lambda x: x), "f2i": _f2i,
    "fmin": _b(lambda x, y: min(x, y) if x == x and y == y else (y if x != x else x)),
    "fmax": _b(lambda x, y: max(x, y) if x == x and y == y else (y if x != x else x)),
    "fabs": _b(lambda x: abs(x)), "fsqrt": _b(lambda x: math.sqrt(x)),
    "fceil": _b(lambda x: float(math.ceil(x))), "ffloor": _b(lambda x: float(math.floor(x))),
    "fround": _b(lambda x: x), "ftrunc": _b(lambda x: x),
    "flog2": _b(lambda x: math.log2(x)), "fln": _b(lambda x: math.log(x)), "flog10": _b(lambda x: math.log10(x)),
    "fexp": _b(lambda x: math.exp(x)), "fexp2": _b(lambda x: 2.0 ** x),
    "facos": _b(lambda x: math.acos(x)), "fasin": _b(lambda x: math.asin(x)),
    "fsin": _b(lambda x: math.sin(x)), "fcos": _b(lambda x: math.cos(x)), "ftan": _b(lambda x: math.tan(x)),
    "fatan2": _b(lambda x, y: math.atan2(x, y)), "fpowi": _b(lambda x, y: x ** int(y)), "fpowf": _b(lambda x, y: x ** y),
    "fcopysign": _b(lambda x, y: math.copysign(x, y)), "fhypot": _b(lambda x, y: math.hypot(x, y)),
    "frecip": _b(lambda x: _div(1.0, x)), "fto_radians": _b(lambda x: math.radians(x)), "fto_degrees": _b(lambda x: math.degrees(x)),
    "fsignum": _b(lambda x: math.copysign(1.0, x)),
    "pow2": _b(lambda x: 2.0 ** x), "mul": _b(lambda x, y: x * y),
    "imin": _b(lambda x, y: min(x, y)), "imax": _b(lambda x, y: max(x, y)),
    "div": _b(lambda x, y: x // y), "divv": _b(lambda x, y: x // y), "remv": _b(lambda x, y: x % y),
    "clz": _clz, "b2i": lambda p, k, a: 1.0 if p.bool(k[1]) else 0.0,
    "wrap": lambda p, k, a: p.ev(k[1]),
}


def same_function(x, y, guards, leaf, points=24, tries=4000, tol=1e-5):
    """True: agrees on all sampled points; (False, (x, y)): differs; None: nothing could be evaluated"""
    n = 0
    worst = 0.0
    for seed in range(tries):
        p = Point(seed, leaf)
        try:
            if not all(p.holds(g) for g in guards):
                continue
            a, b = p.ev(x), p.ev(y)
        except NoValue as ex:
            return None, f"no value for {ex}"
        if b != b or abs(b) == math.inf:
            continue
        n += 1
        if a != a or abs(a - b) > tol * max(1.0, abs(b)):
            return False, f"decodes to {a:.6g} where {b:.6g} was encoded"
        if n >= points:
            return True, ""
    if n >= 3:
        return True, ""
    return None, f"only {n} sample points satisfy the path condition"
