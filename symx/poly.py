"""Sparse multivariate polynomials over Q, modulo a set of rewrite rules.

A monomial is a tuple of (generator id, exponent) sorted by id; a polynomial is
an immutable mapping monomial -> Fraction.  Rules (owned by a Ring) rewrite
powers of a generator (x^k -> poly) or a product of two generators
(x*y -> poly); they come from *definitions* (s = sqrt(P) gives s^2 -> P) and
from the assumptions a harness states (|d| = 1 gives dz^2 -> 1-dx^2-dy^2).
Every rewrite is therefore an equality that also appears as a constraint in the
solver query.
"""
import heapq
from fractions import Fraction

ONE = ()


def F(x):
    if type(x) is Fraction or type(x) is int:
        return x
    if isinstance(x, bool):
        return int(x)
    try:
        if isinstance(x, int):
            return int(x)
        f = float(x)
        if f == int(f) and abs(f) < 1e15:
            return int(f)
        return Fraction(repr(f))
    except (OverflowError, ValueError):
        raise


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        ga, ea = a[i]
        gb, eb = b[j]
        if ga == gb:
            out.append((ga, ea + eb))
            i += 1
            j += 1
        elif ga < gb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mono_div(a, b):
    """a / b or None"""
    if not b:
        return a
    d = dict(a)
    for g, e in b:
        ea = d.get(g, 0)
        if ea < e:
            return None
        if ea == e:
            del d[g]
        else:
            d[g] = ea - e
    return tuple(sorted(d.items()))


def mono_key(m):
    # graded lexicographic, larger generator ids first (monomials are sorted by generator id)
    return (sum([e for _, e in m]), m[::-1])


_NEG = {}


def _neg_key(m):
    """mono_key for a min-heap (monomials of equal degree are never prefixes of each other)"""
    k = _NEG.get(m)
    if k is None:
        if len(_NEG) > 500000:
            _NEG.clear()
        k = _NEG[m] = (-sum([e for _, e in m]), tuple([(-g, -e) for g, e in m[::-1]]))
    return k


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def const(self):
        return self.t.get(ONE, 0)

    def is_zero(self):
        return not self.t

    def gens(self):
        return {g for m in self.t for g, _ in m}

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.t.items()})

    def neg(self):
        return Poly({m: -v for m, v in self.t.items()})

    def add(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, v in b.items():
            w = r.get(m)
            if w is None:
                r[m] = v
            else:
                w = w + v
                if w == 0:
                    del r[m]
                else:
                    r[m] = w
        return Poly(r)

    def sub(self, o):
        return self.add(o.neg())

    def lead(self):
        m = max(self.t, key=mono_key)
        return m, self.t[m]

    def monic(self):
        """(c, p) with self = c*p and p having leading coefficient 1"""
        m, c = self.lead()
        return c, self.scale(1 / Fraction(c)) if c != 1 else self

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def mono_content(self):
        it = iter(self.t)
        c = dict(next(it))
        for m in it:
            d = dict(m)
            c = {g: min(e, d[g]) for g, e in c.items() if g in d}
            if not c:
                break
        return tuple(sorted(c.items()))

    def div_mono(self, m):
        return Poly({mono_div(k, m): v for k, v in self.t.items()})

    def is_even_pos(self):
        """syntactically a sum of even monomials with positive coefficients"""
        return bool(self.t) and all(
            v > 0 and all(e % 2 == 0 for _, e in m) for m, v in self.t.items())


ZERO = Poly({})
P1 = Poly({ONE: 1})


def pconst(c):
    return Poly({ONE: c}) if c != 0 else ZERO


def pvar(g):
    return Poly({((g, 1),): 1})


class TooBig(Exception):
    pass


class Ring:
    MAXTERMS = 6000

    def __init__(self):
        self.pow_rules = {}   # gid -> (k, Poly)
        self.pair_rules = {}  # frozenset({g1,g2}) -> Poly
        self.pair_of = {}     # gid -> [gid,...]
        self._cache = {}

    def add_pow_rule(self, g, k, p):
        self.pow_rules[g] = (k, p)
        self._cache.clear()

    def add_pair_rule(self, g1, g2, p):
        self.pair_rules[frozenset((g1, g2))] = p
        self.pair_of.setdefault(g1, []).append(g2)
        self.pair_of.setdefault(g2, []).append(g1)
        self._cache.clear()

    def _reduce_mono(self, m):
        """None if irreducible, else a fully reduced Poly"""
        try:
            return self._cache[m]
        except KeyError:
            pass
        r = None
        pr = self.pow_rules
        if pr:
            for g, e in m:
                rule = pr.get(g)
                if rule is not None and e >= rule[0]:
                    rest = mono_div(m, ((g, rule[0]),))
                    r = self.mul(Poly({rest: 1}), rule[1])
                    break
        if r is None and self.pair_rules:
            ids = [g for g, _ in m]
            for i, g in enumerate(ids):
                po = self.pair_of.get(g)
                if po:
                    for h in ids[i + 1:]:
                        if h in po:
                            rest = mono_div(m, tuple(sorted(((g, 1), (h, 1)))))
                            r = self.mul(Poly({rest: 1}), self.pair_rules[frozenset((g, h))])
                            break
                if r is not None:
                    break
        self._cache[m] = r
        return r

    def reduce(self, p):
        out = {}
        for m, v in p.t.items():
            r = self._reduce_mono(m)
            if r is None:
                w = out.get(m, 0) + v
                if w == 0:
                    out.pop(m, None)
                else:
                    out[m] = w
            else:
                for m2, v2 in r.t.items():
                    w = out.get(m2, 0) + v * v2
                    if w == 0:
                        out.pop(m2, None)
                    else:
                        out[m2] = w
        return Poly(out)

    def mul(self, a, b):
        if not a.t or not b.t:
            return ZERO
        if a.is_const():
            return b.scale(a.const())
        if b.is_const():
            return a.scale(b.const())
        if len(a.t) * len(b.t) > 400000:
            raise TooBig(f"{len(a.t)}x{len(b.t)}")
        out = {}
        for ma, va in a.t.items():
            for mb, vb in b.t.items():
                m = mono_mul(ma, mb)
                v = va * vb
                r = self._reduce_mono(m)
                if r is None:
                    w = out.get(m)
                    if w is None:
                        out[m] = v
                    else:
                        out[m] = w + v
                else:
                    for m2, v2 in r.t.items():
                        w = out.get(m2)
                        if w is None:
                            out[m2] = v * v2
                        else:
                            out[m2] = w + v * v2
        out = {m: v for m, v in out.items() if v != 0}
        if len(out) > self.MAXTERMS:
            raise TooBig(f"{len(out)} terms")
        return Poly(out)

    def power(self, p, n):
        r = P1
        b = p
        while n:
            if n & 1:
                r = self.mul(r, b)
            n >>= 1
            if n:
                b = self.mul(b, b)
        return r

    def exact_div(self, a, b, maxsteps=4000):
        """q with a == q*b (as plain polynomials), or None"""
        if b.is_const():
            return a.scale(1 / Fraction(b.const()))
        if len(b.t) > len(a.t) * 4 + 4:
            return None
        lm, lc = b.lead()
        if mono_div(min(a.t, key=mono_key), min(b.t, key=mono_key)) is None:
            return None
        q = {}
        rem = dict(a.t)
        steps = 0
        brest = [(m, v) for m, v in b.t.items() if m != lm]
        heap = [(_neg_key(m), m) for m in rem]
        heapq.heapify(heap)
        while rem:
            m = heapq.heappop(heap)[1]
            if m not in rem:
                continue
            steps += 1
            if steps > maxsteps:
                return None
            d = mono_div(m, lm)
            if d is None:
                return None
            c = rem.pop(m) / Fraction(lc)
            q[d] = q.get(d, 0) + c
            for mb, vb in brest:
                k = mono_mul(d, mb)
                w = rem.get(k)
                if w is None:
                    rem[k] = -c * vb
                    heapq.heappush(heap, (_neg_key(k), k))
                    continue
                w -= c * vb
                if w == 0:
                    del rem[k]
                else:
                    rem[k] = w
        return Poly({m: v for m, v in q.items() if v != 0})

    def psqrt(self, p):
        """plain polynomial square root or None (no rules used)"""
        if p.is_zero():
            return ZERO
        lm, lc = p.lead()
        if lc < 0 or any(e % 2 for _, e in lm):
            return None
        c = frac_sqrt(lc)
        if c is None:
            return None
        hm = tuple((g, e // 2) for g, e in lm)
        root = {hm: c}
        rem = dict(p.t)
        del rem[lm]
        steps = 0
        while rem:
            steps += 1
            if steps > 200:
                return None
            m = max(rem, key=mono_key)
            d = mono_div(m, hm)
            if d is None or mono_key(d) >= mono_key(hm):
                return None
            cc = rem[m] / Fraction(2 * c)
            # (root + cc*d)^2 - root^2 = 2*cc*d*root + cc^2 d^2
            for rm, rv in list(root.items()):
                k = mono_mul(rm, d)
                w = rem.get(k, 0) - 2 * cc * rv
                if w == 0:
                    rem.pop(k, None)
                else:
                    rem[k] = w
            k = mono_mul(d, d)
            w = rem.get(k, 0) - cc * cc
            if w == 0:
                rem.pop(k, None)
            else:
                rem[k] = w
            root[d] = root.get(d, 0) + cc
        return Poly(root)


def isqrt_exact(n):
    from math import isqrt
    r = isqrt(n)
    return r if r * r == n else None


def frac_sqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    a = isqrt_exact(c.numerator)
    b = isqrt_exact(c.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b) if b != 1 else a
