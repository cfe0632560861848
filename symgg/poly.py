"""Multivariate polynomials over Q as dict {monomial: coeff}.

monomial: tuple of (atom_id, exp>0) sorted by atom_id.  coeff: int or Fraction.
Reduction relations (s^2 -> 1-c^2, q^2 -> radicand, i.e. atom^2 -> poly) are kept in
the per-path context and applied while multiplying, so every polynomial is in normal
form with respect to them.
"""
from fractions import Fraction
from math import isqrt


class TooBig(Exception):
    pass


MAX_TERMS = 60000


def norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


ONE = {(): 1}


def const(c):
    c = norm_c(c)
    return {(): c} if c != 0 else {}


def atom(i):
    return {((i, 1),): 1}


_mono_cache = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mono_cache.get(k)
    if r is None:
        d = dict(a)
        for i, e in b:
            d[i] = d.get(i, 0) + e
        r = tuple(sorted(d.items()))
        if len(_mono_cache) > 400000:
            _mono_cache.clear()
        _mono_cache[k] = r
    return r


def add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = norm_c(v)
    return r


def scale(a, c):
    if c == 0:
        return {}
    if c == 1:
        return a
    return {m: norm_c(v * c) for m, v in a.items()}


def neg(a):
    return {m: -v for m, v in a.items()}


def sub(a, b):
    return add(a, neg(b))


def raw_mul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > 4000000:
        raise TooBig("polynomial product too large")
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            v = r.get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    if len(r) > MAX_TERMS:
        raise TooBig("polynomial too large")
    return {m: norm_c(v) for m, v in r.items() if v != 0}


def reduce(p, rel):
    """apply atom^2 -> rel[atom] until no reducible exponent is left"""
    if not rel:
        return p
    while True:
        bad = None
        for m in p:
            for i, e in m:
                if e >= 2 and i in rel:
                    # reduce the latest atom first (its radicand has older atoms only)
                    if bad is None or i > bad:
                        bad = i
        if bad is None:
            return p
        x = rel[bad]
        out = {}
        groups = {}
        for m, c in p.items():
            e = 0
            rest = m
            for j, (i, ee) in enumerate(m):
                if i == bad:
                    e = ee
                    rest = m[:j] + m[j + 1:]
                    break
            k, odd = divmod(e, 2)
            if odd:
                rest = mono_mul(rest, ((bad, 1),))
            groups.setdefault(k, {})
            g = groups[k]
            g[rest] = norm_c(g.get(rest, 0) + c)
        xp = ONE
        for k in range(max(groups) + 1):
            if k in groups:
                g = {m: c for m, c in groups[k].items() if c != 0}
                out = add(out, raw_mul(g, xp) if k else g)
            xp = raw_mul(xp, x)
            if len(xp) > 1:
                xp = reduce(xp, rel)
        p = {m: c for m, c in out.items() if c != 0}


def mul(a, b, rel):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return scale(b, a[()])
    if len(b) == 1 and () in b:
        return scale(a, b[()])
    return reduce(raw_mul(a, b), rel)


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def const_val(p):
    return p.get((), 0) if p else 0


def content(p):
    """positive rational c such that p/c has coprime integer coefficients"""
    from math import gcd
    n = 0
    d = 1
    for c in p.values():
        if type(c) is int:
            n = gcd(n, c)
        else:
            n = gcd(n, c.numerator)
            d = d * c.denominator // gcd(d, c.denominator)
    return Fraction(abs(n), d) if n else Fraction(1)


def lead(p):
    return max(p, key=mono_key)


def mono_key(m):
    # degree-lexicographic (a genuine monomial order)
    return (sum(e for _, e in m), tuple((-i, e) for i, e in m))


def _lexkey_factory(p):
    atoms = sorted({i for m in p for i, _ in m}, reverse=True)

    def key(m):
        d = dict(m)
        return tuple(d.get(i, 0) for i in atoms)

    return key, atoms


def mono_div(a, b):
    d = dict(a)
    for i, e in b:
        v = d.get(i, 0) - e
        if v < 0:
            return None
        if v == 0:
            d.pop(i, None)
        else:
            d[i] = v
    return tuple(sorted(d.items()))


def mono_gcd_all(p):
    it = iter(p)
    g = dict(next(it))
    for m in it:
        if not g:
            break
        d = dict(m)
        for i in list(g):
            e = min(g[i], d.get(i, 0))
            if e == 0:
                del g[i]
            else:
                g[i] = e
    return tuple(sorted(g.items()))


def exact_div(p, q, limit=20000):
    """p/q in Q[x] (no relations); None when not exact"""
    if not p:
        return {}
    if len(q) == 1:
        (qm, qc), = q.items()
        out = {}
        for m, c in p.items():
            r = mono_div(m, qm)
            if r is None:
                return None
            out[r] = norm_c(Fraction(c) / qc)
        return out
    atoms = sorted({i for m in p for i, _ in m} | {i for m in q for i, _ in m},
                   reverse=True)
    qa = {i for m in q for i, _ in m}
    pa = {i for m in p for i, _ in m}
    if not qa <= pa:
        return None
    idx = {a: k for k, a in enumerate(atoms)}
    n = len(atoms)

    def vec(m):
        v = [0] * n
        for i, e in m:
            v[idx[i]] = e
        return tuple(v)

    P = {vec(m): Fraction(c) for m, c in p.items()}
    Q = {vec(m): Fraction(c) for m, c in q.items()}
    ql = max(Q)
    qlc = Q[ql]
    out = {}
    import heapq
    heap = [tuple(-x for x in m) for m in P]
    heapq.heapify(heap)
    steps = 0
    while heap:
        m = tuple(-x for x in heapq.heappop(heap))
        c = P.get(m)
        if c is None or c == 0:
            P.pop(m, None)
            continue
        t = tuple(a - b for a, b in zip(m, ql))
        if min(t) < 0:
            return None
        k = c / qlc
        out[t] = out.get(t, 0) + k
        for qm, qc in Q.items():
            mm = tuple(a + b for a, b in zip(t, qm))
            v = P.get(mm)
            if v is None:
                P[mm] = -k * qc
                heapq.heappush(heap, tuple(-x for x in mm))
            else:
                P[mm] = v - k * qc
        steps += 1
        if steps > limit:
            return None
    res = {}
    for t, c in out.items():
        if c != 0:
            res[tuple(sorted((atoms[j], e) for j, e in enumerate(t) if e))] = norm_c(c)
    return res


def rat_sqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    n, d = isqrt(c.numerator), isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def poly_sqrt(p, limit=400):
    """square root in Q[x] (no relations) or None"""
    if not p:
        return {}
    atoms = sorted({i for m in p for i, _ in m}, reverse=True)
    idx = {a: k for k, a in enumerate(atoms)}
    n = len(atoms)
    for m in p:
        pass

    def vec(m):
        v = [0] * n
        for i, e in m:
            v[idx[i]] = e
        return tuple(v)

    P = {vec(m): Fraction(c) for m, c in p.items()}
    lm = max(P)
    if any(e % 2 for e in lm):
        return None
    lc = rat_sqrt(P[lm])
    if lc is None:
        return None
    tm = tuple(e // 2 for e in lm)
    # smallest monomial must be a square as well
    sm = min(P)
    if any(e % 2 for e in sm) or rat_sqrt(P[sm]) is None:
        return None
    R = {tm: lc}
    rem = dict(P)
    del rem[lm]
    steps = 0
    while rem:
        m = max(rem)
        t = tuple(a - b for a, b in zip(m, tm))
        if min(t) < 0 if t else False:
            return None
        c = rem[m] / (2 * lc)
        if t >= tm:
            return None
        # (R + c t)^2 = R^2 + 2 c t R + c^2 t^2
        for rm, rc in R.items():
            mm = tuple(a + b for a, b in zip(t, rm))
            v = rem.get(mm, 0) - 2 * c * rc
            if v == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = v
        mm = tuple(2 * a for a in t)
        v = rem.get(mm, 0) - c * c
        if v == 0:
            rem.pop(mm, None)
        else:
            rem[mm] = v
        R[t] = c
        steps += 1
        if steps > limit:
            return None
    return {tuple(sorted((atoms[j], e) for j, e in enumerate(t) if e)): norm_c(c)
            for t, c in R.items()}


def key(p):
    return frozenset(p.items())
