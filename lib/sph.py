"""Reference angular integrals, computed from the definition of the spherical harmonics (independently of the program's tables)."""
import math
from functools import lru_cache

@lru_cache(None)
def gl(n):
    """Gauss-Legendre nodes and weights"""
    out = []
    for i in range(n):
        x = math.cos(math.pi * (i + 0.75) / (n + 0.5))
        for _ in range(100):
            p0, p1 = 1.0, x
            for k in range(2, n + 1): p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            d = n * (x * p1 - p0) / (x * x - 1)
            dx = p1 / d; x -= dx
            if abs(dx) < 1e-16: break
        p0, p1 = 1.0, x
        for k in range(2, n + 1): p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
        d = n * (x * p1 - p0) / (x * x - 1)
        out.append((x, 2 / ((1 - x * x) * d * d)))
    return out
NQ = 40
@lru_cache(None)
def theta(l, m):
    """normalised associated Legendre function with the Condon-Shortley phase, Y_l^m = theta exp(i m phi)/sqrt(2 pi)"""
    if abs(m) > l: return [0.0] * NQ
    a = abs(m); out = []
    for x, _ in gl(NQ):
        s = math.sqrt(max(0.0, 1 - x * x)); p = 1.0
        for k in range(a): p *= -(2 * k + 1) * s
        q0, q1 = 0.0, p
        for k in range(a + 1, l + 1): q0, q1 = q1, ((2 * k - 1) * x * q1 - (k + a - 1) * q0) / (k - a)
        v = q1 * math.sqrt((2 * l + 1) / 2.0 * math.factorial(l - a) / math.factorial(l + a))
        out.append(v * ((-1) ** a if m < 0 else 1))
    return out
def clean(v): return 0.0 if abs(v) < 1e-13 else v
@lru_cache(None)
def gaunt(L, M, l, m, lp, mp=None):
    """int Y_L^M* Y_l^m Y_lp^mp"""
    if mp is None: mp = M - m
    if M != m + mp or abs(M) > L or abs(m) > l or abs(mp) > lp or min(L, l, lp) < 0: return 0.0
    if (L + l + lp) % 2 or lp > L + l or lp < abs(L - l): return 0.0
    return clean(sum(w * a * b * c for (x, w), a, b, c in zip(gl(NQ), theta(L, M), theta(l, m), theta(lp, mp))) / math.sqrt(2 * math.pi))
@lru_cache(None)
def yfy(lj, mj, li, mi, c, s2=0):
    """int Y_lj^mj* cos^c sin^(2 s2) Y_li^mi"""
    if mi != mj: return 0.0
    return clean(sum(w * a * b * x**c * (1 - x * x)**s2 for (x, w), a, b in zip(gl(NQ), theta(lj, mj), theta(li, mi))))
@lru_cache(None)
def ycy(lj, mj, L, M, li, mi):
    """int Y_lj^mj* cos^2 Y_L^M Y_li^mi"""
    if mj != M + mi: return 0.0
    return clean(sum(w * a * b * c * x * x for (x, w), a, b, c in zip(gl(NQ), theta(lj, mj), theta(L, M), theta(li, mi))) / math.sqrt(2 * math.pi))
