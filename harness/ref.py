"""Reference models, written from the documentation of each estimator.

They are written to be obvious rather than fast, and where there is a choice they use a different
formula from the code under test (two-pass batch statistics during burn-in, solves instead of
inverses, explicit double sums, generalized eigenproblems).  ``ok`` turns False when a step depended
on an inverse so badly conditioned that floating point does not determine the answer; comparisons
stop there.
"""

from __future__ import annotations

import math

import numpy as np
import scipy.linalg

BAD_COND = 1e7


def burn_in(r):
    return int(min(250, max(5, math.ceil(1.0 / r))))


def block_ids(p, n_blocks):
    """Contiguous near-equal blocks: the first p % n blocks have one variable more."""
    n = min(max(1, n_blocks), p)
    base, extra = divmod(p, n)
    ids = []
    for b in range(n):
        ids += [b] * (base + (1 if b < extra else 0))
    return np.array(ids, dtype=int)


def floor_eigs(a, eps=1e-8):
    a = (a + a.T) / 2
    w, v = np.linalg.eigh(a)
    return v @ np.diag(np.maximum(w, eps)) @ v.T


def scaled_cond(a):
    """Condition number after unit-diagonal scaling (what an inverse loses at worst)."""
    d = np.sqrt(np.maximum(np.diag(a), 0))
    if np.any(d <= 1e-140):
        return np.inf
    w = np.linalg.eigvalsh(a / np.outer(d, d))
    return np.inf if w[0] <= 0 else float(w[-1] / w[0])


class Base:
    def __init__(self, p):
        self.p, self.n, self.ok = p, 0, True
        self.extra = 0.0    # absolute error that rounding alone may add to the covariance
        self.m = np.zeros(p)
        self.C = np.zeros((p, p))
        self.seen = np.zeros(p)  # largest absolute value of each variable so far

    def mean(self):
        return self.m

    def cov(self):
        return self.C

    def push(self, x):
        x = np.asarray(x, dtype=float)
        self.n += 1
        self.step(x)
        self.seen = np.maximum(self.seen, np.abs(x))
        return self

    def distance2(self, d):
        """Squared Mahalanobis length of d under C, measured among the variables that have moved.

        A variable that has only ever been zero has no variance and cannot be surprising; one that
        has stayed at another constant has the variance of rounding noise, and no distance."""
        sd = np.sqrt(np.maximum(np.diag(self.C), 0.0))
        blank = (self.seen == 0) & (sd == 0)
        if np.any(~blank & (sd < 1e-9 * self.seen)):
            self.ok = False
            return 0.0
        i = np.where(~blank)[0]
        if len(i) == 0:
            return 0.0
        C = self.C[np.ix_(i, i)]
        # with a blank variable the code takes a pseudo-inverse, which drops tiny eigenvalues
        if scaled_cond(C) > BAD_COND or (len(i) < self.p and np.linalg.cond(C) > 1e12):
            self.ok = False
            return 0.0
        return float(d[i] @ scipy.linalg.solve(C, d[i], assume_a="sym"))


class Empirical(Base):
    """Two-pass population covariance of everything seen."""

    def __init__(self, p):
        super().__init__(p)
        self.rows = []

    def step(self, x):
        self.rows.append(x)

    def mean(self):
        X = np.array(self.rows)
        c = X[0]
        return c + (X - c).mean(axis=0)

    def cov(self):
        X = np.array(self.rows) - self.rows[0]
        X = X - X.mean(axis=0)
        return X.T @ X / len(X)


class Ewa(Base):
    """Batch statistics over the burn-in window, then exponential forgetting at rate r."""

    def __init__(self, p, r=0.05):
        super().__init__(p)
        self.r, self.nb = float(r), burn_in(r)
        self.emp = Empirical(p)

    def step(self, x):
        if self.n <= self.nb:
            self.emp.push(x)
            self.m, self.C = self.emp.mean(), self.emp.cov()
            return
        self.after(x, x - self.m)

    def after(self, x, d):
        r = self.r
        self.C = self.C - r * (self.C - np.outer(d, d))
        self.m = self.m + r * d


class Diagonal(Base):
    """Mean of squared one-step-ahead deviations, per variable."""

    def __init__(self, p, r=0.05):
        super().__init__(p)
        self.r, self.nb = float(r), burn_in(r)
        self.sq, self.rows = [], []
        self.v = np.zeros(p)

    def step(self, x):
        d = x - self.m if self.n > 1 else np.zeros(self.p)
        if self.n <= self.nb:
            self.sq.append(d * d)
            self.rows.append(x)
            self.v = np.sum(self.sq, axis=0) / self.n
            self.m = self.rows[0] + np.sum(np.array(self.rows) - self.rows[0], axis=0) / self.n
        else:
            self.v = self.v + self.r * (d * d - self.v)
            self.m = self.m + self.r * d

    def cov(self):
        return np.diag(self.v)


class Block(Ewa):
    def __init__(self, p, r=0.05, n_blocks=4):
        super().__init__(p, r)
        self.ids = block_ids(p, n_blocks)

    def cov(self):
        out = np.zeros((self.p, self.p))
        for b in np.unique(self.ids):
            i = np.where(self.ids == b)[0]
            out[np.ix_(i, i)] = floor_eigs(self.C[np.ix_(i, i)])
        return out


class Adaptive(Ewa):
    def __init__(self, p, r=0.05, max_r=0.5):
        super().__init__(p, r)
        self.max_r, self.s, self.rate = float(max_r), 1.0, None

    def after(self, x, d):
        maha = self.distance2(d)
        if not self.ok:
            return
        self.s = 0.9 * self.s + 0.1 * maha / self.p
        rate = self.r * self.s
        rate = self.r if rate < self.r else rate
        self.rate = self.max_r if rate > self.max_r else rate
        self.C = (1 - self.rate) * self.C + self.rate * np.outer(d, d)
        self.m = (1 - self.rate) * self.m + self.rate * x


class Huber(Ewa):
    def __init__(self, p, r=0.05, c=2.5):
        super().__init__(p, r)
        self.c, self.w = c, None

    def after(self, x, d):
        dist = math.sqrt(max(0.0, self.distance2(d)))
        if not self.ok:
            return
        cut = self.c * math.sqrt(self.p)
        self.w = 1.0 if dist <= cut else cut / dist
        u = self.w * d
        self.C = (1 - self.r) * self.C + self.r * np.outer(u, u)
        self.m = self.m + self.r * u


class LedoitWolf(Ewa):
    def __init__(self, p, r=0.05):
        super().__init__(p, r)
        self.pi, self.intensity = 0.0, 0.0

    def after(self, x, d):
        q = sum((d[i] * d[j] - self.C[i, j]) ** 2 for i in range(self.p) for j in range(self.p))
        self.pi = (1 - self.r) * self.pi + self.r * q / self.p
        super().after(x, d)

    def cov(self):
        S, p = self.C, self.p
        mu = np.trace(S) / p
        d2 = np.linalg.norm(S - mu * np.eye(p)) ** 2 / p
        if d2 <= 0 or self.pi <= 0:
            self.intensity = 0.0
            return S
        self.intensity = min(1.0, self.pi * self.r / d2)
        return S + self.intensity * (mu * np.eye(p) - S)


class OAS(Ewa):
    def cov(self):
        S, p = self.C, self.p
        n = max(1.0 / self.r, 2.0)
        tr, tr2 = np.trace(S), float(np.sum(S * S))
        den = (n + 1 - 2 / p) * (tr2 - tr * tr / p)
        self.slack = (tr2 - tr * tr / p) / tr2 if tr2 > 0 else 0.0  # relative size of den
        num = (1 - 2 / p) * tr2 + tr * tr
        rho = 1.0 if den <= 0 else min(1.0, max(0.0, num / den))
        self.rho = rho
        return (1 - rho) * S + rho * (tr / p) * np.eye(p)


class Shrunk(Ewa):
    def __init__(self, p, r=0.05, delta=0.1, target="constant_correlation"):
        super().__init__(p, r)
        self.delta, self.target = delta, target

    def cov(self):
        S, p = self.C, self.p
        if self.target == "identity":
            T = np.trace(S) / p * np.eye(p)
        else:
            sd = [math.sqrt(max(S[i, i], 0.0)) for i in range(p)]
            cors = [S[i, j] / (sd[i] * sd[j]) if sd[i] > 0 and sd[j] > 0 else 0.0
                    for i in range(p) for j in range(p) if i != j]
            rbar = sum(cors) / len(cors) if cors else 0.0
            T = np.array([[S[i, i] if i == j else rbar * sd[i] * sd[j] for j in range(p)]
                          for i in range(p)])
        return (1 - self.delta) * S + self.delta * T


class Schur(Ewa):
    def __init__(self, p, r=0.05, n_blocks=4, gamma=0.5, interpolation="linear"):
        super().__init__(p, r)
        ids = block_ids(p, n_blocks)
        self.same = ids[:, None] == ids[None, :]
        self.gamma, self.interp = gamma, interpolation

    def cov(self):
        if self.interp == "geodesic":
            a, b = floor_eigs(np.where(self.same, self.C, 0.0)), floor_eigs(self.C)
            # rounding in the inverse square roots, of a and (through the eigenvalue floor) of b
            err = 1e-14 * (np.linalg.cond(a) + np.linalg.cond(b))
            self.ok = self.ok and err < 1e-3
            self.extra = err * np.trace(self.C)
            return geodesic(a, b, self.gamma)
        return floor_eigs(np.where(self.same, self.C, self.gamma * self.C))


class SchurLW(Ewa):
    def __init__(self, p, r=0.05, n_blocks=4):
        super().__init__(p, r)
        ids = block_ids(p, n_blocks)
        self.same = ids[:, None] == ids[None, :]
        self.pi, self.gamma = 0.0, None

    def after(self, x, d):
        q = sum((d[i] * d[j] - self.C[i, j]) ** 2 for i in range(self.p) for j in range(self.p)
                if not self.same[i, j])
        self.pi = (1 - self.r) * self.pi + self.r * q
        super().after(x, d)

    def cov(self):
        m2 = float(np.sum(self.C[~self.same] ** 2))
        g = 1.0 - self.pi * self.r / m2 if m2 > 0 else 1.0
        self.gamma = min(1.0, max(0.0, g))
        return floor_eigs(np.where(self.same, self.C, self.gamma * self.C))


class SchurCond(Ewa):
    def __init__(self, p, r=0.05, n_blocks=4):
        super().__init__(p, r)
        self.ids = block_ids(p, n_blocks)
        self.gamma = None

    def cov(self):
        p, C = self.p, self.C
        sd = np.sqrt(np.maximum(np.diag(C), 0))
        den = np.outer(sd, sd)
        R = np.where(den > 0, C / np.where(den > 0, den, 1.0), 0.0)
        neff = max(2.0, min(float(self.n), (2 - self.r) / self.r))
        num = den_ = 0.0
        pairs = 0
        for i in range(p):
            for j in range(p):
                if self.ids[i] != self.ids[j]:
                    pairs += 1
                    num += max(0.0, R[i, j] ** 2 - (1 + R[i, j] ** 2) / neff)
                    den_ += R[i, j] ** 2
        g = 1.0 if pairs == 0 else (min(1.0, num / den_) if den_ > 0 else 0.0)
        self.gamma = g
        out = np.zeros((p, p))
        done = np.array([], dtype=int)
        for b in np.unique(self.ids):
            k = np.where(self.ids == b)[0]
            Rkk = R[np.ix_(k, k)]
            if len(done) == 0:
                out[np.ix_(k, k)] = Rkk
            else:
                lam = min(0.9, len(done) / neff)
                Rcc = R[np.ix_(done, done)]
                reg = Rcc * (1 - lam)
                reg[np.diag_indices(len(done))] = np.diag(Rcc)
                reg = reg + 1e-10 * np.eye(len(done))
                if np.linalg.cond(reg) > BAD_COND:
                    self.ok = False
                B = g * scipy.linalg.solve(reg, R[np.ix_(done, k)])
                full = B / g if g > 0 else scipy.linalg.solve(reg, R[np.ix_(done, k)])
                S = floor_eigs(Rkk - R[np.ix_(done, k)].T @ full)
                P = out[np.ix_(done, done)]
                out[np.ix_(k, done)] = B.T @ P
                out[np.ix_(done, k)] = P @ B
                out[np.ix_(k, k)] = (1 - g) * Rkk + g * S + B.T @ P @ B
            done = np.concatenate([done, k])
        return floor_eigs(out) * den


class PartialMoments(Base):
    """The four sign quadrants partition the outer product, so their sum is the plain recency-
    weighted outer product of one-step-ahead deviations."""

    def __init__(self, p, r=0.05):
        super().__init__(p)
        self.r, self.nb = float(r), burn_in(r)
        self.rows, self.outs = [], []

    def step(self, x):
        d = x - self.m if self.n > 1 else np.zeros(self.p)
        o = np.outer(d, d)
        if self.n <= self.nb:
            self.rows.append(x)
            self.outs.append(o)
            self.C = np.sum(self.outs, axis=0) / self.n
            self.m = self.rows[0] + np.sum(np.array(self.rows) - self.rows[0], axis=0) / self.n
        else:
            self.C = (1 - self.r) * self.C + self.r * o
            self.m = self.m + self.r * d


class Tyler(Base):
    def __init__(self, p, r=0.05):
        super().__init__(p)
        self.r, self.nb = float(r), burn_in(r)
        self.S, self.mag = np.eye(p), 0.0

    def step(self, x):
        p, n = self.p, self.n
        rate = 1.0 / n if n <= self.nb else self.r
        d = x - self.m
        self.m = self.m + rate * d
        self.mag = max(self.mag, float(np.abs(x).max()))
        size = float(np.abs(d).max())
        if n > 1 and (0 < size < 1e-10 * self.mag or (size == 0 and n > self.nb)):
            self.ok = False   # the direction of a rounding-level deviation is arbitrary
            return
        if n == 1 or size == 0:
            return
        u = d / np.linalg.norm(d)
        if scaled_cond(self.S) > BAD_COND:
            self.ok = False
            return
        q = float(u @ scipy.linalg.solve(self.S, u, assume_a="sym"))
        S = (1 - rate) * self.S + rate * p / q * np.outer(u, u)
        self.S = S * (p / np.trace(S))

    def cov(self):
        sd = np.sqrt(np.diag(self.S))
        return self.S / np.outer(sd, sd)


def geodesic(A, B, t):
    """Point a fraction t along the affine-invariant geodesic from A to B (generalized eigen)."""
    w, V = scipy.linalg.eigh(B, A)  # B V = A V diag(w), V' A V = I
    AV = A @ V
    return AV @ np.diag(np.maximum(w, 0) ** t) @ AV.T


class Geodesic(Ewa):
    """``err`` bounds the rounding error in the affine-invariant metric, in which a step towards a
    fixed end point is a contraction."""

    err = 0.0

    def after(self, x, d):
        A, B = floor_eigs(self.C), floor_eigs(np.outer(d, d))
        w = scipy.linalg.eigh(B, A, eigvals_only=True)
        self.C = geodesic(A, B, self.r)
        spread = w[-1] / w[0] if w[0] > 0 else np.inf
        self.err = (1 - self.r) * self.err + 1e-15 * (
            spread + np.linalg.cond(A) + np.linalg.cond(B) + np.linalg.cond(self.C))
        if not self.err < 1e-3:
            self.ok = False
            return
        self.extra = self.err * np.trace(self.C)
        self.m = self.m + self.r * d


class DCC(Base):
    def __init__(self, p, r=0.05, vol_r=None):
        super().__init__(p)
        self.r, self.rv = float(r), float(r if vol_r is None else vol_r)
        self.nb = burn_in(min(self.r, self.rv))
        self.h, self.Q = np.ones(p), np.eye(p)

    def step(self, x):
        n = self.n
        d = x - self.m if n > 1 else np.zeros(self.p)
        a = 1.0 / n if n <= self.nb else None
        self.h = self.h + (a if a else self.rv) * (d * d - self.h)
        self.m = self.m + (a if a else self.rv) * (x - self.m)
        e = d / np.sqrt(np.maximum(self.h, 1e-12))
        self.Q = self.Q + (a if a else self.r) * (np.outer(e, e) - self.Q)

    def cov(self):
        q = np.maximum(np.diag(self.Q), 1e-12)
        h = np.maximum(self.h, 1e-12)
        out = np.empty((self.p, self.p))
        for i in range(self.p):
            for j in range(self.p):
                out[i, j] = self.Q[i, j] * math.sqrt(h[i] * h[j]) / math.sqrt(q[i] * q[j])
        return out


class Factor(Base):
    def __init__(self, p, r=0.05, k=2):
        super().__init__(p)
        self.r, self.k = float(r), min(k, p)
        self.v = np.zeros(p)
        self.lam = [0.0] * self.k            # component = lam * unit direction
        self.dir = [None] * self.k

    def step(self, x):
        n = self.n
        rate = 1.0 / n if n <= self.k + 1 else self.r
        d = x - self.m if n > 1 else np.zeros(self.p)
        self.m = self.m + rate * (x - self.m)
        self.v = self.v + rate * (d * d - self.v)
        u = d.copy()
        for j in range(self.k):
            if self.lam[j] < 1e-12:
                size = np.linalg.norm(u)
                if 0 < size < 1e-9:
                    self.ok = False           # seeding from a rounding-level remainder
                self.lam[j], self.dir[j] = size, (u / size if size > 0 else None)
                break
            e = self.dir[j]
            c = float(u @ e)
            V = (1 - rate) * self.lam[j] * e + rate * c * u
            self.lam[j] = float(np.linalg.norm(V))
            self.dir[j] = V / self.lam[j] if self.lam[j] > 0 else None
            u = u - c * e

    def cov(self):
        F = np.zeros((self.p, self.p))
        for lam, e in zip(self.lam, self.dir):
            if lam > 1e-12:
                F += lam * np.outer(e, e)
        return F + np.diag(np.maximum(self.v - np.diag(F), 0.0))


CLASSES = {
    "EmpiricalCovariance": Empirical, "DiagonalCovariance": Diagonal, "BlockCovariance": Block,
    "EwaCovariance": Ewa, "AdaptiveEwaCovariance": Adaptive, "LedoitWolfCovariance": LedoitWolf,
    "OASCovariance": OAS, "ShrunkCovariance": Shrunk, "SchurCovariance": Schur,
    "SchurConditionalCovariance": SchurCond, "SchurLedoitWolfCovariance": SchurLW,
    "PartialMomentsCovariance": PartialMoments, "HuberCovariance": Huber, "TylerCovariance": Tyler,
    "GeodesicEwaCovariance": Geodesic, "DCCCovariance": DCC, "FactorCovariance": Factor,
}


def build(cfg, p):
    kw = {k: v for k, v in cfg["kw"].items() if k != "diff"}
    return CLASSES[cfg["cls"]](p, **kw)
