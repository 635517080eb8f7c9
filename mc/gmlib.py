"""Reference for linear Gauss-Markov models: the joint law of the states at any finite set of times, conditioned on linear observations in one batch."""
import numpy as np


def memo(exact):
    """transitions are asked for again and again at the same times"""
    cache = {}

    def f(t, dt):
        if (t, dt) not in cache:
            cache[t, dt] = exact(t, dt)
        return cache[t, dt]

    return f


class GM:
    """exact(t, dt) -> A, b, Q; diff(ta, tb) -> squared diffusion on [ta, tb] (constant there)"""

    def __init__(self, exact, m, P, t0, diff=None):
        self.exact, self.m, self.P, self.t0, self.n = exact, np.asarray(m, float), np.asarray(P, float), t0, len(m)
        self.diff = diff or (lambda a, b: 1.0)

    def joint(self, times):
        """mean and covariance of the stacked states; times sorted, distinct, times[0] == t0"""
        n, N = self.n, len(times)
        mean, C = np.zeros(N * n), np.zeros((N * n, N * n))
        mean[:n], C[:n, :n] = self.m, self.P
        for k in range(1, N):
            A, b, Q = self.exact(times[k - 1], times[k] - times[k - 1])
            s, q = slice(k * n, (k + 1) * n), slice((k - 1) * n, k * n)
            mean[s] = A @ mean[q] + b
            C[s, : k * n] = A @ C[q, : k * n]
            C[: k * n, s] = C[s, : k * n].T
            C[s, s] = A @ C[q, q] @ A.T + self.diff(times[k - 1], times[k]) * Q
        return mean, C

    def posterior(self, obs, query):
        """obs: list of (t, H, b, R, y); joint law of the states at query (sorted, distinct) given obs"""
        times = sorted({self.t0} | {o[0] for o in obs} | set(query))
        assert times[0] == self.t0
        mean, C = self.joint(times)
        n = self.n
        ix = {t: k for k, t in enumerate(times)}
        if obs:
            rows, b, y, R = [], [], [], []
            for t, H, bb, Rt, yy in obs:
                row = np.zeros((len(H), len(mean)))
                row[:, ix[t] * n: (ix[t] + 1) * n] = H
                rows.append(row)
                b.append(bb)
                y.append(np.atleast_1d(yy))
                R.append(Rt)
            H, b, y = np.vstack(rows), np.concatenate(b), np.concatenate(y)
            S = H @ C @ H.T
            k = 0
            for Rt in R:
                S[k: k + len(Rt), k: k + len(Rt)] += Rt
                k += len(Rt)
            G = np.linalg.solve(S, H @ C).T
            mean = mean + G @ (y - H @ mean - b)
            C = C - G @ S @ G.T
        sel = np.concatenate([np.arange(ix[t] * n, (ix[t] + 1) * n) for t in query])
        return mean[sel], C[np.ix_(sel, sel)]
