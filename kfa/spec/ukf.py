"""Documented unscented recursions (written from the documentation)."""
import numpy as np
from scipy import linalg


def points(mean, cov, alpha=1.0, beta=0.0, kappa=None):
    """Sigma points (one per row) and their mean and covariance weights."""
    n = mean.shape[0]
    if kappa is None:
        kappa = 3 - n
    lam = alpha ** 2 * (n + kappa) - n
    spread = n + lam
    L = linalg.cholesky(cov, lower=True)
    return assemble(mean, L, lam, spread, alpha, beta)


def assemble(mean, L, lam, spread, alpha, beta):
    n = mean.shape[0]
    X = np.zeros((2 * n + 1, n))
    X[0] = mean
    X[1:n + 1] = mean + np.sqrt(spread) * L.T
    X[n + 1:] = mean - np.sqrt(spread) * L.T
    wm = np.zeros(2 * n + 1)
    wm[0] = lam / spread
    wm[1:] = 1 / (2 * spread)
    wc = wm.copy()
    wc[0] = lam / spread + 1 - alpha ** 2 + beta
    return X, wm, wc


def points_sqrt(mean, S, alpha=1.0, beta=0.0, kappa=None):
    """The same from an upper factor S with S'S the covariance."""
    n = mean.shape[0]
    if kappa is None:
        kappa = 3 - n
    lam = alpha ** 2 * (n + kappa) - n
    return assemble(mean, S.T, lam, n + lam, alpha, beta)


def moments(X, wm, wc, noise=None):
    mean = np.dot(X.T, wm)
    D = X - mean
    cov = np.dot(D.T * wc, D)
    if noise is not None:
        cov = cov + noise
    return mean, cov


def cross(X, mx, Y, my, w):
    return np.dot((X - mx).T * w, Y - my)


def apply(f, X):
    return np.vstack([f(X[i]) for i in range(X.shape[0])])


def apply2(f, X, V):
    return np.vstack([f(X[i], V[i]) for i in range(X.shape[0])])


def pick(fs, t, many):
    return fs[t] if many else fs


def correct(Xp, mean, cov, Y, zmean, zcov, w, z):
    if np.any(np.ma.getmask(z)):
        return mean, cov
    Cxz = cross(Xp, mean, Y, zmean, w)
    K = np.dot(Cxz, linalg.pinv(zcov))
    return mean + np.dot(K, z - zmean), cov - np.dot(K, Cxz.T)


def additive_predict(f, mean, cov, Q):
    X, wm, wc = points(mean, cov)
    return moments(apply(f, X), wm, wc, Q)


def additive_correct(g, mean, cov, R, z):
    X, wm, wc = points(mean, cov)
    Y = apply(g, X)
    zmean, zcov = moments(Y, wm, wc, R)
    return correct(X, mean, cov, Y, zmean, zcov, wm, z)


def additive_filter(fs, gs, fmany, gmany, Q, R, m0, P0, Z):
    T = Z.shape[0]
    n = m0.shape[0]
    fm = np.zeros((T, n))
    fc = np.zeros((T, n, n))
    for t in range(T):
        if t == 0:
            mean, cov = m0, P0
        else:
            mean, cov = additive_predict(pick(fs, t - 1, fmany), fm[t - 1], fc[t - 1], Q)
        fm[t], fc[t] = additive_correct(pick(gs, t, gmany), mean, cov, R, Z[t])
    return fm, fc


def additive_smooth(fs, gs, fmany, gmany, Q, R, m0, P0, Z):
    fm, fc = additive_filter(fs, gs, fmany, gmany, Q, R, m0, P0, Z)
    T, n = fm.shape
    sm = np.zeros((T, n))
    sc = np.zeros((T, n, n))
    sm[T - 1] = fm[T - 1]
    sc[T - 1] = fc[T - 1]
    for t in range(T - 2, -1, -1):
        X, wm, wc = points(fm[t], fc[t])
        Y = apply(pick(fs, t, fmany), X)
        pmean, pcov = moments(Y, wm, wc, Q)
        G = np.dot(cross(X, fm[t], Y, pmean, wc), linalg.pinv(pcov))
        sm[t] = fm[t] + np.dot(G, sm[t + 1] - pmean)
        sc[t] = fc[t] + np.dot(np.dot(G, sc[t + 1] - pcov), G.T)
    return sm, sc


def joint3(mean, cov, Q, R):
    n = mean.shape[0]
    m = R.shape[0]
    X, wm, wc = points(np.concatenate([mean, np.zeros(n), np.zeros(m)]), linalg.block_diag(cov, Q, R))
    return X[:, :n], X[:, n:n + n], X[:, n + n:], wm, wc


def general_filter(fs, gs, fmany, gmany, Q, R, m0, P0, Z):
    T = Z.shape[0]
    n = m0.shape[0]
    fm = np.zeros((T, n))
    fc = np.zeros((T, n, n))
    for t in range(T):
        if t == 0:
            X, V, W, wm, wc = joint3(m0, P0, Q, R)
        else:
            X0, V, W, wm, wc = joint3(fm[t - 1], fc[t - 1], Q, R)
            X = apply2(pick(fs, t - 1, fmany), X0, V)
        mean, cov = moments(X, wm, wc)
        Y = apply2(pick(gs, t, gmany), X, W)
        zmean, zcov = moments(Y, wm, wc)
        fm[t], fc[t] = correct(X, mean, cov, Y, zmean, zcov, wm, Z[t])
    return fm, fc


def general_smooth(fs, gs, fmany, gmany, Q, R, m0, P0, Z):
    fm, fc = general_filter(fs, gs, fmany, gmany, Q, R, m0, P0, Z)
    T, n = fm.shape
    sm = np.zeros((T, n))
    sc = np.zeros((T, n, n))
    sm[T - 1] = fm[T - 1]
    sc[T - 1] = fc[T - 1]
    for t in range(T - 2, -1, -1):
        X, wm, wc = points(np.concatenate([fm[t], np.zeros(n)]), linalg.block_diag(fc[t], Q))
        Y = apply2(pick(fs, t, fmany), X[:, :n], X[:, n:])
        pmean, pcov = moments(Y, wm, wc)
        G = np.dot(cross(X[:, :n], fm[t], Y, pmean, wc), linalg.pinv(pcov))
        sm[t] = fm[t] + np.dot(G, sm[t + 1] - pmean)
        sc[t] = fc[t] + np.dot(np.dot(G, sc[t + 1] - pcov), G.T)
    return sm, sc


def additive_sample(fs, gs, fmany, gmany, Q, R, m0, P0, T, initial, rng):
    n = m0.shape[0]
    m = R.shape[0]
    if initial is None:
        initial = rng.multivariate_normal(m0, P0)
    x = np.zeros((T, n))
    z = np.zeros((T, m))
    for t in range(T):
        if t == 0:
            x[t] = initial
        else:
            x[t] = pick(fs, t - 1, fmany)(x[t - 1]) + rng.multivariate_normal(np.zeros(n), Q)
        z[t] = pick(gs, t, gmany)(x[t]) + rng.multivariate_normal(np.zeros(m), R)
    return x, z


def general_sample(fs, gs, fmany, gmany, Q, R, m0, P0, T, initial, rng):
    n = m0.shape[0]
    m = R.shape[0]
    if initial is None:
        initial = rng.multivariate_normal(m0, P0)
    x = np.zeros((T, n))
    z = np.zeros((T, m))
    for t in range(T):
        if t == 0:
            x[t] = initial
        else:
            x[t] = pick(fs, t - 1, fmany)(x[t - 1], rng.multivariate_normal(np.zeros(n), Q))
        z[t] = pick(gs, t, gmany)(x[t], rng.multivariate_normal(np.zeros(m), R))
    return x, z


def additive_update(f, g, Q, R, mean, cov, z):
    mean, cov = additive_predict(f, mean, cov, Q)
    return additive_correct(g, mean, cov, R, z)


def general_update(f, g, Q, R, mean, cov, z):
    X0, V, W, wm, wc = joint3(mean, cov, Q, R)
    X = apply2(f, X0, V)
    pmean, pcov = moments(X, wm, wc)
    Y = apply2(g, X, W)
    zmean, zcov = moments(Y, wm, wc)
    return correct(X, pmean, pcov, Y, zmean, zcov, wm, z)


def describe(X, wm, wc, mean):
    """Properties of sigma points that do not depend on the choice of the square root."""
    n = mean.shape[0]
    D = X[1:n + 1] - mean
    E = X[n + 1:] - mean
    C = X - np.dot(X.T, wm)
    return X[0], D + E, np.dot(D.T, D), np.dot(E.T, E), np.sum(wm), wm, wc, np.dot(X.T, wm), np.dot(C.T * wm, C), np.dot(C.T * wc, C)


def expected(mean, cov, alpha=1.0, beta=0.0, kappa=None):
    n = mean.shape[0]
    if kappa is None:
        kappa = 3 - n
    c = alpha ** 2 * (n + kappa)
    wm = np.zeros(2 * n + 1)
    wm[0] = (c - n) / c
    wm[1:] = 1 / (2 * c)
    wc = wm.copy()
    wc[0] = (c - n) / c + 1 - alpha ** 2 + beta
    return mean, np.zeros((n, n)), c * cov, c * cov, 1.0, wm, wc, mean, cov, cov


def gram(S):
    return np.dot(S.T, S)


def upper(P):
    return linalg.cholesky(P, lower=True).T


def transform(X, wm, wc, f, noise):
    Y = X if f is None else apply(f, X)
    mean, cov = moments(Y, wm, wc, noise)
    return Y, mean, cov


def general_predict(f, Q, R, mean, cov):
    X0, V, W, wm, wc = joint3(mean, cov, Q, R)
    return moments(apply2(f, X0, V), wm, wc)
