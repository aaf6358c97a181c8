"""Documented Kalman filter recursions (written from the documentation)."""
import numpy as np
from scipy import linalg


def step(X, t, rank):
    if X.ndim > rank:
        return X[t]
    return X


def predict(A, b, Q, mean, cov):
    return np.dot(A, mean) + b, np.dot(np.dot(A, cov), A.T) + Q


def innovation(C, d, R, mean, cov):
    return np.dot(C, mean) + d, np.dot(np.dot(C, cov), C.T) + R


def correct(C, d, R, mean, cov, z, missing):
    if missing:
        return mean, cov, np.zeros((cov.shape[0], C.shape[0]))
    zhat, S = innovation(C, d, R, mean, cov)
    K = np.dot(np.dot(cov, C.T), linalg.pinv(S))
    return mean + np.dot(K, z - zhat), cov - np.dot(np.dot(K, C), cov), K


def forward(p, Z):
    """Predicted and filtered moments of every step."""
    A, b, C, d, Q, R, m0, P0 = p
    T = Z.shape[0]
    n = m0.shape[0]
    pm = np.zeros((T, n))
    pc = np.zeros((T, n, n))
    fm = np.zeros((T, n))
    fc = np.zeros((T, n, n))
    for t in range(T):
        if t == 0:
            mean, cov = m0, P0
        else:
            mean, cov = predict(step(A, t - 1, 2), step(b, t - 1, 1), step(Q, t - 1, 2), fm[t - 1], fc[t - 1])
        pm[t] = mean
        pc[t] = cov
        missing = np.any(np.ma.getmask(Z[t]))
        mean, cov, K = correct(step(C, t, 2), step(d, t, 1), step(R, t, 2), mean, cov, Z[t], missing)
        fm[t] = mean
        fc[t] = cov
    return pm, pc, fm, fc


def filter(p, Z):
    pm, pc, fm, fc = forward(p, Z)
    return fm, fc


def backward(p, pm, pc, fm, fc):
    """Smoothed moments, and the smoother gains leading from t+1 back to t."""
    A = p[0]
    T, n = fm.shape
    sm = np.zeros((T, n))
    sc = np.zeros((T, n, n))
    J = np.zeros((T - 1, n, n))
    sm[T - 1] = fm[T - 1]
    sc[T - 1] = fc[T - 1]
    for t in range(T - 2, -1, -1):
        G = np.dot(np.dot(fc[t], step(A, t, 2).T), linalg.pinv(pc[t + 1]))
        J[t] = G
        sm[t] = fm[t] + np.dot(G, sm[t + 1] - pm[t + 1])
        sc[t] = fc[t] + np.dot(np.dot(G, sc[t + 1] - pc[t + 1]), G.T)
    return sm, sc, J


def smooth(p, Z):
    pm, pc, fm, fc = forward(p, Z)
    sm, sc, J = backward(p, pm, pc, fm, fc)
    return sm, sc


def log_density(x, mean, cov):
    """Log density of a multivariate normal distribution."""
    k = x.shape[0]
    L = linalg.cholesky(cov, lower=True)
    w = linalg.solve_triangular(L, x - mean, lower=True)
    return -0.5 * (np.sum(w ** 2) + k * np.log(2 * np.pi) + 2 * np.sum(np.log(np.diag(L))))


def loglikelihood(p, Z):
    A, b, C, d, Q, R, m0, P0 = p
    pm, pc, fm, fc = forward(p, Z)
    total = 0.0
    for t in range(Z.shape[0]):
        if not np.any(np.ma.getmask(Z[t])):
            zhat, S = innovation(step(C, t, 2), step(d, t, 1), step(R, t, 2), pm[t], pc[t])
            total = total + log_density(Z[t], zhat, S)
    return total


def outer(x, y):
    return np.outer(x, y)


def em_step(p, Z, free):
    """One EM iteration; free names the estimated parameters."""
    A, b, C, d, Q, R, m0, P0 = p
    pm, pc, fm, fc = forward(p, Z)
    sm, sc, J = backward(p, pm, pc, fm, fc)
    T, n = fm.shape
    m = Z.shape[1]
    if "observation_matrices" in free:
        num = np.zeros((m, n))
        den = np.zeros((n, n))
        for t in range(T):
            if not np.any(np.ma.getmask(Z[t])):
                num = num + outer(Z[t] - step(d, t, 1), sm[t])
                den = den + sc[t] + outer(sm[t], sm[t])
        C2 = np.dot(num, linalg.pinv(den))
    else:
        C2 = C
    if "observation_covariance" in free:
        acc = np.zeros((m, m))
        count = 0
        for t in range(T):
            if not np.any(np.ma.getmask(Z[t])):
                Ct = step(C2, t, 2)
                e = Z[t] - step(d, t, 1) - np.dot(Ct, sm[t])
                acc = acc + outer(e, e) + np.dot(np.dot(Ct, sc[t]), Ct.T)
                count = count + 1
        R2 = acc
        if count > 0:
            R2 = acc / count
    else:
        R2 = R
    if "transition_matrices" in free:
        num = np.zeros((n, n))
        den = np.zeros((n, n))
        for t in range(1, T):
            cross = np.dot(sc[t], J[t - 1].T) + outer(sm[t], sm[t - 1])
            num = num + cross - outer(step(b, t - 1, 1), sm[t - 1])
            den = den + sc[t - 1] + outer(sm[t - 1], sm[t - 1])
        A2 = np.dot(num, linalg.pinv(den))
    else:
        A2 = A
    if "transition_covariance" in free:
        acc = np.zeros((n, n))
        for t in range(1, T):
            At = step(A2, t - 1, 2)
            e = sm[t] - np.dot(At, sm[t - 1]) - step(b, t - 1, 1)
            V = np.dot(sc[t], J[t - 1].T)
            acc = acc + outer(e, e) + np.dot(np.dot(At, sc[t - 1]), At.T) + sc[t] - np.dot(V, At.T) - np.dot(At, V.T)
        Q2 = acc
        if T > 1:
            Q2 = acc / (T - 1)
    else:
        Q2 = Q
    mean2 = sm[0] if "initial_state_mean" in free else m0
    if "initial_state_covariance" in free:
        cov2 = sc[0] + outer(sm[0] - mean2, sm[0] - mean2)
    else:
        cov2 = P0
    if "transition_offsets" in free:
        acc = np.zeros(n)
        for t in range(1, T):
            acc = acc + sm[t] - np.dot(step(A2, t - 1, 2), sm[t - 1])
        b2 = acc
        if T > 1:
            b2 = acc / (T - 1)
    else:
        b2 = b
    if "observation_offsets" in free:
        acc = np.zeros(m)
        count = 0
        for t in range(T):
            if not np.any(np.ma.getmask(Z[t])):
                acc = acc + Z[t] - np.dot(step(C2, t, 2), sm[t])
                count = count + 1
        d2 = acc
        if count > 0:
            d2 = acc / count
    else:
        d2 = d
    return A2, b2, C2, d2, Q2, R2, mean2, cov2


def em(p, Z, free, iterations):
    for i in range(iterations):
        p = em_step(p, Z, free)
    return p


def sample(p, T, initial, rng):
    A, b, C, d, Q, R, m0, P0 = p
    n = m0.shape[0]
    m = C.shape[-2]
    if initial is None:
        initial = rng.multivariate_normal(m0, P0)
    x = np.zeros((T, n))
    z = np.zeros((T, m))
    for t in range(T):
        if t == 0:
            x[t] = initial
        else:
            x[t] = np.dot(step(A, t - 1, 2), x[t - 1]) + step(b, t - 1, 1) + rng.multivariate_normal(np.zeros(n), step(Q, t - 1, 2))
        z[t] = np.dot(step(C, t, 2), x[t]) + step(d, t, 1) + rng.multivariate_normal(np.zeros(m), step(R, t, 2))
    return x, z


def update(C, d, R, mean, cov, z):
    mean, cov, K = correct(C, d, R, mean, cov, z, np.any(np.ma.getmask(z)))
    return mean, cov


def extend(p, before, mean, cov, z, T):
    """Log-likelihood of T steps from that of T-1 and the moments of step T-2."""
    A, b, C, d, Q, R, m0, P0 = p
    if np.any(np.ma.getmask(z)):
        return before
    mean, cov = predict(step(A, T - 2, 2), step(b, T - 2, 1), step(Q, T - 2, 2), mean, cov)
    zhat, S = innovation(step(C, T - 1, 2), step(d, T - 1, 1), step(R, T - 1, 2), mean, cov)
    return before + log_density(z, zhat, S)
