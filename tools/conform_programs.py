"""Small programs over arrays of arbitrary length, run by tools/conform.py both under
the verifier's model and under CPython with NumPy.
n, m sizes; a (n) and b (n, m) reals; c (n) integers -3..3; d (n) integers 0..n-1;
e (n, 3) integers 0..n-1; g (3, 4) reals; h (4) integers 0..3; s real; k integer 0..4"""
import numpy as np


def arith(n, m, a, b, c, d, e, g, h, s, k):
    return a + 2*a, b - s, c % 3, c // 2, -c, abs(a), a**2, a*c, c/4, b*a[:, None], 2 - c, c**2


def compare(n, m, a, b, c, d, e, g, h, s, k):
    return (a > 0)*1, np.where(a < s, a, s), np.where(c == 0, 1, c), (c != 1) & (a > 0), ~(c > 1), (b > 0) | (b < -1)


def minmax(n, m, a, b, c, d, e, g, h, s, k):
    return a.max(), c.min(), b.max(axis=0), b.min(axis=1), np.maximum(a, s), np.minimum(c, 1), np.ptp(c), max(c), min(c), c.max() - c.min()


def argmm(n, m, a, b, c, d, e, g, h, s, k):
    return c.argmax(), np.argmin(c), np.argmax(c == 1), g.argmax(axis=1)


def sums(n, m, a, b, c, d, e, g, h, s, k):
    return a.sum(), b.sum(axis=0), b.sum(axis=1), np.sum(b), c.sum(), np.sum(c == 0), sum(c), a.mean(), b.mean(axis=1), e.sum(axis=1, keepdims=True), np.count_nonzero(c)


def prods(n, m, a, b, c, d, e, g, h, s, k):
    return g.prod(), g.prod(axis=0), np.prod(h)


def anyall(n, m, a, b, c, d, e, g, h, s, k):
    return (c > 2).any(), (c > -3).all(), np.any(b > 1, axis=1), np.all(b > -1, axis=0), any(x > 2 for x in c), all(x < 3 for x in c)


def cums(n, m, a, b, c, d, e, g, h, s, k):
    return np.cumsum(a), np.cumsum(c == 0), np.cumsum(b, axis=0), np.cumsum(b, axis=1), np.cumsum(e), c.cumsum()


def diffs(n, m, a, b, c, d, e, g, h, s, k):
    return np.diff(a), np.diff(g, axis=1), np.diff(c)


def slices(n, m, a, b, c, d, e, g, h, s, k):
    return a[1:], a[:-1], a[::-1], b[:, 0], b[-1], b[::2], b[1:, :-1], a[-1], a[0], g[::-1, 1:3], e[:, [2, 0]], e[:, 1:]


def fancy(n, m, a, b, c, d, e, g, h, s, k):
    return a[d], b[d], a[e], b[e[:, 0]], b[d, 0], g[0, h], g[:, h], a[d[d]], g[np.ix_([0, 2], h)], a[e][:, 1], c[e].sum(axis=1)


def masks(n, m, a, b, c, d, e, g, h, s, k):
    return a[c > 0], b[c == 0], c[c != 0].sum(), a[a > s].sum(), len(a[c > 0]), e[c > 0, 1]


def where1(n, m, a, b, c, d, e, g, h, s, k):
    return np.where(c == 0)[0], np.nonzero(c > 0)[0], np.flatnonzero(c < 0), len(np.flatnonzero(c == 1)), np.argwhere(c == 1)


def assign(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros((n, m))
    z[:, 0] = a
    z[0] = 5
    y = np.zeros(n, dtype=int)
    y[:] = c
    y[0] = 2
    w = b.copy()
    w[1:] = w[:-1]
    return z, y, w


def assign_mask(n, m, a, b, c, d, e, g, h, s, k):
    z = a.copy()
    z[c > 0] = s
    y = c.copy()
    y[y < 0] = 0
    w = b.copy()
    w[c == 0] = 1
    w[b > 1] *= 2
    return z, y, w


def assign_fancy(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros(n, dtype=int)
    z[d] = 1
    y = np.zeros((n, m))
    y[d, 0] += 1
    w = np.zeros(n)
    w[np.arange(n)] = a
    return z, y, w


def add_at(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros(n)
    np.add.at(z, d, a)
    y = np.zeros(n, dtype=int)
    np.add.at(y, e, 1)
    w = np.zeros((n, m))
    np.add.at(w, d, b)
    return z, y, w


def counts(n, m, a, b, c, d, e, g, h, s, k):
    return np.bincount(d, minlength=n), np.bincount(d, weights=a, minlength=n), np.bincount(e.ravel(), minlength=n)


def loop_acc(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros(n)
    for i in range(n):
        z[d[i]] += a[i]
    y = np.zeros(n)
    for row in e:
        y[row] += 1
    w = np.zeros(n)
    for i, row in enumerate(e):
        for j in row:
            w[j] += a[i]
    return z, y, w


def loop_last(n, m, a, b, c, d, e, g, h, s, k):
    last = -1
    cnt = 0
    z = np.zeros(n, dtype=int)
    for i in range(n):
        if c[i] > 0:
            last = i
            z[i] = cnt
            cnt += 1
    return last, cnt, z


def loop_break(n, m, a, b, c, d, e, g, h, s, k):
    for i in range(n):
        if c[i] == 0:
            return i
    return -1


def loop_overwrite(n, m, a, b, c, d, e, g, h, s, k):
    z = np.full(n, -1)
    for i in range(n):
        z[d[i]] = i
    y = np.zeros((n, m))
    for i, j in enumerate(d):
        y[j] = b[i]
    return z, y


def loop_nested(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros((n, m))
    tot = 0
    for i in range(n):
        for j in range(m):
            z[i, j] = a[i]*j
            tot += b[i, j]*i
    return z, tot


def loop_rank(n, m, a, b, c, d, e, g, h, s, k):
    q = 0
    z = np.zeros((n, m), dtype=int)
    for i in range(n):
        for j in range(m):
            if b[i, j] > 0:
                z[i, j] = q
                q = q + 1
            else:
                z[i, j] = -1
    return z, q


def lists(n, m, a, b, c, d, e, g, h, s, k):
    x = []
    for i in range(n):
        x.append(a[i]*2)
    y = [c[i] for i in range(n) if c[i] > 0]
    z = [i for i, v in enumerate(c) if v == 0]
    return np.array(x), len(y), np.array(x + x), sum(y), len(z), [v + 1 for v in c]


def lists2(n, m, a, b, c, d, e, g, h, s, k):
    x = []
    for row in e:
        x.extend(row)
    y = []
    for row in e:
        y.append([row[0], row[2], 7])
    z = []
    for i in range(n):
        z += [c[i], i]
    return np.array(x), np.array(y), np.array(z)


def zips(n, m, a, b, c, d, e, g, h, s, k):
    t = 0
    z = np.zeros(n)
    for i, (x, y) in enumerate(zip(a, c)):
        t += x*y
        z[i] = x - y
    return t, z, [x*y for x, y in zip(a, c)], sum(x for x, y in zip(a, c) if y > 0)


def sets(n, m, a, b, c, d, e, g, h, s, k):
    q = set(d)
    u = {x for x in d if x > 0}
    return len(q), len(u), 0 in u, (1 in q), sorted(q)[0], len(np.unique(d)), len(set(e[:, 0]) | set(e[:, 1]))


def uniques(n, m, a, b, c, d, e, g, h, s, k):
    return np.unique(d), np.unique(e).sum(), np.unique(h), np.isin(d, [0, 1]), np.isin(np.arange(n), d)


def dicts(n, m, a, b, c, d, e, g, h, s, k):
    q = {i: a[i] for i in range(n)}
    r = dict(zip(range(n), c))
    return q[0], q[d[0]], r[d[n - 1]], len(q), sum(q.values())


def stack(n, m, a, b, c, d, e, g, h, s, k):
    return np.concatenate([a, a]), np.concatenate((b, b[:1])), np.hstack([b, b]), np.vstack((b, a[:m] if n == m else b)), np.column_stack((a, c, b)), np.stack([a, a]), np.stack((a, c), axis=1), np.append(a, s), np.r_[a, 0, c], np.c_[a, b], np.r_[0, d, n]


def reshapes(n, m, a, b, c, d, e, g, h, s, k):
    return e.ravel(), e.flatten(), b.reshape(-1), e.reshape(n*3), e.reshape(3, n), np.arange(n*m).reshape(n, m), b.T, b.T.ravel(), b.ravel(order="F"), a.reshape(-1, 1), a[:, np.newaxis]*a[None, :], e.T.reshape(-1), np.reshape(e, (n, 3, 1))


def repeats(n, m, a, b, c, d, e, g, h, s, k):
    return np.repeat(a, 3), np.tile(c, 2), np.repeat(np.arange(n), 2), np.tile([0, 1], n), np.repeat(b, 2, axis=0), np.tile(b, (2, 1))


def makers(n, m, a, b, c, d, e, g, h, s, k):
    return np.zeros(n), np.ones((n, m)), np.full(n, s), np.arange(n), np.arange(1, n + 1), np.arange(0, 2*n, 2), np.eye(n), np.identity(3), np.linspace(0, 1, n + 1), np.zeros_like(c), np.full_like(c, 2), np.ones_like(b), np.empty((0, 3)).shape, np.linspace(s, 5, 4), np.diag([1, 2, 3])


def grids(n, m, a, b, c, d, e, g, h, s, k):
    y, x = np.mgrid[0:n, 0:m]
    u, v = np.meshgrid(np.arange(n), np.arange(m))
    p, q = np.mgrid[-1:1:(n + 1)*1j, 0:s:(m + 1)*1j]
    return y, x, u, v, p, q.ravel()


def products(n, m, a, b, c, d, e, g, h, s, k):
    return a @ a, a.dot(c), b.T @ a, a @ b, b.T @ b, g @ g.T, np.outer(a, c), np.outer(g[0], g[1]), np.dot(b.T, a), np.einsum("ij,i->j", b, a), np.einsum("ij,kj->ik", g, g), np.trace(g[:, :3]), np.cross(g[0, :3], g[1, :3]), np.inner(a, a)


def linalg(n, m, a, b, c, d, e, g, h, s, k):
    q = g[:2, :2]
    return np.linalg.det(q), np.linalg.norm(g[0]), np.linalg.det(g[:, :3]), np.linalg.norm(a)


def rounding(n, m, a, b, c, d, e, g, h, s, k):
    return np.floor(a), np.ceil(a), np.trunc(a), np.rint(a), a.astype(int), np.round(a), int(s), round(s), np.sign(a), np.sign(c), np.clip(a, -1, 1), np.clip(c, 0, 2), a // 1, a % 1, np.round(a, 1), np.fix(s), np.abs(c), np.mod(c, 2), divmod(k, 3), k // 2, -k // 2, -k % 3, np.floor_divide(c, 2), np.round(2.5), round(0.5 + k)


def scalars(n, m, a, b, c, d, e, g, h, s, k):
    r = 0
    if k > 2 and s > 0:
        r = 1
    elif k == 0 or s < -1:
        r = 2
    t = s if k else -s
    return r, t, max(k, 2), min(s, 0, k), bool(k), not k, k == 2, 1 < k < 4, abs(s), k & 1, float(k), s*s - k, (s > 0) + 1


def whiles(n, m, a, b, c, d, e, g, h, s, k):
    i = 0
    t = 0
    while i < n:
        t += c[i]
        i += 1
    j = 0
    while j < k:
        j += 2
    return t, i, j


def alias(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros((n, 3))
    v = z[:, 1]
    v[:] = a
    r = z.T
    r[2, :] = 4
    w = z.reshape(-1)
    w[0] = 9
    y = z.flatten()
    y[:] = 0
    q = a.copy()
    p = q
    p += 1
    u = q[1:]
    u *= 2
    return z, q, y


def alias_fancy(n, m, a, b, c, d, e, g, h, s, k):
    z = a.copy()
    y = z[d]
    y[:] = 0
    x = z[c > 0]
    x *= 0
    w = np.asarray(z)
    w[0] = 3
    t = np.array(z)
    t[0] = 8
    return z


def perm(n, m, a, b, c, d, e, g, h, s, k):
    return np.flip(a), np.flip(b, axis=1), b[:, ::-1], np.roll(g, 1, axis=1), np.fliplr(g), np.swapaxes(g, 0, 1), np.transpose(b), np.take(a, d), np.rot90(g)[0], np.roll(h, -1), np.flipud(b)


def sorting(n, m, a, b, c, d, e, g, h, s, k):
    return np.sort(h), np.sort(g[0]), sorted(h), np.sort(g, axis=1), sorted([k, 2, 1]), np.sort(g[:, 0])[::-1]


def logic(n, m, a, b, c, d, e, g, h, s, k):
    return np.logical_and(a > 0, c > 0), np.logical_or(c == 0, c == 1), np.logical_not(c), np.logical_xor(c > 0, a > 0), np.isclose(c, 1), np.allclose(c, 0), (c == d).all(), np.array_equal(c, d), np.isnan(s), np.any(np.isclose(h, 2))


def dtypes(n, m, a, b, c, d, e, g, h, s, k):
    return c.astype(float)/2, (a > 0).astype(int).sum(), np.array(c, dtype=float)*.5, np.array([1.9, -1.9]).astype(int), np.int64(k) + 1, np.float64(s), (c > 0).sum(), c.astype(bool), np.array([k, s]), np.asarray([1, 2]) / 2


def int_store(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros(n, dtype=int)
    z[:] = a
    z[0] = s
    y = np.zeros(3, dtype=int)
    y[1] = 2.7
    y[2] = -2.7
    return z, y, np.array([c[0], 1])*.5


def broadcasts(n, m, a, b, c, d, e, g, h, s, k):
    return b + b[0], b*a.reshape(n, 1), g + g[:, :1], g[:, None, :]*g[None, :, :], e + np.arange(3), e - e[:, :1], np.broadcast_to(s, (2, 2)), (e[:, :, None] == np.arange(n)).sum(axis=(0, 1)), (d[:, None] == np.arange(n)[None, :]).sum(axis=0)


def selects(n, m, a, b, c, d, e, g, h, s, k):
    z = np.select([c < 0, c > 1], [a, 2*a], 0.0)
    return z, np.where(c[:, None] > 0, b, 0), np.where(e == 0, -1, e), np.choose(h > 1, [h, -h]), np.piecewise


def shapes(n, m, a, b, c, d, e, g, h, s, k):
    return b.shape, a.shape[0], len(b), b.ndim, b.size, e.shape[1], len(e.T), b[1:].shape, np.shape(g), b.T.shape, a[:0].shape


def neg_index(n, m, a, b, c, d, e, g, h, s, k):
    return a[-1], b[-1, -1], b[:, -1], a[-n], g[-1, -2:], a[d - n], e[:, -1], a[n - 1 - d]


def enumerate_rows(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros(n)
    for i, row in enumerate(b):
        z[i] = row.sum() + row[0]
    y = [row.max() for row in b]
    w = np.array([row[::-1] for row in e])
    return z, y, w


def unpack(n, m, a, b, c, d, e, g, h, s, k):
    x, y, z = e.T
    p, *q = h
    u, v = g[:2]
    (r, t), o = (h[0], h[1]), h[2]
    i, j, l = e[0]
    return x + y, z, p, q, u - v, r*t + o, i + j*l


def closures(n, m, a, b, c, d, e, g, h, s, k):
    f = lambda x, y=2: x*y + s
    def inner(i):
        return a[i] if c[i] > 0 else -a[i]
    return f(k), f(k, y=3), [inner(i) for i in range(n)], list(map(lambda v: v + 1, c)), sum(map(abs, c)), list(filter(None, h.tolist())), np.vectorize


def errors_index(n, m, a, b, c, d, e, g, h, s, k):
    return g[k, 0]


def errors_shape(n, m, a, b, c, d, e, g, h, s, k):
    return a + np.zeros(3)


def errors_raise(n, m, a, b, c, d, e, g, h, s, k):
    if k > 2:
        raise ValueError("k")
    if s > 1:
        raise KeyError(k)
    return k


def tries(n, m, a, b, c, d, e, g, h, s, k):
    try:
        r = g[k, 0]
    except IndexError:
        r = -1
    try:
        q = {0: 1, 2: 5}[k]
    except KeyError:
        q = -2
    finally:
        t = 3
    return r, q, t


def strings(n, m, a, b, c, d, e, g, h, s, k):
    x = "%d" % 3 + "ab"
    return len(x), x == "3ab", x.upper() == "3AB", "b" in x


def complexes(n, m, a, b, c, d, e, g, h, s, k):
    z = np.exp(1j*s)
    w = np.exp(1j*a)
    return z.real, z.imag, np.conj(z).imag, abs(z), (z*z).real, w.real, np.conj(w).imag, (w*a).imag, np.real(z*np.conj(z))


def trig(n, m, a, b, c, d, e, g, h, s, k):
    return np.sin(a), np.cos(s), np.sqrt(a**2), np.hypot(s, 1.0), np.arctan2(s, 1.0), np.sqrt(2), np.pi*k, np.exp(s)


def dup_aug(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros(n)
    z[d] += a
    y = np.zeros(4)
    y[h] += 1
    w = np.zeros((4, 4))
    w[np.ix_(h, h)] += 1
    return z, y, w


def delete_insert(n, m, a, b, c, d, e, g, h, s, k):
    return np.delete(g, 1, axis=0), np.insert(h, 0, 7), np.delete(h, [0, 2])


def conditional_lists(n, m, a, b, c, d, e, g, h, s, k):
    pos = [i for i in range(n) if c[i] > 0]
    neg = [i for i in range(n) if not c[i] > 0]
    t = 0
    for i in pos:
        t += a[i]
    z = np.zeros(n)
    for q, i in enumerate(pos):
        z[i] = q + 1
    return len(pos) + len(neg), t, z, a[pos].sum(), sum(a[i] for i in neg)


def first_seen(n, m, a, b, c, d, e, g, h, s, k):
    seen = np.zeros(n, dtype=bool)
    first = np.full(n, -1)
    for i in range(n):
        if not seen[d[i]]:
            first[d[i]] = i
            seen[d[i]] = True
    return first, seen, seen.sum()


def seen_list(n, m, a, b, c, d, e, g, h, s, k):
    x = []
    for v in d:
        if v not in x:
            x.append(v)
    return len(x), sum(x)


def mean_by_count(n, m, a, b, c, d, e, g, h, s, k):
    t = np.zeros(n)
    q = np.zeros(n)
    for i in range(n):
        for v in e[i]:
            t[v] += a[i]
            q[v] += 1
    q[q == 0] = 1
    return t/q


def running_max(n, m, a, b, c, d, e, g, h, s, k):
    r = -100
    for v in c:
        if v > r:
            r = v
    t = 1.0
    for v in h:
        t = t*(1 + v)
    return r, t


def slices_sym(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros(2*n)
    z[::2] = a
    z[1::2] = c
    y = np.zeros((2*n, 3))
    y[:n] = e
    y[n:, 0] = 7
    return z, y, z[n:], z[:n].sum(), z[2:2*n:2]


def blocks(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros((2*n, 2*n))
    z[:n, :n] = np.eye(n)
    z[n:, n:] = np.outer(a, a)
    return z, z.sum(axis=0), np.kron(np.eye(2), g[:2, :2]), np.block([[g, g], [g, g]])


def branches(n, m, a, b, c, d, e, g, h, s, k):
    t = 0
    if not k == 0:
        t += 1
    if k == 0:
        t += 2
    if not (k == 0 or s > 0):
        t += 4
    if k != 0 and not s > 0:
        t += 8
    if k:
        t += 16
    if not k:
        t += 32
    u = 1 if k > 1 else 2 if s < 0 else 3
    v = (k > 0) and (s if s > 1 else 5) or 7
    return t, u, v, k in (1, 3), k not in [0, 2], 0 <= k < 3 <= 4, (k == 1) == (s > 0)


def branch_array(n, m, a, b, c, d, e, g, h, s, k):
    if c[0] > 0:
        z = a + 1
    else:
        z = -a
    if c[0] <= 0:
        z = z*2
    if n > 2:
        z = z + n
    return z, z[0], (z if n == 1 else a)[0]


def loop_flags(n, m, a, b, c, d, e, g, h, s, k):
    found = False
    for i in range(n):
        if c[i] == 2:
            found = True
    none = True
    for v in c:
        if v == 1 or v == -1:
            none = False
    every = True
    for v in c:
        every = every and v > -3
    cnt = 0
    for v in c:
        cnt += v > 0
    return found, none, every, cnt


def loop_continue(n, m, a, b, c, d, e, g, h, s, k):
    t = 0
    z = np.zeros(n)
    for i in range(n):
        if c[i] < 0:
            continue
        t += a[i]
        z[i] = t*0 + 1
        if c[i] == 0:
            continue
        z[i] += 1
    return t, z


def loop_else(n, m, a, b, c, d, e, g, h, s, k):
    r = 0
    for v in h:
        if v == 3:
            r = 1
            break
    else:
        r = 2
    q = -1
    for i in range(4):
        if h[i] == k:
            q = i
            break
    return r, q


def loop_ranges(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros(n)
    for i in range(n - 1, -1, -1):
        z[i] = i + a[n - 1 - i]
    y = np.zeros(2*n)
    for i in range(0, 2*n, 2):
        y[i] = i
        y[i + 1] = c[i//2]
    w = np.zeros(n)
    for i in range(1, n):
        w[i] = a[i] - a[i - 1]
    t = 0
    for i in range(k):
        t += i
    return z, y, w, t


def loop_triangle(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            z[i, j] = a[i]*a[j]
    t = 0
    for i in range(n):
        for j in range(i):
            t += c[i]*c[j]
    y = np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            y[i, j] = i + j
            y[j, i] = i + j
    return z, t, y


def loop_views(n, m, a, b, c, d, e, g, h, s, k):
    z = b.copy()
    for row in z:
        row += 1
    y = np.zeros((n, 3))
    for i in range(n):
        r = y[i]
        r[0] = a[i]
        r[1:] += c[i]
    w = np.zeros((n, m))
    for i, row in enumerate(w):
        row[:] = i
    q = b.copy()
    for i in range(n):
        q[i] = q[i]*c[i]
    return z, y, w, q


def loop_columns(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros((n, m))
    for j in range(m):
        z[:, j] = a + j
    y = np.zeros(m)
    for j, col in enumerate(b.T):
        y[j] = col.sum()
    w = np.zeros((2, n))
    for q in range(2):
        w[q] += a
        w[q, :] *= q + 1
    return z, y, w


def loop_flat(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros(n*m)
    for q in range(n*m):
        z[q] = b[q//m, q % m]
    y = np.zeros(n*m)
    for i in range(n):
        for j in range(m):
            y[i*m + j] = b[i, j]*2
    i, j = np.divmod(np.arange(n*m), m)
    w = np.zeros((n, m))
    w[i, j] = y
    x = np.zeros(2*n)
    for i in range(n):
        x[2*i:2*i + 2] = [a[i], c[i]]
    return z, y, w, x


def loop_zips(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros(n)
    for x, y, i in zip(a, c, range(n)):
        z[i] = x*y
    t = 0
    for x, y in zip(a[:-1], a[1:]):
        t += (y - x)*2
    y = np.zeros((n, m))
    for row, v in zip(y, a):
        row[:] = v
    u = 0
    for i, (p, q, r) in enumerate(e, 1):
        u += i*(p - q + r)
    return z, t, y, u


def gens(n, m, a, b, c, d, e, g, h, s, k):
    def double():
        for i in range(n):
            yield a[i]*2

    def some():
        for i, v in enumerate(c):
            if v > 0:
                yield a[i]
    return sum(double()), np.array(list(double())), sum(some()), sum(v*v for v in a), max(1, *(x for x in (k, 2))), len(list(some()))


def star(n, m, a, b, c, d, e, g, h, s, k):
    def f(*x, scale=1, **o):
        return sum(x)*scale + len(o)
    p = (1, k)
    q = dict(scale=3, other=s)
    x, y = k, 2
    x, y = y, x + y
    return f(*p), f(*p, k, **q), x, y, [*p, 5][2], {**q, "scale": 4}["scale"]


def pydicts(n, m, a, b, c, d, e, g, h, s, k):
    q = {0: 5, 1: 6, 2: 7, 3: 8, 4: 9}
    r = {"x": s}
    r["y"] = k
    r.update(z=2)
    t = r.get("w", 11)
    u = r.setdefault("x", 0)
    v = {i: i*s for i in range(3)}
    return q[k], sorted(r), t, u, v[2], len(v), q.get(k, 0), sum(q.values()), r.pop("y"), k in q, "q" in r


def pylists(n, m, a, b, c, d, e, g, h, s, k):
    x = [1, 2]
    y = x
    y.append(k)
    z = x[:]
    z.append(4)
    w = x + [s]
    x += [9]
    u = [[0]*2 for _ in range(2)]
    u[0][1] = k
    v = [[0]*2]*2
    v[0][1] = 3
    q = list(range(3))
    q.insert(1, k)
    q.pop()
    q.reverse()
    return x, y, z, w, u, v, q, x.index(9), x.count(2), x[-1], x[::2], sum(x[:2])


def mask_values(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros(n)
    z[c > 0] = a[c > 0]
    y = a.copy()
    y[c == 1] += 5
    y[y < 0] *= -1
    w = np.zeros((n, m))
    w[c > 0, 0] = 1
    w[c < 0, :] = b[c < 0]
    x = b.copy()
    x[x > s] = s
    return z, y, w, x


def fancy_values(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros((n, n))
    z[np.arange(n), d] = a
    y = np.zeros((n, n))
    np.add.at(y, (d, d[::-1]), a)
    w = np.zeros((n, 3))
    w[d] = e
    x = a.copy()
    x[d] *= 2
    v = a.copy()
    v[d] = v
    u = np.zeros((n, 2))
    u[d, 1] = 3
    return z, y, w, x, v, u


def views2(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros((n, 4))
    z[1:][:, 0] = 2
    z[:, 2:][:, 1] += a
    z.T[1] = c
    z[..., 2] = s
    z[-1] += 1
    y = z.ravel()
    y[1] = 77
    x = np.zeros((2, 3, n))
    x[1, 2] = a
    x[0, :, 0] = 4
    x[:, 1, :] -= 1
    w = np.atleast_2d(a)
    v = np.squeeze(np.zeros((1, n)) + a)
    return z, y, x, w, v, np.ravel(x[1]), x.sum(axis=(0, 1)), x.transpose(2, 0, 1), x.shape


def overlap(n, m, a, b, c, d, e, g, h, s, k):
    z = a.copy()
    z[1:] = z[:-1]
    y = a.copy()
    y[::-1] = y.copy()
    x = a.copy()
    x[1:] += x[:-1]
    w = b.copy()
    w[:, 0], w[:, -1] = b[:, -1], b[:, 0]
    v = g.copy()
    v[[0, 1]] = v[[1, 0]]
    return z, y, x, w, v


def numbers(n, m, a, b, c, d, e, g, h, s, k):
    return 7//2, -7//2, -7 % 3, 7 % -3, 2**-1, 2**k, k**2, 1/2, int(-2.5), round(-0.5), abs(-3), 10 // (k + 1), (k + 7) % 5, divmod(k - 3, 2), float(7//2), n//2, (n + 1)//2, (-n)//2, n % 2, (n*m) % m, (k*n)//n


def int_float(n, m, a, b, c, d, e, g, h, s, k):
    z = np.array([1, 2, 3])
    z[0] = 7.9
    y = np.arange(n)*0.5
    x = np.zeros(3, int)
    x += k
    w = np.array([1, 2.5])
    v = c + 0.5
    u = c/1
    t = np.arange(3)/2
    r = np.array([True, False])*3
    p = np.mean(c)
    o = np.array(c.tolist())
    return z, y, x, w, v, u, t, r, p, o, c.sum()/2, np.sum([k, s]), np.array([k, k]).mean()


def stats(n, m, a, b, c, d, e, g, h, s, k):
    return np.average(a), a.sum()/len(a), np.mean(e), e.mean(axis=0), np.sum(a*c), (a*a).sum()**.5, np.max(np.abs(g)), g.max(axis=0), g.min(), np.dot(a, np.ones(n)), b.mean(), np.cumsum(h), np.cumprod(h + 1), np.median


def counting(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros(n, dtype=int)
    for row in e:
        for v in row:
            z[v] += 1
    y = [0]*4
    for v in h:
        y[v] += 1
    w = np.zeros(n, dtype=int)
    for i in range(n):
        w[i] = np.sum(d == i)
    x = (e == 0).sum(axis=0)
    return z, y, w, x, (d == d[0]).sum(), sum(1 for v in d if v == 0), np.bincount(h, minlength=5)


def ranks(n, m, a, b, c, d, e, g, h, s, k):
    free = c > 0
    z = np.where(free, np.cumsum(free) - 1, -1)
    y = np.full(n, -1)
    y[free] = np.arange(free.sum())
    w = np.zeros(n, dtype=int)
    w[free] = 1
    x = np.cumsum(w) - w
    return z, y, x, free.sum(), np.full((n, m), -1)[0], np.where(b > 0, np.cumsum(b.ravel() > 0).reshape(n, m) - 1, -1)


def nested_lists(n, m, a, b, c, d, e, g, h, s, k):
    x = [[i, j] for i in range(n) for j in range(m)]
    y = [b[i, j] for i in range(n) for j in range(m) if b[i, j] > 0]
    z = []
    for i in range(n):
        for j in range(m):
            z.append(i - j)
    w = []
    for i in range(n):
        if c[i] > 0:
            w.append(a[i])
        else:
            w.append(0.0)
    return np.array(x), sum(y), np.array(z), np.array(w), len(x), np.array([[u*v for v in g[0]] for u in a])


def outer_state(n, m, a, b, c, d, e, g, h, s, k):
    q = [0]

    def bump(x):
        q[0] += x
        return q[0]
    r = [bump(v) for v in (1, k, 2)]
    z = np.zeros(3)

    def put(i, v=s):
        z[i] = v
    put(0)
    put(2, k)
    return r, q[0], z


def early(n, m, a, b, c, d, e, g, h, s, k):
    def f(x):
        if x > 2:
            return 10
        if x == 0:
            return 20
        return 30 + x

    def first(x):
        for i, v in enumerate(x):
            if v > 0:
                return i
        return -1
    return f(k), [f(v) for v in h], first(c), first(h), f(c[0]), np.array([f(v) for v in c])


def shape_branch(n, m, a, b, c, d, e, g, h, s, k):
    r = 0
    if b.shape[0] == 1:
        r = 1
    elif b.shape[1] > b.shape[0]:
        r = 2
    z = a if len(a) > 1 else np.append(a, 0)
    y = np.zeros((n, m)) if n > m else np.zeros((m, n))
    return r, z, y, np.atleast_1d(s), np.atleast_2d(g[0]).shape, a.reshape(n, -1).shape, np.ndim(b), b.reshape(m, n)


def search(n, m, a, b, c, d, e, g, h, s, k):
    return c.tolist().index(c[0]), list(h).count(2), np.where(c == c[-1])[0][0], np.any(d == 0), (0 in d), d.tolist().count(0), np.where(h == 3)[0].size


def sentinel(n, m, a, b, c, d, e, g, h, s, k):
    idx = np.where(c > 0, d, -1)
    z = np.append(a, 0.0)[idx]
    y = np.where(idx >= 0, a[idx], -5.0)
    w = np.zeros(n + 1)
    w[idx] += 1
    x = np.zeros(n + 1)
    np.add.at(x, idx, a)
    v = np.concatenate(([0.0], a))[idx + 1]
    return z, y, w, x[:n], v, a[-idx - 1 + idx], g[:, h - 4], np.arange(n)[idx].sum()


def sparse_lists(n, m, a, b, c, d, e, g, h, s, k):
    rows, cols, vals = [], [], []
    for i in range(n):
        for p in range(3):
            if e[i, p] > 0:
                rows.append(e[i, p])
                cols.append(i)
                vals.append(a[i]*p)
    z = np.zeros((n, n))
    for r, q, v in zip(rows, cols, vals):
        z[r, q] += v
    y = np.zeros((n, n))
    np.add.at(y, (rows, cols), vals)
    return z, y, len(rows), sum(vals)


def scatter_block(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros((n, n))
    for i in range(n):
        z[np.ix_([i], [d[i]])] += a[i]
    y = np.zeros((n, n))
    for i in range(n):
        for p in range(3):
            for q in range(3):
                y[e[i, p], e[i, q]] += a[i]*(p + 2*q)
    w = np.zeros(2*n)
    for i in range(n):
        for p in range(2):
            w[2*d[i] + p] += a[i]
    return z, y, w


def scatter_skip(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros(n)
    for i in range(n):
        if c[i] == -1:
            continue
        z[d[i]] += a[i]
    y = np.zeros(n)
    keep = c != -1
    np.add.at(y, d[keep], a[keep])
    w = 1.0*np.bincount(d[keep], weights=a[keep], minlength=n)
    x = np.zeros(n)
    for i in np.flatnonzero(keep):
        x[d[i]] += a[i]
    v = np.zeros(n)
    for i, ok in enumerate(keep):
        v[d[i]] += a[i] if ok else 0
    return z, y, w, x, v


def tables(n, m, a, b, c, d, e, g, h, s, k):
    t = np.array([[0, 1], [2, 3], [4, 5]])
    z = np.zeros((n, 6))
    for i in range(3):
        z[:, t[i]] = np.stack([a*i, c], axis=1)
    y = (2*e[:, :, None] + np.arange(2)).reshape(n, 6)
    w = np.repeat(2*e, 2, axis=1) + np.tile([0, 1], 3)
    x = np.empty((n, 6), dtype=int)
    x[:, 0::2] = 2*e
    x[:, 1::2] = 2*e + 1
    return z, y, w, x, t[h % 3], t.T[::-1], t.ravel()[h]


def records(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros((n, 5))
    z[:, 0] = range(n)
    z[:, 1:3] = e[:, :2]
    z[:, 3:] = -1
    y = np.column_stack((np.arange(n), e, np.full(n, 7)))
    w = np.hstack((a[:, None], b, np.zeros((n, 1))))
    x = np.array([[i, 1, *e[i]] for i in range(n)])
    v = np.zeros((n, 3), dtype=int)
    v[:] = [1, k, 3]
    return z, y, w, x, v, np.array([(i, v) for i, v in enumerate(a)]), np.vstack((np.arange(n), a)).T


def groups(n, m, a, b, c, d, e, g, h, s, k):
    z = np.zeros((n, 2))
    for i in range(n):
        if c[i] == k:
            z[e[i], 0] = -1
            z[e[i], 1] = s
    y = np.zeros((n, 2))
    y[e[c == k].ravel()] = [-1, s]
    w = np.zeros(n)
    w[np.unique(e[c == k])] = 1
    return z, y, w, w.sum()


def tri_area(n, m, a, b, c, d, e, g, h, s, k):
    p = np.column_stack((a, c*1.0))
    t = p[e]
    u, v = t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]
    z = u[:, 0]*v[:, 1] - u[:, 1]*v[:, 0]
    return z/2, np.abs(z).sum(), t.mean(axis=1), t[:, [1, 2, 0]] - t, np.sqrt((u**2).sum(axis=1)), t.shape, t.reshape(n, 6)


def minmax_loop(n, m, a, b, c, d, e, g, h, s, k):
    r = h[0]
    for v in h[1:]:
        if v < r:
            r = v
    q = 0
    for i in range(4):
        if h[i] > h[q]:
            q = i
    return r, q, np.argmax(h), max(h), min([k, 2, 3]), sorted([3, 1, 2])


def returns(n, m, a, b, c, d, e, g, h, s, k):
    def pair(x):
        return x, x + 1

    def swap(x, y=1, *, z=2):
        return y, x, z
    (p, q), r = pair(k), 3
    z, y = pair(a)
    return p + q*r, z + y, swap(k, z=s), swap(*pair(2))[1], (lambda *t: t[-1])(1, k), [*map(sum, [[1, k], [2, 3]])]


def floats(n, m, a, b, c, d, e, g, h, s, k):
    return s == s, s != s, s > 1e300, abs(s) < np.inf, -np.inf < s, np.isfinite(s), max(s, 1e-3), s/2 + 0.1, 1e-3*k, 10**-2, float("2.5")*k, np.float64(3)/2, (s + 1)**2 - s**2 - 2*s, np.power(s, 3), np.square(a), np.reciprocal(2.0), np.multiply(a, 2), np.subtract(a, s), np.negative(a), np.add(c, 1), np.divide(c, 2), np.true_divide(c, 4), np.positive(a)


def maybe_copies(n, m, a, b, c, d, e, g, h, s, k):
    t = 1.0*b.T.copy().T
    p = t.reshape(-1)
    x = p.sum()
    p[-1] = 4
    return t, x


def maybe_copies2(n, m, a, b, c, d, e, g, h, s, k):
    t = b.copy()
    p = t.T.reshape(-1)
    q = t[1:].reshape(-1)
    r = t.T.ravel()*1
    t[0, 0] = 5
    return p, q, r


def maybe_copies3(n, m, a, b, c, d, e, g, h, s, k):
    t = np.zeros_like(b.T)
    u = np.zeros((m, n))
    v = t.reshape(-1)
    w = u.reshape(-1)
    w[0] = 3
    v[0] = 2
    return t, u


def maybe_copies4(n, m, a, b, c, d, e, g, h, s, k):
    t = b.T.copy()
    w = t.reshape(-1)
    w[0] = 3
    y = e.copy().reshape(n, 1, 3)
    y[0, 0, 0] = 7
    return t, y, b.T.reshape(-1)
