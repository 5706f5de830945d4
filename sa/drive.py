"""Conditions that the sampled interpretations never decided both ways, and interpretations that do.

Random interpretation compares two value graphs at sampled points.  A condition of the analysed code that came out
the same at every point leaves what it guards unexamined.  `Cover` collects those conditions; `drive` looks for
interpretations of the same symbols, inside the ranges the client program gives them, at which such a condition comes
out the other way (a population search on the condition's own operands), and returns a pool of them, on which the
obligations are then compared as well.  Conditions of rounding size (`np.isclose`, |x| < 1e-6) are left alone.
"""
import time

import numpy as np

from . import terms as tm

TINY = 1e-5


class Cover(object):
    def __init__(self, in_repo):
        self.in_repo = in_repo
        self.seen = {}      # (site, kind) -> [ever true, ever false, {term id: (term, constraints)}]
        self.names = {}     # term id -> names of its symbols that have special values
        self.ordinary = {}  # symbol -> where its value is none of its special values

    def note(self, run, pool):
        memo, m = pool.memo, pool.mask
        if not m.any():
            return
        for t in tm.ATOMS:
            if t.id not in memo or not self.in_repo(t.site):
                continue
            v = truth_of(t, pool)
            if v is None:
                continue
            c = self.seen.setdefault((tuple(t.site), t.k), [False, False, {}])
            if c[0] and c[1]:
                continue
            a, b = bool((v & m).any()), bool((~v & m).any())
            if a and b:
                g = m & self.generic(t, pool)
                if g.any():
                    a, b = bool((v & g).any()), bool((~v & g).any())
            c[0] |= a
            c[1] |= b
            if not (a and b) and len(c[2]) < 3 and t.id not in c[2]:
                c[2][t.id] = (t, list(run.constraints), a)

    def generic(self, t, pool):
        """where no symbol of t has one of the special values the client program gives it"""
        n = self.names.get(t.id)
        if n is None:
            n = self.names[t.id] = [x.a[0] for x in tm.subterms(t).values() if x.k == "s" and getattr(tm._samplers.get(x.a[0]), "extra", ())]
        r = np.ones(pool.K, bool)
        for name in n:
            key = (id(pool.gid), name)
            w = self.ordinary.get(key)
            if w is None:
                x = tm.sym(name)
                w = self.ordinary[key] = ~np.isin(pool.eval(x), np.asarray(tm._samplers[name].extra, dtype=float))
            r = r & w
        return r

    def stuck(self):
        for key, (a, b, ts) in sorted(self.seen.items(), key=lambda kv: str(kv[0])):
            if not (a and b):
                yield key, list(ts.values())


def sides(t):
    """the two operands whose order decides the atom"""
    a, b = t.a[0], t.a[1]
    if t.k in ("lt", "le", "eq", "min", "max"):
        return tm.num(a), tm.num(b)
    return None


def truth_of(t, pool):
    if t.k in ("min", "max"):
        if len(t.a) != 2 or any(tm.cfloat(x) is not None and not np.isfinite(tm.cfloat(x)) for x in t.a):
            return None
        x, y = [pool.memo[y.id] for y in t.a]
        with np.errstate(all="ignore"):
            return tm.pool_num(x) < tm.pool_num(y)
    if t.k == "close":
        return None
    return pool.memo[t.id]


def drivable(t):
    s = sides(t)
    if s is None:
        return False
    for x in s:
        c = tm.closed_value(x)
        if c is not None and (not np.isfinite(float(c)) or 0 < abs(float(c)) <= TINY):
            return False
    return not tm.has_kind(t, ("unk",))


def leaves(ts):
    sub = {}
    for t in ts:
        tm.subterms(t, sub)
    return [x for x in sub.values() if x.k in ("s", "bs") and x.a[0] not in ("pi", "<uninitialised>") and not x.a[0].startswith("lidx:")
            and tm._samplers.get(x.a[0]) is not tm.GROUPSIZE], sub


def singles(seed, K):
    p = tm.Pool(K, seed, (1,))
    return p


def counts(h, t, cons, seed):
    """numbers of rays at which the condition comes out differently"""
    cand = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 17, 20, 21, 25, 26, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129, 150, 200, 201, 256, 257, 300, 400, 500, 501, 512, 513, 1000, 1001, 1024, 1025, 2000, 2049)
    p = tm.Pool(len(cand), seed, cand)
    for c, d in cons:
        p.eval(c)
    p.eval(t)
    v = truth_of(t, p)
    if v is None:
        return ()
    ok = np.ones(p.K, bool)
    per = v[p.starts]
    known = {k for k in h.sizes}
    base = [x for x, k in zip(per, cand) if k in known]
    if not base or any(x != base[0] for x in base):
        return ()
    new = [k for x, k in zip(per, cand) if x != base[0] and k not in known]
    return tuple(new[:2])


def search(t, cons, seed, until, K=400):
    """-> (leaf terms, values (n, leaves) at which t comes out the other way) or None"""
    a, b = sides(t)
    ls, _ = leaves([a, b] + [c for c, d in cons])
    if not ls or len(ls) > 400:
        return None
    own = {x.a[0] for x in leaves([a, b])[0]}
    rng = np.random.default_rng([seed, t.id & 0xffff])
    p = singles(seed + 7, K)
    vals = {}
    for x in ls:
        v = p.leaf_(x)
        vals[x.a[0]] = v.copy()
    names = [x.a[0] for x in ls]
    movable = []
    for x in ls:
        n = x.a[0]
        if n not in own:
            continue
        s = tm._samplers.get(n) or tm.REAL
        movable.append((n, x.k, s))
    if not movable:
        return None

    def score(vals):
        p.memo = {}
        p.forced = vals
        ok = np.ones(K, bool)
        for c, d in cons:
            v = p.eval(c)
            v = v if v.dtype == bool else v != 0
            ok &= v if d else ~v
        x, y = tm.pool_num(p.eval(a)), tm.pool_num(p.eval(b))
        with np.errstate(all="ignore"):
            g = np.where(x == y, 0.0, x - y)
            scale = np.abs(x) + np.abs(y)
        bad = ~np.isfinite(g)
        return g, np.where(np.isfinite(scale), scale, 1.0), ok & ~bad
    g, sc, ok = score(vals)
    if not ok.any():
        return None
    src = np.flatnonzero(ok)
    for n in names:
        vals[n] = np.where(ok, vals[n], vals[n][src[np.arange(K) % len(src)]])
    g, sc, ok = score(vals)
    if t.k == "eq":
        return equate(t, a, b, ls, vals, names, ok)
    cs = [tm.closed_value(x) for x in (a, b)]
    c = next((abs(float(x)) for x in cs if x is not None and float(x) != 0), None)
    sign = np.sign(np.median(g[ok])) or 1.0
    if sign * g[ok].min() < 0 and sign * g[ok].max() < 0:
        return None

    def done(g, sc):
        return -sign * g > (0.05 * c if c is not None else 1e-4 * (1e-3 + sc))
    step = 0
    while time.time() < until and step < 100:
        step += 1
        new = dict(vals)
        for _ in range(int(rng.integers(1, 3))):
            n, k, s = movable[int(rng.integers(len(movable)))]
            old = new[n]
            if k == "bs":
                new[n] = np.where(rng.random(K) < 0.5, ~old.astype(bool), old.astype(bool))
                continue
            lo, hi, ext = getattr(s, "lo", None), getattr(s, "hi", None), getattr(s, "extra", ())
            if lo is None:
                if hasattr(s, "__call__"):
                    new[n] = np.asarray(s(rng, K), dtype=float)
                continue
            fresh = rng.uniform(lo, hi, K)
            near = old + (hi - lo) * rng.normal(size=K) * 10.0 ** -rng.uniform(0, 5, K)
            w = np.where(rng.random(K) < 0.3, fresh, near)
            out = (old < lo) | (old > hi)       # one of the special values given: keep it, or take an ordinary one
            w = np.where(out, np.where(rng.random(K) < 0.3, fresh, old), np.clip(w, lo, hi))
            new[n] = w
        g2, sc2, ok2 = score(new)
        better = ok2 & ((sign * g2 < sign * g) | ~ok)
        for n in names:
            vals[n] = np.where(better, new[n], vals[n])
        g, sc, ok = np.where(better, g2, g), np.where(better, sc2, sc), ok | better
        f = done(g, sc) & ok
        if f.sum() >= K // 8 or (f.any() and step > 80):
            break
    f = np.flatnonzero(done(g, sc) & ok)
    if not len(f):
        return None
    return [(x, vals[x.a[0]][f]) for x in ls]


def equate(t, a, b, ls, vals, names, ok):
    """a parameter compared with a literal or with another parameter: make them equal"""
    if a.k == "c":
        a, b = b, a
    s = tm._samplers.get(a.a[0]) if a.k == "s" else None
    lo, hi = getattr(s, "lo", None), getattr(s, "hi", None)
    if lo is None:
        return None
    c = tm.closed_value(b)
    if c is not None:
        c = float(c)
        if c == 0 or not lo <= c <= hi:
            return None
        v = np.full(len(ok), c)
    elif b.k == "s":
        v = np.clip(vals[b.a[0]], lo, hi)
        if not (v == vals[b.a[0]]).any():
            return None
    else:
        return None
    f = np.flatnonzero(ok)[:48]
    return [(x, (v if x.a[0] == a.a[0] else vals[x.a[0]])[f]) for x in ls]


def pool_of(h, found, seed, per=16):
    """a pool whose groups contain the points found"""
    G = sum(min(per, len(f[0][1])) for f in found)
    p = tm.Pool(G, seed + 13, h.sizes)
    at = 0
    for f in found:
        n = min(per, len(f[0][1]))
        for x, v in f:
            name = x.a[0]
            if name not in p.forced:
                p.forced[name] = p.leaf_(x).copy()
            w = p.forced[name]
            lane = getattr(tm._samplers.get(name), "lane", False)
            for i in range(n):
                g = at + i
                if lane:
                    w[p.starts[g]] = v[i]
                else:
                    w[p.gid == g] = v[i]
        at += n
    return p


def pools(h, cover, seed, budget=6.0):
    """-> (pools, report)"""
    t0 = time.time()
    out, found, rep = [], [], []
    sizes = set()
    todo = [(key, x) for key, ts in cover.stuck() for x in ts]
    todo = [x for x in todo if drivable(x[1][0])]
    tried = {}
    for i, (key, (t, cons, was)) in enumerate(todo):
        name = "%s:%s:%s" % (key[0][0], key[0][2], key[0][1])
        if tried.get(name) or time.time() - t0 > budget:
            tried.setdefault(name, False)
            continue
        _, sub = leaves([t])
        if any(x.k == "s" and tm._samplers.get(x.a[0]) is tm.GROUPSIZE for x in sub.values()):
            k = counts(h, t, cons, seed)
            sizes |= set(k)
            if k:
                tried[name] = True
                continue
        r = search(t, cons, seed, min(t0 + budget, time.time() + max(1.0, budget / max(1, len(todo)))))
        tried[name] = bool(r)
        if r:
            found.append(r)
    if found:
        out.append(pool_of(h, found, seed))
    if sizes:
        k = sorted(sizes)[:3]
        out.append(tm.Pool(max(3, min(60, 4000 // max(k))), seed + 17, tuple(k)))
    return out, tried
