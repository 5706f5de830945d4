"""Partition driver, harness intrinsics and reporting.

A harness is a small client program of the public API (interpreted source).  It is evaluated abstractly: symbolic inputs,
one generic ray, every feasible combination of the run-wide branch decisions (trace partitions).  Obligations are
equalities between value terms of the client and the specification; they are discharged by term congruence, normal form
or random interpretation of the two terms, and refuted only by an interpretation that distinguishes them."""
import json
import os
import sys
import time
import traceback

import numpy as np

from . import terms as tm
from . import arrays as ar
from . import interp as ip
from . import npmodel as npm
from . import models
from .arrays import AArray, LDim, PyRaise, Unsupported
from .interp import AObj, NFunc, NObj, Unk, Bound, AFunc, AClass, Infeasible
from .terms import T

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnchorError(Exception):
    pass


def in_repo(site):
    return site and site[0] and not str(site[0]).startswith("<") and site[0] != ""


def blame(t, limit=4):
    """sites of the terms an actual value is built from, outermost first"""
    out = []
    seen = set()
    q = [t]
    while q and len(out) < limit:
        nq = []
        for x in q:
            if not isinstance(x, T) or x.id in seen:
                continue
            seen.add(x.id)
            s = x.site
            if in_repo(s):
                s = "%s:%s:%s" % (s[0], s[2], s[1])
                if s not in out:
                    out.append(s)
            nq.extend(y for y in x.a if isinstance(y, T))
        q = nq
        if len(seen) > 4000:
            break
    return out[:limit]


class Snap(object):
    def __init__(self, run, root, name="obj"):
        self.items = {}
        self.order = []
        self.keep = []
        self.walk(run, root, name)

    def walk(self, run, v, path):
        st = [(v, path)]
        seen = set()
        while st:
            v, path = st.pop()
            k = id(v)
            if isinstance(v, AArray):
                bk = id(v.buf)
                if ("buf", bk) not in seen:
                    seen.add(("buf", bk))
                    self.items[("buf", bk)] = (v.buf, list(v.buf.cells), path)
                    self.keep.append(v)
                continue
            if isinstance(v, models.AFrame):
                if k in seen:
                    continue
                seen.add(k)
                self.items[("frame", k)] = (v, dict(v.cols), path)
                for n, c in v.cols.items():
                    st.append((c, path + "[%r]" % (n,)))
                continue
            if isinstance(v, models.ASeries):
                st.append((v.arr, path))
                continue
            if isinstance(v, AObj):
                if k in seen:
                    continue
                seen.add(k)
                self.items[("obj", k)] = (v, dict(v.attrs), path)
                for n, c in v.attrs.items():
                    st.append((c, path + "." + n))
                continue
            if isinstance(v, (list, tuple)):
                if k in seen:
                    continue
                seen.add(k)
                if isinstance(v, list):
                    self.items[("list", k)] = (v, list(v), path)
                for i, c in enumerate(v):
                    if isinstance(c, (AArray, AObj, list, tuple, dict, Bound)):
                        st.append((c, "%s[%d]" % (path, i)))
                continue
            if isinstance(v, dict):
                if k in seen:
                    continue
                seen.add(k)
                self.items[("dict", k)] = (v, dict(v), path)
                for n, c in v.items():
                    if isinstance(c, (AArray, AObj, list, tuple, dict, Bound)):
                        st.append((c, "%s[%s]" % (path, n if isinstance(n, (str, int)) else "..")))
                continue
            if isinstance(v, Bound):
                st.append((v.self, path + ".<self>"))

    def changes(self, run, ignore=()):
        out = []
        for key, (v, old, path) in self.items.items():
            if any(path == p or path.startswith(p) for p in ignore):
                continue
            if key[0] == "buf":
                for i, (a, b) in enumerate(zip(old, v.cells)):
                    if a is not b and not run.same(a, b):
                        out.append((path, "cell %d" % i, v.last_write))
                        break
            elif key[0] == "obj":
                for n in set(old) | set(v.attrs):
                    if any((path + "." + n).startswith(p) for p in ignore):
                        continue
                    a, b = old.get(n, ip._MISSING), v.attrs.get(n, ip._MISSING)
                    if (a is None or a is ip._MISSING) and filled_later(v.cls, n):
                        continue
                    if a is not b and not run.same(a, b):
                        out.append((path, "." + n, v.writes.get(n)))
            elif key[0] == "list":
                if len(old) != len(v) or any(a is not b and not run.same(a, b) for a, b in zip(old, v)):
                    out.append((path, "list contents", None))
            elif key[0] == "dict":
                if set(map(repr, old)) != set(map(repr, v)) or any(k in v and v[k] is not a and not run.same(a, v[k]) for k, a in old.items()):
                    out.append((path, "dict contents", None))
            elif key[0] == "frame":
                if list(old) != list(v.cols):
                    out.append((path, "columns", None))
        return out


def filled_later(cls, name):
    """a private attribute that goes from empty to filled, or a cached property: remembering an answer is no
    change of the object (that the answers asked for afterwards are the same is checked where they are asked)"""
    if name.startswith("_"):
        return True
    v, _ = cls.lookup(name)
    return isinstance(v, ip.CachedProp)


class Run(object):
    """one partition of one harness"""

    def __init__(self, chk, pool, prefix, repo):
        self.chk = chk
        self.pool = pool
        self.prefix = prefix
        self.taken = []
        self.path = []
        self.constraints = []   # what has been decided or assumed so far
        self.pending = []
        self.it = ip.Interp(repo, self.decide)
        npm.IT[0] = self.it
        self.it.run = self
        self.results = []       # (label, status, detail dict)
        self.records = {}
        self.install()

    # --------------------------------------------------------- decisions
    def decide(self, t):
        v = self.pool.eval(t)
        if v.dtype != bool:
            v = v != 0
        m = self.pool.mask
        if not m.any():
            raise Infeasible()
        tv, fvv = (v & m).any(), (~v & m).any()
        if not fvv:
            return True
        if not tv:
            return False
        if tm.has_kind(t, ("unk",)):
            raise Unsupported("branch on a value the analysis does not model")
        i = len(self.taken)
        d = self.prefix[i] if i < len(self.prefix) else True
        if i >= len(self.prefix):
            self.pending.append(self.taken + [False])
        self.taken.append(d)
        self.constraints.append((t, d))
        self.path.append((tuple(tm.CUR), d))
        self.pool.mask = m & (v if d else ~v)
        return d

    # --------------------------------------------------------- comparisons
    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (T, bool, int)) and isinstance(b, (T, bool, int)):
            a, b = tm.const(a), tm.const(b)
            if a is b:
                return True
            if not self.pool.mask.any():
                return True
            return tm.eval_equal(self.pool, tm.num(a), tm.num(b))[0]
        if isinstance(a, AArray) and isinstance(b, AArray):
            if a.buf is b.buf and a.idx.shape == b.idx.shape and (a.idx == b.idx).all():
                return True
            return self.dims_equal(a.dims, b.dims) and all(self.same(x, y) for x, y in zip(a.cells(), b.cells()))
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a == b
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return a == b
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, AObj) and isinstance(b, AObj):
            # plain value objects (a box, a shape) are interchangeable when all they hold is
            return a.cls is b.cls and set(a.attrs) == set(b.attrs) and all(
                not isinstance(v, (AObj, Bound)) and self.same(v, b.attrs[n]) for n, v in a.attrs.items())
        return False

    def dims_equal(self, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, LDim) != isinstance(y, LDim):
                return False
            if x != y:
                return False
        return True

    def out(self, label, status, **d):
        self.results.append((label, status, d))

    def sites(self):
        return [list(s[0]) + [s[1]] for s in self.path][-12:]

    def leaves(self, terms, i):
        sub = {}
        for t in terms:
            if isinstance(t, T):
                tm.subterms(t, sub)
        r = {}
        for t in sub.values():
            if t.k in ("s", "bs") and t.a[0] != "pi":
                r[t.a[0]] = float(self.pool.eval(t)[i])
        return dict(sorted(r.items())[:40])

    def confirm(self, a, b, idx, rtol, atol):
        """does the difference persist in extended precision (not a rounding artefact)?"""
        if self.pool.dtype is not float:
            return True
        if getattr(self.chk, "_hi", None) is None or self.chk._hi_of is not self.pool.memo:
            self.chk._hi, self.chk._hi_of = self.pool.hi(), self.pool.memo
        hp = self.chk._hi
        x, y = hp.eval(a)[idx], hp.eval(b)[idx]
        if x.dtype == bool and y.dtype == bool:
            return bool(x != y)
        x, y = np.longdouble(x), np.longdouble(y)
        if np.isnan(x) and np.isnan(y) or x == y:
            return False
        if np.isnan(x) != np.isnan(y) or np.isinf(x) or np.isinf(y):
            return True
        return bool(abs(x - y) > atol + rtol * (1 + max(abs(x), abs(y))))

    def compare_terms(self, a, b, mask, rtol=1e-6, atol=1e-7):
        """-> (status, method/idx, n)"""
        if a is b:
            n = int((self.pool.mask & mask).sum())
            return "held" if n else "vacuous", "congruence", n
        m = self.pool.mask & mask
        ua, ub = tm.has_kind(a, ("unk",)), tm.has_kind(b, ("unk",))
        if ua or ub:
            return "undecided", (ua or ub)[0].a[0], 0
        if not m.any():
            return "vacuous", None, 0
        if a.bool != b.bool:
            a, b = tm.num(a), tm.num(b)
        x, y = self.pool.eval(a), self.pool.eval(b)
        if x.dtype == bool and y.dtype == bool:
            bad = (x != y) & m
        else:
            x, y = tm.pool_num(x), tm.pool_num(y)
            with np.errstate(all="ignore"):
                scale = 1 + np.maximum(np.abs(x), np.abs(y))
                ok = np.abs(x - y) <= atol + rtol * np.where(np.isfinite(scale), scale, 1)
                ok = ok | (np.isnan(x) & np.isnan(y)) | (x == y)
            bad = ~ok & m
        for i in np.flatnonzero(bad)[:64]:
            if self.confirm(a, b, int(i), rtol, atol):
                return "violated", int(i), int(m.sum())
        try:
            how = "normal form" if (not a.bool and self.chk.budget_nf() and tm.nf_equal(a, b, 300)) else "random interpretation"
        except RecursionError:
            how = "random interpretation"
        return "held", how, int(m.sum())

    def where_mask(self, where, dims, ix):
        return np.ones(self.pool.K, bool)

    def check_eq(self, label, a, b, where=None, rtol=1e-6, atol=1e-7):
        if isinstance(a, Unk) or isinstance(b, Unk):
            self.out(label, "undecided", why=(a if isinstance(a, Unk) else b).reason)
            return
        if isinstance(a, (str, type(None), AObj, AClass)) or isinstance(b, (str, type(None), AObj, AClass)):
            ok = a is b or (isinstance(a, str) and a == b)
            self.out(label, "held" if ok else "violated", why="%s instead of %s" % (self.it.describe(a) if not isinstance(a, str) else a, self.it.describe(b) if not isinstance(b, str) else b), sites=[], n=1, how="identity")
            return
        A, B = self.prune(npm.asarray(a)), self.prune(npm.asarray(b))
        W = None if where is None else self.prune(npm.asarray(where))
        try:
            d = ar.bdims(A.dims, B.dims)
        except PyRaise as e:
            self.shape_violation(label, A, B)
            return
        if not self.dims_equal(A.dims, d):
            self.shape_violation(label, A, B)
            return
        ac = A.cells()
        bi = ar.broadcast_idx(B, d).ravel()
        bc = [B.buf.cells[i] for i in bi]
        wc = [tm.TRUE] * len(ac)
        if W is not None:
            wi = ar.broadcast_idx(W, d).ravel()
            wc = [tm.truth(W.buf.cells[i]) for i in wi]
        shp = ar.gshape(d)
        n, hows, worst = 0, {}, None
        for k, ix in enumerate(np.ndindex(*shp)):
            x, y, w = ac[k], bc[k], wc[k]
            for dd, i in zip(d, ix):
                if isinstance(dd, LDim):
                    w = tm.and_(w, dd.blocks[i][1])
            if w is tm.FALSE:
                continue
            if not isinstance(x, T) or not isinstance(y, T):
                if x is y or (not isinstance(x, T) and not isinstance(y, T) and x == y):
                    n += 1
                    continue
                self.out(label, "violated", why="element %s is %r instead of %r" % (ix, x, y), sites=[], n=1)
                return
            st, how, m = self.compare_terms(x, y, self.pool.eval(w), rtol, atol)
            if st == "violated":
                i = how
                self.out(label, "violated", why="element %s: %s, required %s" % (list(ix), self.num(x, i), self.num(y, i)), sites=blame(x), n=n,
                         values=self.leaves([x, y, w], i), term=tm.show(x, 5)[:400], required=tm.show(y, 5)[:400])
                return
            if st == "undecided":
                worst = how
            else:
                n += m
                hows[how] = hows.get(how, 0) + 1
        if worst is not None:
            self.out(label, "undecided", why="depends on %s" % worst)
        else:
            self.out(label, "held" if n else ("vacuous" if ac else "held"), n=n, how=max(hows, key=hows.get) if hows else "empty", cells=len(ac))

    def shape_violation(self, label, A, B):
        sites, why = [], None
        for x, y in zip(A.dims, B.dims):
            if isinstance(x, LDim) and isinstance(y, LDim):
                if len(x.blocks) != len(y.blocks):
                    why = "%d groups of rays where %d are required" % (len(x.blocks), len(y.blocks))
                for (l, g), (l2, g2) in zip(x.blocks, y.blocks):
                    if l == l2 and not ar.same_guard(g, g2):
                        a, b = self.pool.eval(g), self.pool.eval(g2)
                        i = [int(k) for k in np.flatnonzero((a != b) & self.pool.mask)]
                        if i:
                            why = "a ray is %s although it is required to be %s" % (("selected", "excluded")[::1 if a[i[0]] else -1])
                        sites += [s for s in blame(g) if s not in sites]
        for x in A.dims:
            if isinstance(x, LDim):
                for l, g in x.blocks:
                    sites += [s for s in blame(g) if s not in sites]
        self.out(label, "violated", why=(why + "; " if why else "") + "shape %s where %s is required" % (str(A.dims)[:200], str(B.dims)[:200]),
                 sites=(sites or (blame(A.cells()[0]) if A.cells() else []))[:4] or self.repo_sites(), n=1)

    def prune(self, a):
        """drop the segments of a lane axis that are empty in every interpretation of this partition"""
        for ax, d in enumerate(a.dims):
            if not isinstance(d, LDim):
                continue
            keep = [i for i, (l, g) in enumerate(d.blocks) if g is tm.TRUE or tm.has_kind(g, ("unk",)) or (self.pool.eval(g) & self.pool.mask).any()]
            if len(keep) == len(d.blocks):
                continue
            dims = list(a.dims)
            dims[ax] = LDim([d.blocks[i] for i in keep]) if keep else 0
            cells = np.empty(a.idx.shape, dtype=object)
            for k, c in zip(np.ndindex(*a.idx.shape), a.cells()):
                cells[k] = c
            cells = np.take(cells, keep, axis=ax)
            a = ar.from_cells(list(cells.ravel()), cells.shape, tuple(dims), a.dtype, a.cls)
        return a

    def num(self, t, i):
        v = self.pool.eval(t)[i]
        return str(bool(v)) if v.dtype == bool else "%.9g" % float(v)

    def check(self, label, cond, where=None, why=None):
        if isinstance(cond, bool):
            if not cond and where is not None and not self.feasible(where):
                self.out(label, "vacuous")
                return
            self.out(label, "held" if cond else "violated", why=why or "condition is false", sites=self.repo_sites(), n=1, how="structure")
            return
        self.check_eq(label, cond, ar.full(npm.asarray(cond).dims, tm.TRUE, "b"), where)
        if why and self.results[-1][1] == "violated":
            self.results[-1][2]["why"] = why + " (%s)" % self.results[-1][2]["why"]

    def feasible(self, w):
        for c in npm.asarray(w).cells():
            if (self.pool.eval(tm.truth(c)) & self.pool.mask).any():
                return True
        return False

    def repo_sites(self):
        return ["%s:%s:%s" % (s[0][0], s[0][2], s[0][1]) for s in self.path if in_repo(s[0])][-4:]

    # --------------------------------------------------------- harness intrinsics
    def install(self):
        B = self.it.builtins

        def reg(name):
            def deco(f):
                B[name] = NFunc(name, f)
                return f
            return deco

        def fl(v):
            r = tm.closed_value(tm.num(tm.const(v)))
            if r is None:
                raise Unsupported("harness: not a literal number: %r" % (v,))
            return r

        def smp(lo, hi, extra, p, lane):
            s = tm.uniform(fl(lo), fl(hi), tuple(fl(e) for e in extra), fl(p))
            s.lane = lane
            return s

        @reg("SYM")
        def _sym(it, name, lo=-2, hi=2, extra=(), p=0.25):
            return tm.sym(name, smp(lo, hi, extra, p, False))

        @reg("CHOICE")
        def _choice(it, name, values):
            s = tm.choice([fl(v) for v in values])
            return tm.sym(name, s)

        @reg("LANE")
        def _lane(it, name):
            n = tm.sym("N:" + name, tm.GROUPSIZE)
            ar.new_lane(name, n)
            return n

        def lane_arr(n, t, dtype="f"):
            ld = ar.ldim_for_size(n)
            return ar.from_cells([t], (1,), (ld,), dtype)

        @reg("LVAR")
        def _lvar(it, name, n, lo=-2, hi=2, extra=(), p=0.25):
            return lane_arr(n, tm.sym(name, smp(lo, hi, extra, p, True)))

        @reg("LCHOICE")
        def _lchoice(it, name, n, values):
            s = tm.choice([fl(v) for v in values])
            s.lane = True
            return lane_arr(n, tm.sym(name, s))

        @reg("LBOOL")
        def _lbool(it, name, n, p=0.5):
            s = tm.Sampler(lambda rng, k: (rng.random(k) < fl(p)))
            s.lane = True
            return lane_arr(n, tm.bsym(name, s), "b")

        @reg("BSYM")
        def _bsym(it, name):
            return tm.bsym(name)

        @reg("UF")
        def _uf(it, name, kind, *args):
            arrs = [npm.asarray(a) for a in args]
            return npm.wrap(ar.elementwise(lambda *c: tm.uf(name, kind, *c), arrs, "f")) if arrs else tm.uf(name, kind)

        @reg("UFALL")
        def _ufall(it, name, kind, arr, *args):
            """one uninterpreted value per column of a 2-D array (depends on the whole column)"""
            a = npm.asarray(arr)
            rows = [npm.asarray(ar.getitem(a, i)) for i in range(a.dims[0])]
            return npm.wrap(ar.elementwise(lambda *c: tm.uf(name, kind, *c), rows + [npm.asarray(x) for x in args], "f"))

        @reg("CHECK_EQ")
        def _ceq(it, label, a, b, where=None, rtol=None, atol=None):
            self.check_eq(label, a, b, where, 1e-6 if rtol is None else fl(rtol), 1e-7 if atol is None else fl(atol))

        @reg("EQUIV")
        def _equiv(it, a, b, where=None, rtol=1e-6, atol=1e-7):
            """are two values equal (nothing is reported)?"""
            k = len(self.results)
            self.check_eq("", a, b, where, fl(rtol), fl(atol))
            st = [r[1] for r in self.results[k:]]
            del self.results[k:]
            return all(x in ("held", "vacuous") for x in st)

        @reg("LONG_SESSION")
        def _long(it, n):
            """many objects have been counted before"""
            for st in getattr(it, "counters", []):
                if isinstance(st[0], int):
                    st[0] += int(fl(n))

        @reg("DRAWS")
        def _draws(it, n):
            """the uniform random numbers drawn so far, one array over the lane axis per draw"""
            r = []
            for k in range(1, getattr(it, "rnd", 0) + 1):
                r.append(lane_arr(n, tm.sym("rndL%d" % k)))
            return r

        @reg("CHECK")
        def _c(it, label, cond, where=None, why=None):
            if isinstance(cond, Unk):
                self.out(label, "undecided", why=cond.reason)
                return
            self.check(label, cond, where, why)

        @reg("FAIL")
        def _fail(it, label, why):
            self.check(label, False, None, why)

        @reg("RECORD")
        def _rec(it, label, v):
            a = npm.asarray(v)
            self.records[label] = [(c, tm.and_(*([tm.TRUE] + [d.blocks[i][1] for d, i in zip(a.dims, ix) if isinstance(d, LDim)])))
                                   for c, ix in zip(a.cells(), np.ndindex(*ar.gshape(a.dims)))]

        @reg("ASSUME")
        def _assume(it, cond):
            v = None
            for c in npm.asarray(cond).cells():
                self.constraints.append((tm.truth(c), True))
                x = self.pool.eval(tm.truth(c))
                v = x if v is None else v & x
            self.pool.mask = self.pool.mask & v
            if not self.pool.mask.any():
                raise Infeasible()

        @reg("ASSUME_ALL")
        def _assume_all(it, cond):
            """every ray of the run satisfies cond"""
            v = None
            for c in npm.asarray(cond).cells():
                self.constraints.append((tm.truth(c), True))
                x = self.pool.eval(tm.truth(c))
                v = x if v is None else v & x
            g = self.pool.group(np.logical_and, v)
            self.pool.mask = self.pool.mask & g
            if not self.pool.mask.any():
                raise Infeasible()

        @reg("SNAP")
        def _snap(it, o, name="obj"):
            s = NObj("snapshot")
            s.snap = Snap(self, o, name)
            return s

        @reg("UNCHANGED")
        def _unch(it, label, s, ignore=()):
            ch = s.snap.changes(self, tuple(ignore))
            if ch:
                p, what, site = ch[0]
                self.out(label, "violated", why="%s %s is changed" % (p, what) + ("; also: " + ", ".join("%s %s" % (a, b) for a, b, _ in ch[1:4]) if len(ch) > 1 else ""),
                         sites=["%s:%s:%s" % (site[0], site[2], site[1])] if site else [], n=1)
            else:
                self.out(label, "held", n=len(s.snap.items), how="heap comparison")

        @reg("SHARES")
        def _shares(it, a, b):
            """do two object graphs share a mutable array or container"""
            x, y = Snap(self, a), Snap(self, b)
            return bool(set(k for k in x.items if k[0] in ("buf", "list", "dict", "frame")) & set(y.items))

        @reg("RAISES")
        def _raises(it, f, *a, **k):
            try:
                it.call(f, list(a), k)
                return None
            except PyRaise as e:
                return e.cls

        @reg("MPL")
        def _mpl(it, method=None):
            return [(getattr(o, "kind", "?"), m, a, k) for o, m, a, k, s in it.mpl_log if method is None or m == method]

        @reg("SAMEOBJ")
        def _same(it, a, b):
            return a is b or a == b if isinstance(a, Bound) else a is b

        @reg("ISUNK")
        def _isunk(it, v):
            return isinstance(v, Unk)

        @reg("AND")
        def _and(it, *xs):
            return npm.wrap(ar.elementwise(lambda *c: tm.and_(*[tm.truth(x) for x in c]), [npm.asarray(x) for x in xs], "b"))

        @reg("OR")
        def _or(it, *xs):
            return npm.wrap(ar.elementwise(lambda *c: tm.or_(*[tm.truth(x) for x in c]), [npm.asarray(x) for x in xs], "b"))

        @reg("NOT")
        def _not(it, x):
            return npm.wrap(ar.elementwise(lambda c: tm.not_(tm.truth(c)), [npm.asarray(x)], "b"))

        @reg("CONST")
        def _const(it, v):
            return tm.const(v)

        @reg("SHOW")
        def _show(it, *v):
            for x in v:
                if isinstance(x, AArray):
                    print("   ", x, [tm.show(c, 6) for c in x.cells()[:20]])
                elif isinstance(x, T):
                    print("   ", tm.show(x, 8))
                else:
                    print("   ", repr(x)[:300])

        @reg("EVAL")
        def _evalshow(it, *v):
            for x in v:
                a = npm.asarray(x)
                i = int(np.flatnonzero(self.pool.mask)[0])
                print("   ", a.dims, [self.num(c, i) if isinstance(c, T) else c for c in a.cells()])

        @reg("FUNCTIONS")
        def _functions(it):
            return len(it.functions)


class Harness(object):
    def __init__(self, name, src, entry="main", groups=240, sizes=(1, 2, 3, 5), max_parts=400, arg=None, time_cap=600):
        self.name, self.src, self.entry, self.groups, self.sizes, self.max_parts, self.arg = name, src, entry, groups, sizes, max_parts, arg
        self.time_cap = time_cap


class Explorer(object):
    """explores all partitions of one harness"""

    def __init__(self, h, repo="/repo", seed=1, verbose=False, pool=None, cover=None):
        self.cover = cover
        self.h, self.repo, self.seed, self.verbose = h, repo, seed, verbose
        self.pool0 = pool
        self.nf_until = None

    def budget_nf(self):
        return time.time() < self.nf_until

    def go(self):
        h = self.h
        t0 = time.time()
        self.nf_until = t0 + 60
        pool = self.pool0 if self.pool0 is not None else tm.Pool(h.groups, self.seed, h.sizes)
        self.pool_used = pool
        full = np.ones(pool.K, bool)
        stack = [[]]
        res = {"harness": h.name, "labels": {}, "partitions": 0, "infeasible": 0, "errors": [], "error_kinds": {}, "functions": {}, "lines": 0, "calls": 0,
               "interpretations": pool.K, "unks": set(), "skipped": 0}
        covered = set()
        self.records = []
        while stack:
            prefix = stack.pop()
            if res["partitions"] >= h.max_parts or time.time() - t0 > h.time_cap:
                res["skipped"] += 1 + len(stack)
                break
            pool.mask = full.copy()
            ar.POOL[0] = pool
            ar.LANES.clear()
            ar.SIZES.clear()
            tm.CUR[:] = ["<harness>", "main", 0]
            run = None
            try:
                run = Run(self, pool, prefix, self.repo)
                run.it.add_source("harness_" + h.name, h.src)
                m = run.it.import_module("harness_" + h.name)
                run.it.call(m.ns[h.entry], [] if h.arg is None else [h.arg], {})
            except Infeasible:
                res["infeasible"] += 1
            except PyRaise as e:
                if in_repo(e.site):
                    run.out("completes", "violated", why="%s: %s" % (e.cls, e.msg), sites=["%s:%s:%s" % (e.site[0], e.site[2], e.site[1])], n=1)
                else:
                    msg = "%s: %s at line %s of the client program" % (e.cls, e.msg, e.site[2])
                    lines = h.src.split("\n")
                    if isinstance(e.site[2], int) and 0 < e.site[2] <= len(lines):
                        msg += ": " + lines[e.site[2] - 1].strip()
                    res["errors"].append(msg)
                    if e.cls in ("ImportError", "ModuleNotFoundError") or (e.cls == "AttributeError" and ("module" in e.msg or "type object" in e.msg)):
                        res["error_kinds"][msg] = "anchor"
            except Unsupported as e:
                run.out("completes", "undecided", why=str(e))
            except RecursionError:
                run.out("completes", "undecided", why="recursion limit of the analysis")
            except (ip._Return, ip._Break, ip._Continue) as e:
                run.out("completes", "undecided", why="control flow")
            except Exception as e:
                if self.verbose:
                    traceback.print_exc()
                site = "%s:%s:%s" % (tm.CUR[0], tm.CUR[2], tm.CUR[1])
                if run is None:
                    raise
                run.out("completes", "undecided", why="analysis error %s: %s at %s" % (type(e).__name__, e, site))
            else:
                run.out("completes", "held", n=int(pool.mask.sum()), how="all paths return")
            if run is None:
                continue
            if self.cover is not None:
                self.cover.note(run, pool)
            for g in run.it.suspended:
                g.close()
            stack.extend(run.pending)
            res["partitions"] += 1
            for k, v in run.it.functions.items():
                res["functions"][k] = res["functions"].get(k, 0) + v
            covered |= run.it.covered
            res["calls"] += run.it.calls
            res["unks"] |= set(run.it.unks)
            if run.records:
                self.records.append((pool.mask.copy(), run.records))
            for label, status, d in run.results:
                L = res["labels"].setdefault(label, {"held": 0, "violated": 0, "undecided": 0, "vacuous": 0, "n": 0, "how": {}, "viol": [], "und": []})
                L[status] += 1
                if status == "held":
                    L["n"] += d.get("n", 0)
                    hw = d.get("how")
                    L["how"][hw] = L["how"].get(hw, 0) + 1
                elif status == "violated" and len(L["viol"]) < 3:
                    d["path"] = run.sites()
                    L["viol"].append(d)
                elif status == "undecided" and len(L["und"]) < 3:
                    L["und"].append(d.get("why"))
        res["lines"] = len([c for c in covered if in_repo(c)])
        res["covered"] = sorted(c for c in covered if in_repo(c))
        res["functions"] = {"%s:%s" % k: v for k, v in res["functions"].items() if in_repo(k)}
        res["unks"] = sorted(res["unks"])
        res["wall"] = time.time() - t0
        return res
