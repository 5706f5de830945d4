"""Engine validation (not a check): random small numpy programs are interpreted abstractly, and every variable they compute is
compared, interpretation by interpretation, with what numpy computes for the same numbers.  Nothing of /repo is involved.

    python3-vt tools/fuzz.py [first seed] [number of programs] [statements]
"""
import collections
import os
import random
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa
from sa import analysis, arrays as ar, interp as ip, terms as tm  # noqa
from sa.analysis import Explorer, Harness  # noqa

warnings.simplefilter("ignore")


class V(object):
    def __init__(self, name, shape, dt):
        self.name, self.shape, self.dt = name, shape, dt


class Gen(object):
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.vars = []
        self.lines = []
        self.k = 0
        self.sel = {}       # dim -> (mask name, dim it selects from)
        self.dims = {}      # expression for the size of a symbolic dim

    def new(self):
        self.k += 1
        return "v%d" % self.k

    def pick(self, f=lambda v: True):
        c = [v for v in self.vars if f(v)]
        if not c:
            raise IndexError
        # recent ones are more likely
        return self.r.choice(c[-6:] if self.r.random() < 0.6 else c)

    def put(self, code, shape, dt):
        n = self.new()
        self.lines.append("%s = %s" % (n, code))
        self.vars.append(V(n, tuple(shape), dt))
        return n

    def scalar(self):
        r = self.r
        return r.choice(["0.5", "2.0", "-1.0", "1.5", "0", "3.0", "s0", "s1"])

    def start(self):
        L = self.lines
        L.append('n = LANE("n")')
        for i in range(2):
            L.append('s%d = SYM("s%d", -2, 2)' % (i, i))
        for i in range(3):
            L.append('x%d = LVAR("x%d", n, -2, 2, (0, 1))' % (i, i))
            self.vars.append(V("x%d" % i, ("n",), "f"))
        L.append('A = np.stack((x0, x1, x2))')
        self.vars.append(V("A", (3, "n"), "f"))
        L.append('B = np.zeros((4, n))')
        self.vars.append(V("B", (4, "n"), "f"))
        L.append('C = np.array([SYM("c%d" % i, -2, 2, (0,)) for i in range(4)])')
        self.vars.append(V("C", (4,), "f"))
        L.append('D = np.array([[SYM("d%d%d" % (i, j), -2, 2, (0,)) for j in range(4)] for i in range(3)])')
        self.vars.append(V("D", (3, 4), "f"))
        L.append('m0 = x0 > 0')
        self.vars.append(V("m0", ("n",), "b"))
        L.append('mc = C > 0')
        self.vars.append(V("mc", (4,), "b"))

    # ---- templates
    def t_elem(self):
        a = self.pick(lambda v: v.dt == "f")
        b = self.pick(lambda v: v.dt == "f" and v.shape[-1] == a.shape[-1])
        big = a if len(a.shape) >= len(b.shape) else b
        if len(a.shape) == len(b.shape) and a.shape != b.shape:
            return
        op = self.r.choice(["%s + %s", "%s - %s", "%s * %s", "np.maximum(%s, %s)", "np.minimum(%s, %s)", "np.hypot(%s, %s)", "%s / (1 + np.abs(%s))", "np.add(%s, %s)"])
        self.put(op % (a.name, b.name), big.shape, "f")

    def t_un(self):
        a = self.pick(lambda v: v.dt == "f")
        op = self.r.choice(["-%s", "np.abs(%s)", "np.square(%s)", "%s ** 2", "np.sqrt(np.abs(%s))", "np.sign(%s)", "np.clip(%s, -1, 1)", "np.cos(%s)", "np.clip(%s, 0, None)",
                            "np.where(%s > 0, 1.0, -1.0)", "np.asarray(%s)", "%s.copy()", "np.nan_to_num(%s)", "1 / %s", "np.array(%s, dtype=float)"])
        self.put(op % a.name, a.shape, "f")

    def t_sc(self):
        a = self.pick(lambda v: v.dt == "f")
        sc = self.scalar()
        self.put(self.r.choice(["%s + %s", "%s * %s" if sc != "0" else "%s + %s", "np.maximum(%s, %s)", "%s - %s"]) % (a.name, sc), a.shape, "f")

    def t_cmp(self):
        a = self.pick(lambda v: v.dt == "f")
        s = self.scalar()
        op = self.r.choice(["%s > %s", "%s <= %s", "%s == %s", "np.isclose(%s, %s)", "%s != %s", "np.less(%s, %s)"])
        self.put(op % (a.name, s), a.shape, "b")

    def t_cmp2(self):
        a = self.pick(lambda v: v.dt == "f")
        b = self.pick(lambda v: v.dt == "f" and v.shape == a.shape)
        self.put(self.r.choice(["%s > %s", "%s <= %s", "np.greater_equal(%s, %s)"]) % (a.name, b.name), a.shape, "b")

    def t_pred(self):
        a = self.pick(lambda v: v.dt == "f")
        self.put(self.r.choice(["np.isfinite(%s)", "np.isinf(%s)", "~(%s > 0)", "np.isnan(%s)", "%s.astype(bool)"]) % a.name, a.shape, "b")

    def t_bool(self):
        a = self.pick(lambda v: v.dt == "b")
        b = self.pick(lambda v: v.dt == "b" and v.shape == a.shape)
        self.put(self.r.choice(["%s & %s", "%s | %s", "%s ^ %s", "np.logical_and(%s, %s)", "np.logical_or(%s, ~%s)", "%s == %s"]) % (a.name, b.name), a.shape, "b")

    def t_num(self):
        a = self.pick(lambda v: v.dt == "b")
        self.put(self.r.choice(["%s.astype(float)", "1.0 * %s", "1.0 - %s", "np.where(%s, 2.0, 0.5)"]) % a.name, a.shape, "f")

    def t_where(self):
        a = self.pick(lambda v: v.dt == "f")
        m = self.pick(lambda v: v.dt == "b" and v.shape in (a.shape, a.shape[-1:]))
        b = self.r.choice([v.name for v in self.vars if v.dt == "f" and v.shape == a.shape] + [self.scalar(), "np.inf"])
        op = self.r.choice(["np.where(%s, %s, %s)", "np.where(~%s, %s, %s)", "np.select([%s], [%s], %s)"])
        if op.startswith("np.select") and m.shape != a.shape:
            return
        if op.startswith("np.select") and b in [v.name for v in self.vars]:
            pass
        self.put(op % (m.name, a.name, b), a.shape, "f")

    def t_mask(self):
        """select by a mask along the last axis"""
        a = self.pick(lambda v: v.dt == "f" and isinstance(v.shape[-1], str) or v.shape[-1:] == (4,))
        m = self.pick(lambda v: v.dt == "b" and v.shape == a.shape[-1:])
        if m.name not in self.sel:
            self.sel[m.name] = "sel:%s" % m.name
        d = self.sel[m.name]
        way = self.r.choice(["{a}[..., {m}]", "{a}[..., np.flatnonzero({m})]", "np.compress({m}, {a}, axis=-1)", "{a}[..., np.nonzero({m})[0]]", "{a}[..., np.where({m})[0]]", "np.take({a}, np.flatnonzero({m}), axis=-1)"])
        self.put(way.format(a=a.name, m=m.name), a.shape[:-1] + (d,), a.dt)

    def t_putmask(self):
        """write through a mask along the last axis"""
        a = self.pick(lambda v: v.dt == "f" and v.name not in ("x0", "x1", "x2", "C", "D"))
        m = self.pick(lambda v: v.dt == "b" and v.shape == a.shape[-1:])
        b = self.r.choice([v.name + "[..., %s]" % m.name for v in self.vars if v.dt == "f" and v.shape in (a.shape, a.shape[-1:])]
                          + [v.name for v in self.vars if v.dt == "f" and self.sel.get(m.name) and v.shape == (self.sel[m.name],)] + [self.scalar(), "np.inf"])
        ix = self.r.choice(["%s", "np.flatnonzero(%s)", "np.where(%s)[0]", "np.nonzero(%s)[0]"]) % m.name
        self.lines.append("%s = %s.copy()" % (a.name, a.name))
        way = self.r.choice(["{a}[..., {ix}] = {b}", "{a}[..., {ix}] += {b}", "{a}[..., {ix}] *= {b}"])
        if len(a.shape) == 2 and self.r.random() < 0.3:
            if "[..." in b or b in [v.name for v in self.vars]:
                b = self.scalar()
            way = "{a}[%d, {ix}] = {b}" % self.r.randrange(a.shape[0])
        self.lines.append(way.format(a=a.name, ix=ix, b=b))

    def t_copyto(self):
        a = self.pick(lambda v: v.dt == "f" and v.name not in ("x0", "x1", "x2", "C", "D"))
        m = self.pick(lambda v: v.dt == "b" and v.shape == a.shape)
        b = self.r.choice([v.name for v in self.vars if v.dt == "f" and v.shape == a.shape] + [self.scalar()])
        self.lines.append("%s = %s.copy()" % (a.name, a.name))
        self.lines.append(self.r.choice(["np.copyto({a}, {b}, where={m})", "np.putmask({a}, {m}, {b})", "{a}[{m}] = {b}[{m}]" if not b[0].isdigit() and b[0] not in "-s" else "{a}[{m}] = {b}",
                                         "np.multiply({a}, {b}, out={a}, where={m})"]).format(a=a.name, b=b, m=m.name))

    def t_fullmask(self):
        a = self.pick(lambda v: v.dt == "f" and v.name not in ("x0", "x1", "x2", "C", "D"))
        self.lines.append("%s = %s.copy()" % (a.name, a.name))
        self.lines.append(self.r.choice(["{a}[{a} < 0] = 0", "{a}[~({a} > 0)] = np.inf", "{a}[np.isnan({a})] = 0.0", "{a}[{a} > 1] *= 2", "{a}[{a} == 0] -= 1"]).format(a=a.name))

    def t_red0(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2)
        op = self.r.choice(["np.sum(%s, axis=0)", "%s.max(axis=0)", "np.min(%s, axis=0)", "np.linalg.norm(%s, axis=0)", "np.mean(%s, axis=0)", "np.amax(%s, 0)", "np.prod(%s, axis=0)",
                            "np.einsum('ij,ij->j', %s, {0})".format(a.name), "np.add.reduce(%s)", "np.maximum.reduce(%s)", "np.median(%s, axis=0)", "np.ptp(%s, axis=0)", "np.std(%s, axis=0)"])
        self.put(op % a.name, a.shape[1:], "f")

    def t_redlast(self):
        a = self.pick(lambda v: v.dt == "f" and v.shape[-1] in ("n", 4))
        op = self.r.choice(["np.sum(%s, axis=-1)", "%s.max(axis=-1)", "np.min(%s, axis=-1)", "np.mean(%s, axis=-1)"])
        if len(a.shape) == 1:
            self.k += 1
            self.lines.append("z%d = %s" % (self.k, op % a.name))
            b = self.pick(lambda v: v.dt == "f" and len(v.shape) == 1)
            self.put("%s - z%d" % (b.name, self.k), b.shape, "f")
        else:
            self.put(op % a.name, a.shape[:-1], "f")

    def t_anyall(self):
        a = self.pick(lambda v: v.dt == "b" and len(v.shape) == 2)
        self.put(self.r.choice(["np.any(%s, axis=0)", "%s.all(axis=0)", "np.logical_or.reduce(%s)", "np.count_nonzero(%s, axis=0) > 1"]) % a.name, a.shape[1:], "b")

    def t_sort(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2 and v.shape[0] <= 6)
        op = self.r.choice(["np.sort(%s, axis=0)", "np.take_along_axis(%s, np.argsort(%s, axis=0), axis=0)", "np.take_along_axis(%s, %s.argsort(axis=0, kind='stable'), 0)"])
        self.put(op.replace("%s", a.name), a.shape, "f")

    def t_nearest(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2 and v.shape[1] in ("n", 4))
        b = self.pick(lambda v: v.dt == "f" and v.shape == a.shape)
        op = self.r.choice(["{b}[np.argmin({a}, axis=0), np.arange({a}.shape[-1])]", "np.take_along_axis({b}, np.argmax({a}, axis=0)[None], axis=0)[0]", "{b}[{a}.argmin(0), range({a}.shape[1])]",
                            "np.choose(np.argmin({a}, axis=0), {b})"])
        self.put(op.format(a=a.name, b=b.name), a.shape[1:], "f")

    def t_stack(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 1)
        b = self.pick(lambda v: v.dt == "f" and v.shape == a.shape)
        op = self.r.choice(["np.stack((%s, %s))", "np.vstack((%s, %s))", "np.array([%s, %s])", "np.array((%s, %s, np.ones_like({0})))".format(a.name), "np.column_stack((%s, %s)).T", "np.stack((%s, %s), axis=1).T"])
        self.put(op % (a.name, b.name), (3 if "ones" in op else 2,) + a.shape, "f")

    def t_vcat(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2 and v.shape[0] <= 4)
        b = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2 and v.shape[1] == a.shape[1] and v.shape[0] <= 4)
        self.put(self.r.choice(["np.vstack((%s, %s))", "np.concatenate((%s, %s))", "np.concatenate([%s, %s], axis=0)"]) % (a.name, b.name), (a.shape[0] + b.shape[0], a.shape[1]), "f")

    def t_hcat(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) <= 2)
        b = self.pick(lambda v: v.dt == "f" and v.shape == a.shape)
        d = "cat%d" % self.k
        n = self.put(self.r.choice(["np.hstack((%s, %s))", "np.concatenate((%s, %s), axis=-1)"]) % (a.name, b.name), a.shape[:-1] + (d,), "f")
        if len(a.shape) == 1 and self.r.random() < 0.7:
            c = self.r.choice(["%s.reshape(2, -1)", "np.reshape(%s, (2, -1))"]) % n
            self.put(c, (2,) + a.shape, "f")
        elif len(a.shape) == 2 and self.r.random() < 0.5 and isinstance(a.shape[0], int):
            self.put("%s.reshape(%d, -1)" % (n, 2 * a.shape[0]), (2 * a.shape[0],) + a.shape[1:], "f")

    def t_row(self):
        a = self.pick(lambda v: len(v.shape) == 2 and isinstance(v.shape[0], int) and v.shape[0] > 1)
        self.put("%s[%d]" % (a.name, self.r.randrange(-1, a.shape[0])), a.shape[1:], a.dt)

    def t_rows(self):
        a = self.pick(lambda v: len(v.shape) == 2 and isinstance(v.shape[0], int) and v.shape[0] >= 3)
        self.put(self.r.choice(["%s[:2]", "%s[[2, 0]]", "%s[:-1][:2]", "%s[1:3]", "%s[::-1][:2]", "np.roll(%s, 1, axis=0)[:2]", "np.flip(%s, axis=0)[1:3]", "np.diff(%s, axis=0)[:2]" if a.dt == "f" else "%s[:2]"]) % a.name, (2,) + a.shape[1:], a.dt)

    def t_cum(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2)
        self.put(self.r.choice(["np.cumsum(%s, axis=0)", "np.roll(%s, 1, axis=0)", "np.maximum.accumulate(%s, axis=0)"]) % a.name, a.shape, "f")

    def t_setrow(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2 and v.name not in ("D",))
        b = self.pick(lambda v: v.dt == "f" and v.shape == a.shape[1:])
        i = self.r.randrange(a.shape[0])
        self.lines.append("%s = %s.copy()" % (a.name, a.name))
        self.lines.append(self.r.choice(["{a}[{i}] = {b}", "{a}[{i}] += {b}", "{a}[{i}, :] = {b}", "{a}[[{i}]] = {b}", "r_ = {a}[{i}]\n    r_ *= 2\n    r_ += {b}"]).format(a=a.name, b=b.name, i=i))

    def t_loop(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2)
        n = self.new()
        self.lines.append(self.r.choice([
            "%(n)s = np.full(%(a)s.shape[1:], np.inf)\n    for row in %(a)s:\n        better = (row > 0) & (row < %(n)s)\n        %(n)s[better] = row[better]",
            "%(n)s = 0\n    for i in range(len(%(a)s)):\n        %(n)s = %(n)s + %(a)s[i] * i",
            "%(n)s = %(a)s[0]\n    for row in %(a)s[1:]:\n        %(n)s = np.where(row > %(n)s, row, %(n)s)",
            "%(n)s = sum(row ** 2 for row in %(a)s)",
            "%(n)s = np.zeros_like(%(a)s[0])\n    for i, row in enumerate(%(a)s):\n        if np.any(row > 0):\n            %(n)s[row > 0] = i + 1",
            "%(n)s = np.zeros_like(%(a)s[0])\n    for i, row in enumerate(%(a)s):\n        hit = np.flatnonzero(row > 0.5)\n        if len(hit):\n            %(n)s[hit] += row[hit]",
        ]) % {"n": n, "a": a.name})
        self.vars.append(V(n, a.shape[1:], "f"))

    def t_dot(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2 and v.shape[0] == 4)
        self.put(self.r.choice(["D @ %s", "np.matmul(D, %s)", "np.dot(D, %s)", "np.einsum('ij,jk->ik', D, %s)", "np.tensordot(D, %s, axes=1)"]) % a.name, (3,) + a.shape[1:], "f")

    def t_dot2(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2 and v.shape[0] == 4)
        self.put(self.r.choice(["C @ %s", "np.dot(C, %s)", "np.einsum('i,ij->j', C, %s)", "np.sum(C[:, None] * %s, axis=0)", "np.inner(C, %s.T)"]) % a.name, a.shape[1:], "f")

    def t_outer(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 1)
        self.put(self.r.choice(["np.tile(%s, (2, 1))", "np.outer(C[:2], %s)", "C[:2, None] * %s", "np.multiply.outer([1, -1], %s)", "np.broadcast_to(%s, (2,) + {0}.shape)".format(a.name),
                                "np.repeat(%s[None], 2, axis=0)", "np.atleast_2d(%s) * np.array([[1], [2]])"]) % a.name, (2,) + a.shape, "f")

    def t_divide(self):
        a = self.pick(lambda v: v.dt == "f")
        b = self.pick(lambda v: v.dt == "f" and v.shape == a.shape and v is not a)
        n = self.new()
        self.lines.append("%s = np.full_like(%s, 9.0)\n    np.divide(%s, %s, out=%s, where=%s != 0)" % (n, a.name, a.name, b.name, n, b.name))
        self.vars.append(V(n, a.shape, "f"))

    def t_if(self):
        m = self.pick(lambda v: v.dt == "b" and len(v.shape) == 1)
        a = self.pick(lambda v: v.dt == "f" and v.shape == m.shape)
        n = self.new()
        self.lines.append("%s = %s\n    if %s:\n        %s = %s * 2" % (n, a.name, self.r.choice(["np.any(%s)", "%s.all()", "np.count_nonzero(%s) > 1", "not %s.any()", "len(np.flatnonzero(%s)) == 0", "np.sum(%s) >= 2"]) % m.name, n, n))
        self.vars.append(V(n, a.shape, "f"))

    def t_order(self):
        """sorting and picking along the rays"""
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 1)
        b = self.pick(lambda v: v.dt == "f" and v.shape == a.shape)
        op = self.r.choice(["{b}[np.argsort({a}, kind='stable')]", "np.sort({a})", "{a}[::-1]", "np.cumsum({a})", "np.roll({a}, 1)", "np.flip({a})", "{a} - np.min({a})", "{a}[np.argsort({b}, kind='stable')[::-1]]"])
        self.put(op.format(a=a.name, b=b.name), a.shape, "f")

    def t_unsel(self):
        """scatter a selection back"""
        c = [(m, d) for m, d in self.sel.items() if any(v.shape[-1:] == (d,) and v.dt == "f" for v in self.vars)]
        m, d = self.r.choice(c)
        v = self.pick(lambda v: v.shape[-1:] == (d,) and v.dt == "f")
        mv = [x for x in self.vars if x.name == m][0]
        n = self.new()
        self.lines.append("%s = np.full(%s.shape[:-1] + %s.shape, %s)" % (n, v.name, m, self.r.choice(["np.inf", "0.0", "-1.0"])))
        self.lines.append("%s[..., %s] = %s" % (n, self.r.choice(["%s", "np.flatnonzero(%s)", "np.nonzero(%s)[0]"]) % m, v.name))
        self.vars.append(V(n, v.shape[:-1] + mv.shape, "f"))

    def t_newax(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2)
        b = self.pick(lambda v: v.dt == "f" and v.shape == a.shape[1:])
        self.put(self.r.choice(["%s * %s[None]", "%s - %s[np.newaxis, :]", "%s + np.expand_dims(%s, 0)", "(%s.T + %s[:, None]).T"]) % (a.name, b.name), a.shape, "f")

    def t_norm(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2)
        self.put(self.r.choice(["%s / (1 + np.linalg.norm(%s, axis=0))", "%s / np.maximum(1, np.sqrt((%s ** 2).sum(axis=0, keepdims=True)))", "%s - np.mean(%s, axis=0, keepdims=True)"]).replace("%s", a.name), a.shape, "f")

    def t_swap(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2)
        self.put(self.r.choice(["%s.T.copy().T", "np.swapaxes(np.swapaxes(%s, 0, 1), 0, 1)", "np.moveaxis(%s.T, 0, 1)", "%s[::-1][::-1]", "np.array([row for row in %s])", "np.vstack([r[None] for r in %s])",
                                "np.concatenate(np.split(%s, [1]))", "np.insert(%s[1:], 0, {0}[0], axis=0)".format(a.name), "np.squeeze(%s[None], axis=0)", "np.ascontiguousarray(%s)"]) % a.name, a.shape, "f")

    def t_single(self):
        """one number out of an array"""
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 1 and v.shape[0] in ("n", 4))
        self.k += 1
        self.lines.append("z%d = %s" % (self.k, self.r.choice(["{a}[0]", "{a}[-1]", "float({a}[0])", "{a}[np.argmin({a})]", "{a}.max()", "np.count_nonzero({a})", "len({a})"]).format(a=a.name)))
        b = self.pick(lambda v: v.dt == "f")
        self.put("%s + z%d" % (b.name, self.k), b.shape, "f")

    # ---- three axes (pairs of hits, stacks of vectors)
    def cube(self):
        c = [v for v in self.vars if len(v.shape) == 3 and v.dt == "f"]
        if c and self.r.random() < 0.6:
            return self.r.choice(c)
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2 and v.shape[0] <= 4 and v.shape[1] in ("n", 4))
        b = self.pick(lambda v: v.dt == "f" and v.shape == a.shape)
        n = self.put(self.r.choice(["np.stack((%s, %s))", "np.array([%s, %s])", "np.stack((%s, %s), axis=1).transpose(1, 0, 2)", "np.concatenate((%s[None], %s[None]))"]) % (a.name, b.name), (2,) + a.shape, "f")
        return self.vars[-1]

    def t_cube_red(self):
        a = self.cube()
        ax = self.r.choice([0, 1])
        op = self.r.choice(["%s.sum(axis=%d)", "np.max(%s, axis=%d)", "np.linalg.norm(%s, axis=%d)", "np.mean(%s, %d)", "np.min(%s, axis=%d)"])
        self.put(op % (a.name, ax), tuple(x for i, x in enumerate(a.shape) if i != ax), "f")

    def t_cube_pick(self):
        a = self.cube()
        op = self.r.choice(["%s[0]", "%s[-1]", "%s[1, :]", "%s.swapaxes(0, 1)[1].repeat(1, axis=0)[[0, 0]][:1].repeat(2, axis=0)"])
        if "swap" in op:
            if a.shape[1] < 2:
                raise IndexError
            self.put(op % a.name, (2, a.shape[2]), "f")
        else:
            self.put(op % a.name, a.shape[1:], "f")

    def t_cube_near(self):
        """the nearer of two, for three rows each"""
        a = self.cube()
        k = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2 and v.shape[0] >= 2 and v.shape[1] == a.shape[2])
        op = self.r.choice(["{a}[np.argmin({k}[:2], axis=0), :, np.arange({a}.shape[2])].T", "np.take_along_axis({a}, np.argmin({k}[:2], axis=0)[None, None], axis=0)[0]",
                            "np.where({k}[0] <= {k}[1], {a}[0], {a}[1])", "np.choose(np.argmin({k}[:2], axis=0)[None], {a})"])
        self.put(op.format(a=a.name, k=k.name), a.shape[1:], "f")

    def t_cube_flat(self):
        a = self.cube()
        op = self.r.choice(["%s.reshape(-1, %s.shape[-1])", "np.vstack(%s)", "np.concatenate(%s, axis=0)", "np.reshape(%s, (-1, %s.shape[2]))"])
        self.put(op.replace("%s", a.name), (2 * a.shape[1], a.shape[2]), "f")

    def t_cube_dot(self):
        a = self.cube()
        if a.shape[1] == 4:
            self.put(self.r.choice(["np.matmul(D, %s)", "D @ %s", "np.einsum('ij,kjn->kin', D, %s)", "np.array([D @ m for m in %s])", "np.tensordot(%s, D, axes=(1, 1)).transpose(0, 2, 1)"]) % a.name, (2, 3, a.shape[2]), "f")
        else:
            self.put(self.r.choice(["np.einsum('ijk,ijk->ik', %s, %s)", "np.sum(%s * %s, axis=1)", "np.einsum('i...k,i...k->i...k', %s, %s).sum(1)"]).replace("%s", a.name), (2, a.shape[2]), "f")

    def t_cube_mask(self):
        a = self.cube()
        m = self.pick(lambda v: v.dt == "b" and v.shape == a.shape[-1:])
        self.sel.setdefault(m.name, "sel:%s" % m.name)
        self.put(self.r.choice(["%s[:, :, %s]", "%s[..., %s]", "np.compress(%s, {0}, axis=2)"]).replace("np.compress(%s, {0}", "np.compress({m}, {a}").replace("%s[", "{a}[").replace("%s]", "{m}]").format(a=a.name, m=m.name),
                 a.shape[:-1] + (self.sel[m.name],), "f")

    def t_cube_set(self):
        a = self.cube()
        m = self.pick(lambda v: v.dt == "b" and v.shape == a.shape[-1:])
        self.lines.append("%s = %s.copy()" % (a.name, a.name))
        self.lines.append(self.r.choice(["{a}[:, :, {m}] = np.inf", "{a}[1, :, {m}] *= 2", "{a}[0][:, {m}] = 3", "{a}[..., {m}] += {a}[::-1][..., {m}]", "{a}[0, 0] = 5", "v_ = {a}[1]\n    v_[0, {m}] = -1",
                                         "{a}[:, 0, {m}] = 7.0", "{a}[:, 1:, {m}] -= 1"]).format(a=a.name, m=m.name))

    # ---- Python around the arrays
    def t_def(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2)
        n = self.new()
        self.lines.append(self.r.choice([
            "def f%(n)s(m, *rest, scale=2.0, **kw):\n        return m * scale + sum(rest) + kw.get('off', 0)\n    %(n)s = f%(n)s(%(a)s, 1, 2, off=3)",
            "f%(n)s = lambda m, k=3: m[::-1] - k\n    %(n)s = f%(n)s(%(a)s)",
            "def g%(n)s(m):\n        for i, row in enumerate(m):\n            yield row + i\n    %(n)s = np.array(list(g%(n)s(%(a)s)))",
            "%(n)s = np.array([row if i %% 2 else -row for i, row in enumerate(%(a)s)])",
            "rows = {i: row for i, row in enumerate(%(a)s)}\n    %(n)s = np.stack([rows[k] for k in sorted(rows, reverse=True)])",
            "i = 0\n    %(n)s = %(a)s.copy()\n    while i < len(%(n)s):\n        %(n)s[i] += i\n        i += 1\n        if i > 2:\n            break",
            "first, *others = %(a)s\n    %(n)s = np.vstack([first, *others])",
            "acc = []\n    for row, k in zip(%(a)s, range(9)):\n        if k == 1:\n            acc.append(row * 2)\n            continue\n        acc.append(row)\n    %(n)s = np.asarray(acc)",
            "try:\n        %(n)s = %(a)s[7]\n    except IndexError:\n        %(n)s = %(a)s + 1",
            "import functools\n    %(n)s = functools.reduce(lambda p, q: p + q, [%(a)s, %(a)s[::-1], 1])",
            "class K%(n)s(object):\n        def __init__(self, m):\n            self._m = m\n\n        @property\n        def m(self):\n            return self._m\n\n        @m.setter\n        def m(self, v):\n            self._m = v * 2\n    o = K%(n)s(%(a)s)\n    o.m = o.m + 1\n    %(n)s = o.m",
            "%(n)s = np.vectorize(lambda q: q * 2 + 1)(%(a)s)",
            "%(n)s = np.array(list(map(lambda row: row + 1, %(a)s)))",
            "import itertools\n    %(n)s = np.array(list(itertools.accumulate(%(a)s)))",
            "%(n)s = np.apply_along_axis(lambda q: q / (1 + np.abs(q).sum()), 0, %(a)s)" if len(a.shape) == 2 else "%(n)s = %(a)s",
        ]) % {"n": n, "a": a.name})
        self.vars.append(V(n, a.shape, "f"))

    def t_inner(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2)
        b = self.pick(lambda v: v.dt == "f" and v.shape == a.shape)
        self.put(self.r.choice(["np.sum({a} * {b}, axis=0)", "np.einsum('ij,ij->j', {a}, {b})", "np.einsum('i...,i...', {a}, {b})", "({a} * {b}).sum(0)", "np.array([p * q for p, q in zip({a}, {b})]).sum(axis=0)",
                                "np.add.reduce({a} * {b}, axis=0)", "np.linalg.norm({a} - {b}, axis=0)", "np.multiply({a}, {b}).sum(axis=0, keepdims=True)[0]"]).format(a=a.name, b=b.name), a.shape[1:], "f")

    def t_cross(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2 and v.shape[0] == 3)
        b = self.pick(lambda v: v.dt == "f" and v.shape == a.shape)
        self.put(self.r.choice(["np.cross({a}, {b}, axis=0)", "np.cross({a}.T, {b}.T).T", "np.cross({a}, {b}, axisa=0, axisb=0).T"]).format(a=a.name, b=b.name), a.shape, "f")

    def t_pad(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2 and v.shape[0] == 3)
        self.put(self.r.choice(["np.pad(%s, ((0, 1), (0, 0)), constant_values=1.0)", "np.vstack((%s, np.ones({a}.shape[1])))", "np.append(%s, np.zeros((1, {a}.shape[-1])), axis=0)", "np.insert(%s, 3, 1, axis=0)",
                                "np.r_[%s, np.ones((1, {a}.shape[1]))]"]).replace("%s", "{a}").format(a=a.name), (4,) + a.shape[1:], "f")

    def t_del(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2 and v.shape[0] == 4)
        self.put(self.r.choice(["np.delete(%s, 1, axis=0)", "%s[:-1]", "%s[[0, 1, 3]]", "%s[np.array([True, False, True, True])]", "%s[1:]", "np.take(%s, [2, 1, 0], axis=0)", "%s[np.arange(3)]", "%s[-3:]"]) % a.name, (3,) + a.shape[1:], "f")

    def t_rowmask(self):
        """rows chosen by a condition on numbers, padded to a fixed count"""
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 2 and v.shape[0] == 4)
        self.put(self.r.choice(["%s[mc].sum(axis=0)", "np.where(mc[:, None], %s, 0).sum(axis=0)", "%s[mc | (C <= 0)].max(axis=0)", "np.sum(%s, axis=0, where=mc[:, None])", "np.max(%s, axis=0, where=mc[:, None], initial=-9)"]) % a.name, a.shape[1:], "f")

    def t_lex(self):
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 1 and v.shape[0] in ("n", 4))
        b = self.pick(lambda v: v.dt == "f" and v.shape == a.shape)
        self.put(self.r.choice(["{a}[np.lexsort(({b}, {a}))]", "np.unique({a})[np.searchsorted(np.unique({a}), {a})] + {b}", "np.interp({a}, [-2, 0, 2], [0, 1, 5]) + {b}", "np.searchsorted([-1, 0, 1], {a}) + {b}",
                                "np.digitize({a}, [-1, 0, 1]) * {b}", "np.polyval([1, 2, 3], {a}) + {b}", "np.arctan2({a}, {b})", "np.logaddexp({a}, {b})", "np.heaviside({a}, 0.5) * {b}", "np.copysign({a}, {b})",
                                "np.fmax({a}, {b})", "np.exp({a}) * np.sin({b})", "np.floor({a}) + np.ceil({b})", "np.mod({a}, 1.5) + {b}", "np.round({a}) - {b}", "np.piecewise({a}, [{a} < 0, {a} >= 0], [-1, 1]) * {b}",
                                "np.isin({a}, [0, 1]) * {b}", "{a} // 1 + {b}", "np.trunc({a}) + {b}"]).format(a=a.name, b=b.name), a.shape, "f")

    def t_inner_sel(self):
        """a selection of a selection"""
        c = [(m, d) for m, d in self.sel.items() if any(v.shape == (d,) and v.dt == "f" for v in self.vars)]
        m, d = self.r.choice(c)
        v = self.pick(lambda v: v.shape == (d,) and v.dt == "f")
        mv = [x for x in self.vars if x.name == m][0]
        n = self.new()
        self.lines.append(self.r.choice([
            "{n} = np.zeros({m}.shape)\n    idx_ = np.flatnonzero({m})[{v} > 0]\n    {n}[idx_] = {v}[{v} > 0]",
            "{n} = np.full({m}.shape, -1.0)\n    t_ = {v}.copy()\n    t_[t_ < 0] = 0\n    {n}[{m}] = t_",
            "{n} = np.zeros({m}.shape)\n    if {v}.size:\n        {n}[np.nonzero({m})[0][{v} == np.max({v})]] = 1",
            "{n} = np.ones({m}.shape)\n    np.place({n}, {m}, {v}) if {v}.size else None",
            "{n} = np.ones({m}.shape)\n    sub_ = {n}[{m}]\n    sub_[{v} > 0.3] = {v}[{v} > 0.3] * 2\n    {n}[{m}] = sub_",
            "{n} = np.zeros({m}.shape)\n    np.add.at({n}, np.flatnonzero({m}), {v})",
            "{n} = np.zeros({m}.shape)\n    {n}[{m}] = np.where({v} > 0, {v}, 1)",
        ]).format(n=n, m=m, v=v.name))
        self.vars.append(V(n, mv.shape, "f"))

    def t_frame(self):
        """a table and back"""
        a = self.pick(lambda v: v.dt == "f" and len(v.shape) == 1)
        b = self.pick(lambda v: v.dt == "f" and v.shape == a.shape)
        n = self.new()
        self.lines.append(self.r.choice([
            "df_ = pd.DataFrame({{'p': {a}, 'q': {b}}})\n    {n} = df_['p'].to_numpy() - df_['q'].values",
            "df_ = pd.DataFrame(np.stack(({a}, {b})).T, columns=['p', 'q'])\n    df_['r'] = df_['p'] * 2\n    {n} = df_['r'].to_numpy() + df_.q.to_numpy()",
            "df_ = pd.DataFrame({{'p': {a}, 'q': {b}}})\n    df_.loc[df_['p'] > 0, 'q'] = 4.0\n    {n} = df_['q'].to_numpy()",
            "df_ = pd.DataFrame({{'p': {a}}})\n    df_ = pd.concat([df_, df_ * 2], ignore_index=True)\n    {n} = df_['p'].to_numpy()[:len({a})] + {b}",
            "df_ = pd.DataFrame({{'p': {a}, 'q': {b}}})\n    {n} = np.where(df_['p'] > df_['q'], df_['p'], 0)",
        ]).format(n=n, a=a.name, b=b.name))
        self.vars.append(V(n, a.shape, "f"))

    def run(self, n):
        self.start()
        ts = [getattr(self, t) for t in sorted(dir(self)) if t.startswith("t_")]
        while n:
            mark = (len(self.lines), len(self.vars), self.k, dict(self.sel))
            try:
                self.r.choice(ts)()
                n -= 1
            except IndexError:
                del self.lines[mark[0]:]
                del self.vars[mark[1]:]
                self.sel = mark[3]
        body = "\n".join("    " + l for l in self.lines)
        probes = "\n".join('    PROBE("%s", %s)' % (v.name, v.name) for v in self.vars)
        return "import numpy as np\nimport pandas as pd\n\n\ndef main():\n%s\n%s\n" % (body, probes)


def concrete(pool, cells, dims, g):
    """the array of one interpretation"""
    at = slice(pool.starts[g], pool.starts[g] + int(pool.size[pool.starts[g]]))
    axes = []
    for d in dims:
        if not isinstance(d, ar.LDim):
            axes.append([(i, None) for i in range(d)])
            continue
        out = []
        for i, (lane, guard) in enumerate(d.blocks):
            gv = pool.eval(guard)[at]
            if isinstance(lane, tuple) and lane[0] == "e":
                if gv[0]:
                    out.append((i, None))
            else:
                out.extend((i, int(j)) for j in np.flatnonzero(gv))
        axes.append(out)
    shape = tuple(len(a) for a in axes)
    grid = np.empty(ar.gshape(dims), dtype=object)
    for ix, c in zip(np.ndindex(*grid.shape), cells):
        grid[ix] = c
    res = np.empty(shape)
    for ix in np.ndindex(*shape):
        pos = tuple(axes[k][i][0] for k, i in enumerate(ix))
        rays = [axes[k][i][1] for k, i in enumerate(ix) if axes[k][i][1] is not None]
        if len(set(rays)) > 1:
            return None
        v = pool.eval(grid[pos])[at]
        res[ix] = float(v[rays[0] if rays else 0])
    return res


def reference(src, pool, g):
    at = pool.starts[g]
    n = int(pool.size[at])
    out = {}
    env = {"LANE": lambda name: n, "SYM": lambda name, *a: float(pool.eval(tm.sym(name))[at]),
           "LVAR": lambda name, *a: np.array(pool.eval(tm.sym(name))[at:at + n]),
           "PROBE": lambda name, v: out.__setitem__(name, np.array(v, dtype=float))}
    with np.errstate(all="ignore"):
        exec(compile(src, "<program>", "exec"), env)
        env["main"]()
    return out


def one(seed, length, verbose=False):
    src = Gen(seed).run(length)
    probes = []
    install = analysis.Run.install

    def inst(self):
        install(self)

        def probe(it, name, v):
            a = self.npm.asarray(v) if hasattr(self, "npm") else analysis.npm.asarray(v)
            probes.append((name, list(a.cells()), a.dims, self.pool.mask.copy(), id(self)))
        self.it.builtins["PROBE"] = ip.NFunc("PROBE", probe)
    analysis.Run.install = inst
    try:
        ex = Explorer(Harness("fuzz", src, groups=24, sizes=(1, 2, 3, 5, 4), max_parts=40, time_cap=60), repo="/repo", seed=seed)
        r = ex.go()
    finally:
        analysis.Run.install = install
    pool = ex.pool_used
    und = [x for d in r["labels"].values() for x in d["und"]]
    bad = [(x["why"], x.get("sites")) for d in r["labels"].values() for x in d["viol"]]
    problems = []
    if r["errors"]:
        for g in range(pool.G):
            try:
                reference(src, pool, g)
            except Exception:
                break
        else:
            problems.append("the engine stops: %s" % r["errors"][:1])
    refs = {}
    n = 0
    for name, cells, dims, mask, run in probes:
        for g in range(pool.G):
            if not mask[pool.starts[g]]:
                continue
            if g not in refs:
                try:
                    refs[g] = reference(src, pool, g)
                except Exception as e:
                    refs[g] = None
                    if not r["errors"]:
                        problems.append("numpy refuses: %s" % e)
            if refs[g] is None or name not in refs[g]:
                continue
            try:
                got = concrete(pool, cells, dims, g)
            except Exception as e:
                problems.append("%s: evaluation fails: %r" % (name, e))
                break
            if got is None:
                continue
            want = refs[g][name]
            n += 1
            if got.shape != want.shape:
                problems.append("%s: shape %s, numpy has %s" % (name, got.shape, want.shape))
                break
            if not np.allclose(got, want, rtol=1e-6, atol=1e-8, equal_nan=True):
                problems.append("%s: %s, numpy has %s (group %d)" % (name, got, want, g))
                break
    return src, problems, und, n


def main():
    first = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    count = int(sys.argv[2]) if len(sys.argv) > 2 else 100
    length = int(sys.argv[3]) if len(sys.argv) > 3 else 6
    reasons = collections.Counter()
    compared = bad = 0
    for seed in range(first, first + count):
        try:
            src, problems, und, n = one(seed, length)
        except Exception as e:
            print("seed %d: the tool fails: %r" % (seed, e))
            continue
        compared += n
        for u in und:
            reasons[u[:110]] += 1
        if problems:
            bad += 1
            print("---- seed %d" % seed)
            print(src)
            for p in problems[:3]:
                print("   ", p)
    print("%d programs, %d comparisons, %d programs with disagreements" % (count, compared, bad))
    for k, v in reasons.most_common(25):
        print("  undecided %4d  %s" % (v, k))


if __name__ == "__main__":
    main()
