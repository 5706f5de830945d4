"""Abstract interpreter over the Python AST of /repo.

Objects are allocated concretely (exact aliasing); numbers are value terms (terms.py); arrays are abstract arrays
(arrays.py).  Control flow whose condition is a term is decided by the analysis' partition (trace partitioning)."""
import ast
import os
import sys
import threading

import numpy as np

from . import terms as tm
from .arrays import AArray, LDim, PyRaise, Unsupported, as_pyint
from . import arrays as ar
from .terms import T

sys.setrecursionlimit(20000)


class Unk(object):
    """unknown value (Top); carries the construct that was not modelled"""

    def __init__(self, reason):
        self.reason = "%s (at %s:%s:%s)" % ((reason,) + tuple(tm.CUR))

    def __repr__(self):
        return "<unknown: %s>" % self.reason


class NClass(object):
    def __init__(self, name, bases=(), call=None, ns=None):
        self.name = name
        self.bases = tuple(bases)
        self.call = call
        self.ns = dict(ns or {})
        m = [self]
        for b in self.bases:
            for c in b.mro:
                if c not in m:
                    m.append(c)
        self.mro = m

    def __repr__(self):
        return "<class %s>" % self.name


OBJECT = NClass("object")
TYPE = NClass("type", (OBJECT,))
NDARRAY = NClass("ndarray", (OBJECT,))
BASEEXC = NClass("BaseException", (OBJECT,))
EXC = NClass("Exception", (BASEEXC,))
_EXC_TREE = {
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "FloatingPointError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "LookupError": "Exception",
    "IndexError": "LookupError", "KeyError": "LookupError", "NameError": "Exception",
    "UnboundLocalError": "NameError", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "RecursionError": "RuntimeError",
    "StopIteration": "Exception", "TypeError": "Exception", "ValueError": "Exception", "ImportError": "Exception",
    "AxisError": "ValueError", "LinAlgError": "ValueError", "OSError": "Exception", "Warning": "Exception",
    "UserWarning": "Warning", "DeprecationWarning": "Warning", "RuntimeWarning": "Warning", "FutureWarning": "Warning",
    "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException", "UFuncTypeError": "TypeError",
    "ModuleNotFoundError": "ImportError", "GeneratorExit": "BaseException", "FileNotFoundError": "OSError",
    "UnicodeError": "ValueError", "FrozenInstanceError": "AttributeError",
}
EXCS = {"BaseException": BASEEXC, "Exception": EXC}
for _n, _b in _EXC_TREE.items():
    EXCS[_n] = NClass(_n, (EXCS[_b],))
ENUM = NClass("Enum", (OBJECT,))
ABC = NClass("ABC", (OBJECT,))
PROPERTY = NClass("property", (OBJECT,))
GENERIC = NClass("Generic", (OBJECT,))
NUMBERC = NClass("Number", (OBJECT,))
FLOATC = NClass("float", (OBJECT,))
INTC = NClass("int", (OBJECT,))
BOOLC = NClass("bool", (INTC,))
STRC = NClass("str", (OBJECT,))
LISTC = NClass("list", (OBJECT,))
TUPLEC = NClass("tuple", (OBJECT,))
DICTC = NClass("dict", (OBJECT,))
SETC = NClass("set", (OBJECT,))
FSETC = NClass("frozenset", (OBJECT,))
SLICEC = NClass("slice", (OBJECT,))
NONEC = NClass("NoneType", (OBJECT,))
FUNCC = NClass("function", (OBJECT,))
MODC = NClass("module", (OBJECT,))
DFC = NClass("DataFrame", (OBJECT,))
SERIESC = NClass("Series", (OBJECT,))
NPGENERIC = NClass("generic", (OBJECT,))
NPFLOAT = NClass("floating", (NPGENERIC, FLOATC))
NPINT = NClass("integer", (NPGENERIC,))
NPBOOL = NClass("bool_", (NPGENERIC,))
BYTESC = NClass("bytes", (OBJECT,))
COMPLEXC = NClass("complex", (OBJECT,))


class AClass(object):
    def __init__(self, name, bases, ns, module, node=None):
        self.name = name
        self.bases = bases or [OBJECT]
        self.ns = ns
        self.module = module
        self.node = node
        self.mro = [self] + _c3([list(b.mro) for b in self.bases] + [list(self.bases)])

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def is_sub(self, c):
        return c in self.mro

    def __repr__(self):
        return "<class %s>" % self.name


def _c3(seqs):
    out = []
    seqs = [list(s) for s in seqs if s]
    while seqs:
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise PyRaise("TypeError", "Cannot create a consistent method resolution order")
        out.append(c)
        seqs = [[x for x in t if x is not c] if t[0] is c else t for t in seqs]
        seqs = [t for t in seqs if t]
    return out


class AObj(object):
    __slots__ = ("cls", "attrs", "writes", "uid", "payload")
    n = 0

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.writes = {}
        self.payload = None
        AObj.n += 1
        self.uid = AObj.n

    def __repr__(self):
        return "<%s#%d>" % (self.cls.name, self.uid)


class AFunc(object):
    def __init__(self, node, env, module, name, defaults, kwdefaults, qual, cls=None):
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.cls = cls
        self.attrs = {}
        self._info = None

    def __repr__(self):
        return "<function %s>" % self.qual


class NFunc(object):
    """native function; f(interp, *args, **kwargs)"""

    def __init__(self, name, f, binds=False):
        self.name = name
        self.f = f
        self.binds = binds
        self.attrs = {}

    def __repr__(self):
        return "<native %s>" % self.name


class Bound(object):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self)

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func and o.self is self.self

    def __hash__(self):
        return hash((id(self.func), id(self.self)))


class Prop(object):
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class CachedProp(object):
    def __init__(self, f):
        self.f = f
        self.name = None


class StaticM(object):
    def __init__(self, f):
        self.f = f


class ClassM(object):
    def __init__(self, f):
        self.f = f


class Super(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class AModule(object):
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.ns = {}

    def __repr__(self):
        return "<module %s>" % self.name


class NModule(object):
    def __init__(self, name, ns=None, getattr_=None):
        self.name = name
        self.ns = ns if ns is not None else {}
        self.getattr_ = getattr_

    def __repr__(self):
        return "<native module %s>" % self.name


class NObj(object):
    """native object with python-implemented attributes: ns name -> value or NFunc"""

    def __init__(self, kind, ns=None, getattr_=None):
        self.kind = kind
        self.ns = ns or {}
        self.getattr_ = getattr_

    def __repr__(self):
        return "<%s>" % self.kind


class Iter(object):
    def __init__(self, gen):
        self.gen = iter(gen)


class _Closed(BaseException):
    """a suspended generator is thrown away"""


class Suspended(object):
    """the state of a generator: its body runs in a thread of its own, strictly alternating with the caller"""

    def __init__(self, it, body):
        self.it, self.body = it, body
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.thread = None
        self.done = self.running = False
        self.msg = self.answer = None

    def __iter__(self):
        return self

    def __next__(self):
        return self.resume(("send", None))

    def _run(self):
        try:
            self.go.acquire()
            if self.msg[0] == "throw":
                raise self.msg[1]
            if self.msg[0] == "kill":
                raise _Closed()
            self.body(self)
            self.answer = ("return", None)
        except _Return as r:
            self.answer = ("return", r.v)
        except BaseException as e:
            self.answer = ("raise", e)
        self.done = True
        self.back.release()

    def resume(self, msg):
        it = self.it
        if self.running:
            raise PyRaise("ValueError", "generator already executing")
        if self.done:
            if msg[0] == "throw":
                raise msg[1]
            raise StopIteration
        saved = (it.depth, list(it.stack), list(it.exc_stack), list(tm.CUR))
        if self.thread is None:
            if msg[0] == "kill":
                self.done = True
                return
            self.thread = threading.Thread(target=self._run, daemon=True)
            it.suspended.append(self)
            self.thread.start()
        self.msg, self.running = msg, True
        self.go.release()
        self.back.acquire()
        self.running = False
        it.depth, it.stack[:], it.exc_stack[:], tm.CUR[:] = saved
        kind, v = self.answer
        if kind == "yield":
            return v
        self.body = None
        if kind == "raise":
            if isinstance(v, _Closed):
                return
            raise v
        e = StopIteration()
        e.value = v
        raise e

    def give(self, v):
        """called by the body, in its thread"""
        it = self.it
        own = (it.depth, list(it.stack), list(it.exc_stack), list(tm.CUR))
        self.answer = ("yield", v)
        self.back.release()
        self.go.acquire()
        it.depth, it.stack[:], it.exc_stack[:], tm.CUR[:] = own
        kind, x = self.msg
        if kind == "throw":
            raise x
        if kind == "kill":
            raise _Closed()
        return x

    def close(self):
        if self.thread is not None and not self.done and not self.running:
            self.resume(("kill", None))
        self.done = True


class Env(object):
    __slots__ = ("vars", "parent", "locals_", "fn", "globals_", "nonlocals", "cls")

    def __init__(self, parent, fn=None, locals_=None):
        self.vars = {}
        self.parent = parent
        self.fn = fn
        self.locals_ = locals_ or frozenset()
        self.globals_ = frozenset()
        self.nonlocals = frozenset()
        self.cls = None


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Infeasible(Exception):
    """the partition has no interpretation"""


class FnInfo(object):
    def __init__(self, node):
        assigned, glob, nonl = set(), set(), set()
        self.is_gen = False
        args = node.args
        for a in args.posonlyargs + args.args + args.kwonlyargs:
            assigned.add(a.arg)
        if args.vararg:
            assigned.add(args.vararg.arg)
        if args.kwarg:
            assigned.add(args.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        st = list(body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                assigned.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # walrus inside leaks; comprehension targets do not
                for c in ast.walk(n):
                    if isinstance(c, ast.NamedExpr):
                        assigned.add(c.target.id)
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                assigned.add(n.id)
            if isinstance(n, ast.Global):
                glob.update(n.names)
            if isinstance(n, ast.Nonlocal):
                nonl.update(n.names)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    assigned.add((al.asname or al.name).split(".")[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                assigned.add(n.name)
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                assigned.add(n.name)
            st.extend(ast.iter_child_nodes(n))
        self.locals = frozenset(assigned - glob - nonl)
        self.globals = frozenset(glob)
        self.nonlocals = frozenset(nonl)


_ast_cache = {}


def parse_file(path):
    with open(path, "rb") as f:
        src = f.read()
    key = (path, hash(src))
    t = _ast_cache.get(key)
    if t is None:
        t = ast.parse(src, path)
        _ast_cache[key] = t
    return t


class Interp(object):
    def __init__(self, repo="/repo", decide=None):
        self.repo = repo
        self.modules = {}
        self.decide_fn = decide
        self.covered = set()
        self.functions = {}
        self.depth = 0
        self.steps = 0
        self.max_steps = 3000000
        self.unks = []
        self.stack = []
        self.sources = {}
        self.calls = 0
        from . import models
        self.models = models
        self.native_modules = models.build(self)
        self.builtins = models.builtins(self)
        self.exc_stack = []
        self.suspended = []

    # ------------------------------------------------------------- modules
    def find_module(self, name):
        rel = name.replace(".", "/")
        for cand in (rel + "/__init__.py", rel + ".py"):
            p = os.path.join(self.repo, cand)
            if os.path.exists(p):
                return p
        return None

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.native_modules:
            return self.native_modules[name]
        if "." in name:
            parent = self.import_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        else:
            parent = None
        if name in self.sources:
            tree, path = ast.parse(self.sources[name]), "<%s>" % name
        else:
            path = self.find_module(name)
            if path is None:
                if isinstance(parent, NModule):
                    v = self.getattr(parent, name.rsplit(".", 1)[1])
                    return v
                top = name.split(".")[0]
                if os.path.isdir(os.path.join(self.repo, top)):
                    raise PyRaise("ImportError", "No module named %s" % name)
                self.unks.append("module %s" % name)
                m = NModule(name, {}, lambda n: Unk("%s.%s" % (name, n)))
                self.native_modules[name] = m
                return m
            tree = parse_file(path)
        m = AModule(name, path)
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        self.modules[name] = m
        env = Env(None)
        env.vars = m.ns
        saved = list(tm.CUR)
        tm.CUR[0] = os.path.relpath(path, self.repo) if path.startswith("/") else path
        tm.CUR[1] = "<module>"
        try:
            self.exec_block(tree.body, env, m)
        finally:
            tm.CUR[:] = saved
        if isinstance(parent, AModule):
            parent.ns[name.rsplit(".", 1)[1]] = m
        return m

    def add_source(self, name, src):
        self.sources[name] = src

    # ------------------------------------------------------------- truth
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, T):
            t = tm.truth(v)
            if t.k == "b":
                return t.a[0]
            return self.decide(t)
        if isinstance(v, AArray):
            n = int(np.prod(v.idx.shape)) if v.ndim else 1
            if v.has_lane() or n > 1:
                raise PyRaise("ValueError", "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
            if n == 0:
                return False
            return self.truth(v.cells()[0])
        if isinstance(v, AObj):
            f, _ = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(self.bind(f, v), [], {}))
            f, _ = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(self.bind(f, v), [], {}))
            return True
        if isinstance(v, Unk):
            raise Unsupported("branch on unknown value: %s" % v.reason)
        if isinstance(v, self.models.AFrame):
            raise PyRaise("ValueError", "The truth value of a DataFrame is ambiguous")
        if isinstance(v, (bool, int, str, list, tuple, dict, set, frozenset, range, float)):
            return bool(v)
        return True

    def decide(self, t):
        if self.decide_fn is None:
            raise Unsupported("branch on %s" % tm.show(t))
        return self.decide_fn(t)

    # ------------------------------------------------------------- attributes
    def bind(self, v, obj, cls=None):
        if isinstance(v, AFunc):
            return Bound(v, obj)
        if isinstance(v, NFunc) and v.binds:
            return Bound(v, obj)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls if cls is not None else self.type_of(obj))
        if isinstance(v, self.models.Lru):
            return Bound(v, obj)
        return v

    def type_of(self, v):
        if isinstance(v, AObj):
            return v.cls
        if isinstance(v, AArray):
            return v.cls if v.cls is not None else NDARRAY
        if isinstance(v, T):
            if v.bool:
                return NPBOOL
            return NPFLOAT
        if isinstance(v, bool):
            return BOOLC
        if isinstance(v, int):
            return INTC
        if isinstance(v, str):
            return STRC
        if isinstance(v, list):
            return LISTC
        if isinstance(v, tuple):
            return TUPLEC
        if isinstance(v, dict):
            return DICTC
        if isinstance(v, set):
            return SETC
        if v is None:
            return NONEC
        if isinstance(v, (AFunc, NFunc, Bound)):
            return FUNCC
        if isinstance(v, (AClass, NClass)):
            return TYPE
        if isinstance(v, self.models.AFrame):
            return DFC
        if isinstance(v, self.models.ASeries):
            return SERIESC
        return OBJECT

    def getattr(self, o, name):
        r = self._getattr(o, name)
        if r is _MISSING:
            hook = None
            if isinstance(o, AObj):
                hook, _ = o.cls.lookup("__getattr__")
            if hook is not None:
                return self.call(self.bind(hook, o), [name], {})
            raise PyRaise("AttributeError", "%s has no attribute '%s'" % (self.describe(o), name))
        return r

    def describe(self, o):
        if isinstance(o, AObj):
            return "'%s' object" % o.cls.name
        if isinstance(o, AArray):
            return "'%s' object" % (o.cls.name if o.cls else "numpy.ndarray")
        if isinstance(o, (AModule, NModule)):
            return "module '%s'" % o.name
        if isinstance(o, (AClass, NClass)):
            return "type object '%s'" % o.name
        if o is None:
            return "'NoneType' object"
        return "'%s' object" % self.type_of(o).name

    def _getattr(self, o, name):
        if isinstance(o, AObj):
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            v, c = o.cls.lookup(name)
            if isinstance(v, Prop):
                if v.fget is None:
                    raise PyRaise("AttributeError", "unreadable attribute " + name)
                return self.call(v.fget, [o], {})
            d = descriptor(v)
            if d and "__set__" in d:
                return self.call(d["__get__"], [v, o, o.cls], {}) if "__get__" in d else o.attrs.get(name, v)
            if name in o.attrs:
                return o.attrs[name]
            if d:
                return self.call(d["__get__"], [v, o, o.cls], {})
            if isinstance(v, CachedProp):
                r = self.call(v.f, [o], {})
                o.attrs[name] = r
                return r
            if c is not None:
                return self.bind(v, o, o.cls)
            if o.cls.is_sub(BASEEXC) and name == "args":
                return o.attrs.get("args", ())
            if o.cls.is_sub(BASEEXC) and name == "with_traceback":
                return NFunc("with_traceback", lambda it, tb: o)
            return _MISSING
        if isinstance(o, AArray):
            if o.cls is not None:
                if name == "__class__":
                    return o.cls
                v, c = o.cls.lookup(name)
                if isinstance(v, Prop):
                    return self.call(v.fget, [o], {})
                d = descriptor(v)
                if d and "__get__" in d and ("__set__" in d or not (o.attrs and name in o.attrs)):
                    return self.call(d["__get__"], [v, o, o.cls], {})
                if o.attrs and name in o.attrs:
                    return o.attrs[name]
                if isinstance(v, CachedProp):
                    r = self.call(v.f, [o], {})
                    if o.attrs is None:
                        o.attrs = {}
                    o.attrs[name] = r
                    return r
                if c is not None and isinstance(c, AClass):
                    return self.bind(v, o, o.cls)
            elif name == "__class__":
                return NDARRAY
            return self.models.npm.array_attr(self, o, name)
        if isinstance(o, T):
            return self.models.npm.scalar_attr(self, o, name)
        if isinstance(o, AClass):
            if name == "__name__" or name == "__qualname__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__dict__":
                return o.ns
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__module__":
                return o.module.name if o.module else ""
            v, c = o.lookup(name)
            if c is None:
                if name == "__doc__":
                    return None
                if name == "__members__" and ENUM in o.mro:
                    return {m.attrs["name"]: m for m in o.ns.get("__members_list__", [])}
                if name == "mro":
                    return NFunc("mro", lambda it: list(o.mro))
                if name == "__new__":
                    return NFunc("object.__new__", lambda it, c, *a, **k: self.alloc(c))
                if name == "__setattr__":
                    return NFunc("object.__setattr__", lambda it, ob, n, v: it.setattr(ob, n, v, raw=True))
                return _MISSING
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, ClassM):
                return Bound(v.f, o)
            d = descriptor(v)
            if d and "__get__" in d:
                return self.call(d["__get__"], [v, None, o], {})
            return v
        if isinstance(o, Super):
            return self.super_attr(o, name)
        if isinstance(o, AModule):
            if name in o.ns:
                return o.ns[name]
            sub = o.name + "." + name
            if sub in self.modules:
                return self.modules[sub]
            if name == "__dict__":
                return o.ns
            return _MISSING
        if isinstance(o, NModule):
            if name in o.ns:
                return o.ns[name]
            if o.getattr_ is not None:
                return o.getattr_(name)
            sub = o.name + "." + name
            if sub in self.native_modules:
                return self.native_modules[sub]
            self.unks.append("%s.%s" % (o.name, name))
            return Unk("%s.%s is not modelled" % (o.name, name))
        if isinstance(o, NObj):
            if name in o.ns:
                return o.ns[name]
            if o.getattr_ is not None:
                return o.getattr_(name)
            return _MISSING
        if isinstance(o, Unk):
            return o
        if isinstance(o, (AFunc, NFunc)):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name in ("__doc__", "__module__", "__wrapped__"):
                return None
            if name == "__call__":
                return o
            if name == "__defaults__":
                return tuple(o.defaults) if isinstance(o, AFunc) and o.defaults else None
            u = getattr(o, "ufunc_attr", None)
            if u is not None:
                return u(name)
            return _MISSING
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, NClass):
            for c in o.mro:
                if name in c.ns:
                    v = c.ns[name]
                    return v.f if isinstance(v, StaticM) else (Bound(v.f, o) if isinstance(v, ClassM) else v)
            if name == "__name__":
                return o.name
            if o is OBJECT and name == "__new__":
                return NFunc("object.__new__", lambda it, c, *a, **k: self.alloc(c))
            if o is OBJECT and name == "__setattr__":
                return NFunc("object.__setattr__", lambda it, ob, n, v: it.setattr(ob, n, v, raw=True))
            return _MISSING
        if isinstance(o, Prop):
            if name == "setter":
                return NFunc("setter", lambda it, f: Prop(o.fget, f, o.fdel))
            if name == "getter":
                return NFunc("getter", lambda it, f: Prop(f, o.fset, o.fdel))
            if name == "deleter":
                return NFunc("deleter", lambda it, f: Prop(o.fget, o.fset, f))
            if name in ("fget", "fset"):
                return getattr(o, name)
            return _MISSING
        return self.models.native_attr(self, o, name)

    def super_attr(self, s, name):
        o = s.obj
        cls = o if isinstance(o, (AClass,)) else self.type_of(o)
        mro = cls.mro
        i = mro.index(s.cls)
        for c in mro[i + 1:]:
            if name in c.ns:
                v = c.ns[name]
                if isinstance(v, Prop):
                    return self.call(v.fget, [o], {})
                d = descriptor(v)
                if d and "__get__" in d:
                    return self.call(d["__get__"], [v, None if isinstance(o, AClass) else o, cls], {})
                if name == "__new__":
                    return v.f if isinstance(v, StaticM) else v
                if isinstance(o, AClass) and not isinstance(v, (StaticM, ClassM)):
                    return v
                return self.bind(v, o, cls)
            if c is NDARRAY and isinstance(o, AArray):
                if name == "__init__":
                    return NFunc("ndarray.__init__", lambda it, *a, **k: None)
                r = self.models.npm.array_attr(self, o, name)
                if r is not _MISSING:
                    return r
        if name == "__init__":
            def objinit(it, *a, **k):
                if a or k:
                    if cls.is_sub(BASEEXC):
                        o.attrs["args"] = tuple(a)
                        return None
                    raise PyRaise("TypeError", "object.__init__() takes exactly one argument (the instance to initialize)")
                return None
            return NFunc("object.__init__", objinit)
        if name == "__new__":
            def objnew(it, c, *a, **k):
                return self.alloc(c)
            return NFunc("object.__new__", objnew)
        if name == "__init_subclass__":
            return NFunc("__init_subclass__", lambda it, *a, **k: None)
        if name == "__setattr__":
            return NFunc("object.__setattr__", lambda it, n, v: it.setattr(o, n, v, raw=True))
        if name == "__getattribute__":
            return NFunc("object.__getattribute__", lambda it, n: it.getattr(o, n))
        if name == "__enter__" or name == "__exit__":
            return _MISSING
        if name == "__repr__" or name == "__str__":
            return NFunc("object.__repr__", lambda it: repr(o))
        if name == "__eq__":
            return NFunc("object.__eq__", lambda it, b: o is b)
        if name == "__hash__":
            return NFunc("object.__hash__", lambda it: id(o))
        if name == "__array_finalize__":
            return NFunc("__array_finalize__", lambda it, *a: None)
        return _MISSING

    def setattr(self, o, name, v, raw=False):
        if isinstance(o, AObj):
            p, c = o.cls.lookup(name)
            if isinstance(p, Prop):
                if p.fset is None:
                    raise PyRaise("AttributeError", "can't set attribute '%s'" % name)
                self.call(p.fset, [o, v], {})
                return
            d = descriptor(p)
            if d and "__set__" in d:
                self.call(d["__set__"], [p, o, v], {})
                return
            if not raw:
                h, hc = o.cls.lookup("__setattr__")
                if h is not None and isinstance(h, AFunc):
                    self.call(Bound(h, o), [name, v], {})
                    return
                if h is not None and isinstance(h, NFunc):
                    h.f(self, o, name, v)
                    return
            o.attrs[name] = v
            o.writes[name] = tuple(tm.CUR)
            return
        if isinstance(o, AArray):
            if o.cls is not None:
                p, c = o.cls.lookup(name)
                if isinstance(p, Prop):
                    if p.fset is None:
                        raise PyRaise("AttributeError", "can't set attribute '%s'" % name)
                    self.call(p.fset, [o, v], {})
                    return
                d = descriptor(p)
                if d and "__set__" in d:
                    self.call(d["__set__"], [p, o, v], {})
                    return
                if name not in ("shape", "dtype"):
                    if o.attrs is None:
                        o.attrs = {}
                    o.attrs[name] = v
                    return
            if name == "shape":
                r = ar.reshape(o, list(v) if isinstance(v, (tuple, list)) else [v])
                o.idx, o.dims = r.idx, r.dims
                return
            raise PyRaise("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name)
        if isinstance(o, AClass):
            o.ns[name] = v
            return
        if isinstance(o, AModule):
            o.ns[name] = v
            return
        if isinstance(o, Super):
            cls = self.type_of(o.obj)
            i = cls.mro.index(o.cls)
            for c in cls.mro[i + 1:]:
                p = c.ns.get(name)
                if isinstance(p, Prop):
                    self.call(p.fset, [o.obj, v], {})
                    return
                d = descriptor(p)
                if d and "__set__" in d:
                    self.call(d["__set__"], [p, o.obj, v], {})
                    return
            self.setattr(o.obj, name, v)
            return
        if isinstance(o, (AFunc, NFunc)):
            o.attrs[name] = v
            return
        if isinstance(o, NObj):
            o.ns[name] = v
            return
        if isinstance(o, self.models.AFrame):
            self.models.frame_setattr(self, o, name, v)
            return
        if isinstance(o, Unk):
            return
        if o is None:
            raise PyRaise("AttributeError", "'NoneType' object has no attribute '%s'" % name)
        raise PyRaise("AttributeError", "cannot set attribute '%s' of %s" % (name, self.describe(o)))

    # ------------------------------------------------------------- calls
    def alloc(self, cls):
        return AObj(cls)

    def call(self, f, args, kwargs):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("analysis step budget exhausted")
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, AFunc):
            return self.call_func(f, list(args), dict(kwargs))
        if isinstance(f, NFunc):
            return f.f(self, *args, **kwargs)
        if isinstance(f, AClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, NClass):
            if f.call is None:
                if EXC in f.mro or BASEEXC in f.mro:
                    o = AObj(f_as_aclass(f))
                    o.attrs["args"] = tuple(args)
                    return o
                if f is OBJECT:
                    return AObj(_OBJ_A)
                return Unk("call of %s" % f.name)
            return f.call(self, *args, **kwargs)
        if isinstance(f, Unk):
            for a in list(args) + list(kwargs.values()):
                if isinstance(a, (AArray, list, dict, AObj)):
                    pass
            return Unk("result of %s" % f.reason)
        if isinstance(f, self.models.Lru):
            return f.call(self, args, kwargs)
        if isinstance(f, AObj):
            m, _ = f.cls.lookup("__call__")
            if m is None:
                raise PyRaise("TypeError", "'%s' object is not callable" % f.cls.name)
            return self.call(self.bind(m, f), args, kwargs)
        if isinstance(f, NObj) and "__call__" in f.ns:
            return self.call(f.ns["__call__"], args, kwargs)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kwargs)
        raise PyRaise("TypeError", "%s is not callable" % self.describe(f))

    def instantiate(self, cls, args, kwargs):
        if ENUM in cls.mro:
            for m in cls.ns.get("__members_list__", []):
                if self.py_eq(m.attrs["value"], args[0]):
                    return m
            raise PyRaise("ValueError", "%r is not a valid %s" % (args[0], cls.name))
        # abstract methods
        ab = self.abstract_methods(cls)
        if ab:
            raise PyRaise("TypeError", "Can't instantiate abstract class %s with abstract methods %s" % (cls.name, ", ".join(sorted(ab))))
        new, c = cls.lookup("__new__")
        if new is not None:
            f = new.f if isinstance(new, StaticM) else new
            o = self.call(f, [cls] + list(args), kwargs)
        elif NDARRAY in cls.mro:
            shape = args[0] if args else kwargs.get("shape")
            o = self.models.npm.empty(self, shape)
            o.cls = cls
        else:
            o = self.alloc(cls)
        if self.isinstance(o, cls):
            init, c = cls.lookup("__init__")
            if init is not None:
                self.call(self.bind(init, o), args, kwargs)
            elif (args or kwargs) and new is None:
                if BASEEXC in cls.mro:
                    o.attrs["args"] = tuple(args)
                elif NDARRAY in cls.mro:
                    pass
                else:
                    raise PyRaise("TypeError", "%s() takes no arguments" % cls.name)
        return o

    def abstract_methods(self, cls):
        r = cls.__dict__.get("_abs") if hasattr(cls, "__dict__") else None
        if r is not None:
            return r
        names = set()
        for c in cls.mro:
            for n, v in c.ns.items():
                names.add(n)
        r = set()
        if ABC in cls.mro:
            for n in names:
                v, c = cls.lookup(n)
                f = v
                if isinstance(f, Prop):
                    f = f.fget
                if isinstance(f, (StaticM, ClassM)):
                    f = f.f
                if isinstance(f, AFunc) and f.attrs.get("__isabstractmethod__"):
                    r.add(n)
        cls._abs = r
        return r

    def isinstance(self, o, cls):
        if isinstance(cls, tuple):
            return any(self.isinstance(o, c) for c in cls)
        t = self.type_of(o)
        if isinstance(cls, (AClass, NClass)):
            if isinstance(o, T):
                if cls in (FLOATC, NUMBERC, NPGENERIC, NPFLOAT, OBJECT):
                    return not (o.bool and cls in (FLOATC, NPFLOAT))
                if cls in (NPBOOL,):
                    return o.bool
                if cls in (NPINT, INTC):
                    return False
                return False
            if isinstance(o, bool):
                return cls in (BOOLC, INTC, NUMBERC, OBJECT)
            if isinstance(o, int):
                return cls in (INTC, NUMBERC, OBJECT)
            if isinstance(o, Unk):
                raise Unsupported("isinstance of unknown value")
            abc_ok = self.models.abc_instance(self, o, cls)
            if abc_ok is not None:
                return abc_ok
            return cls in t.mro
        if isinstance(cls, Unk):
            raise Unsupported("isinstance against unknown class")
        return False

    def call_func(self, f, args, kwargs):
        if self.depth > 200:
            raise PyRaise("RecursionError", "maximum recursion depth exceeded in %s" % f.qual)
        if f._info is None:
            f._info = FnInfo(f.node)
        info = f._info
        env = Env(f.env, f, info.locals)
        env.globals_ = info.globals
        env.nonlocals = info.nonlocals
        self.bind_args(f, args, kwargs, env.vars)
        fname = f.module.path
        rel = os.path.relpath(fname, self.repo) if fname.startswith("/") else fname
        saved = list(tm.CUR)
        tm.CUR[0], tm.CUR[1] = rel, f.qual
        key = (rel, f.qual)
        self.functions[key] = self.functions.get(key, 0) + 1
        self.depth += 1
        self.stack.append(key)
        try:
            if isinstance(f.node, ast.Lambda):
                tm.CUR[2] = f.node.lineno
                return self.eval(f.node.body, env)
            if info.is_gen:
                def body(state, key=key, cur=tuple(tm.CUR)):
                    tm.CUR[:] = cur
                    self.depth += 1
                    self.stack.append(key)
                    self.exec_block(f.node.body, env, f.module)
                env.vars["__state__"] = state = Suspended(self, body)
                return Iter(state)
            try:
                self.exec_block(f.node.body, env, f.module)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.stack.pop()
            tm.CUR[:] = saved

    def bind_args(self, f, args, kwargs, out):
        a = f.node.args
        pos = a.posonlyargs + a.args
        n = len(pos)
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if i < len(args):
                if p.arg in kwargs and p not in a.posonlyargs:
                    raise PyRaise("TypeError", "%s() got multiple values for argument '%s'" % (f.name, p.arg))
                out[p.arg] = args[i]
            elif p.arg in kwargs:
                out[p.arg] = kwargs.pop(p.arg)
            elif i >= n - nd:
                out[p.arg] = f.defaults[i - (n - nd)]
            else:
                raise PyRaise("TypeError", "%s() missing required positional argument: '%s'" % (f.name, p.arg))
        if len(args) > n:
            if a.vararg:
                out[a.vararg.arg] = tuple(args[n:])
            else:
                raise PyRaise("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, n, len(args)))
        elif a.vararg:
            out[a.vararg.arg] = ()
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg in kwargs:
                out[p.arg] = kwargs.pop(p.arg)
            elif d is not _MISSING:
                out[p.arg] = d
            else:
                raise PyRaise("TypeError", "%s() missing required keyword-only argument: '%s'" % (f.name, p.arg))
        if a.kwarg:
            out[a.kwarg.arg] = kwargs
        elif kwargs:
            raise PyRaise("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, next(iter(kwargs))))

    # ------------------------------------------------------------- names
    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if name in e.vars and not (first and name in e.globals_):
                if e.cls is None or e is env:
                    return e.vars[name]
            elif first and name in e.locals_ and e.fn is not None:
                raise PyRaise("UnboundLocalError", "local variable '%s' referenced before assignment" % name)
            if first and name in e.globals_:
                first = False
                while e.parent is not None:
                    e = e.parent
                continue
            first = False
            e = e.parent
        if name in self.builtins:
            return self.builtins[name]
        raise PyRaise("NameError", "name '%s' is not defined" % name)

    def store(self, name, v, env):
        if name in env.globals_:
            e = env
            while e.parent is not None:
                e = e.parent
            e.vars[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, env, module):
        for s in stmts:
            self.exec(s, env, module)

    def exec(self, s, env, module):
        tm.CUR[2] = s.lineno
        self.covered.add((tm.CUR[0], s.lineno))
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s, env, module)

    def x_Expr(self, s, env, module):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env, module):
        pass

    def x_Assign(self, s, env, module):
        v = self.eval(s.value, env)
        tm.CUR[2] = s.lineno
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env, module):
        if isinstance(s.target, ast.Name) and env.cls is not None:
            env.vars.setdefault("__annotations__", {})[s.target.id] = ast.unparse(s.annotation)
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env, module):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            rhs = self.eval(s.value, env)
            tm.CUR[2] = s.lineno
            self.store(t.id, self.inplace(s.op, cur, rhs), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            rhs = self.eval(s.value, env)
            tm.CUR[2] = s.lineno
            self.setattr(o, t.attr, self.inplace(s.op, cur, rhs))
        else:
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.getitem(o, k)
            rhs = self.eval(s.value, env)
            tm.CUR[2] = s.lineno
            self.setitem(o, k, self.inplace(s.op, cur, rhs))

    def inplace(self, op, cur, rhs):
        if isinstance(cur, AArray):
            return self.models.npm.inplace(self, type(op).__name__, cur, rhs)
        if isinstance(cur, list) and isinstance(op, ast.Add):
            cur.extend(self.iterate(rhs))
            return cur
        if isinstance(cur, set) and isinstance(op, ast.BitOr):
            cur |= rhs
            return cur
        if isinstance(cur, AObj):
            nm = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__", "Div": "__itruediv__", "BitOr": "__ior__", "BitAnd": "__iand__"}.get(type(op).__name__)
            if nm:
                f, _ = cur.cls.lookup(nm)
                if f is not None:
                    return self.call(self.bind(f, cur), [rhs], {})
        return self.binop(op, cur, rhs)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyRaise("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, list(vals[i:len(vals) - after]), env)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env)
            else:
                if len(vals) != len(t.elts):
                    raise PyRaise("ValueError", "%s values to unpack (expected %d, got %d)" % (
                        "too many" if len(vals) > len(t.elts) else "not enough", len(t.elts), len(vals)))
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def x_Delete(self, s, env, module):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, (AObj, AArray)):
                    p = o.cls.lookup(t.attr)[0] if o.cls is not None else None
                    d = descriptor(p)
                    if isinstance(p, Prop) and p.fdel is not None:
                        self.call(p.fdel, [o], {})
                    elif d and "__delete__" in d:
                        self.call(d["__delete__"], [p, o], {})
                    elif not o.attrs or t.attr not in o.attrs:
                        raise PyRaise("AttributeError", t.attr)
                    else:
                        del o.attrs[t.attr]
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                if isinstance(o, (list, dict)):
                    k2 = as_pyint(k) if isinstance(k, T) else k
                    del o[k2]
                elif isinstance(o, self.models.AFrame):
                    o.cols.pop(k, None)
                else:
                    raise Unsupported("del of subscript")

    def x_Return(self, s, env, module):
        v = None if s.value is None else self.eval(s.value, env)
        raise _Return(v)

    def x_If(self, s, env, module):
        if self.truth(self.eval(s.test, env)):
            self.exec_block(s.body, env, module)
        else:
            self.exec_block(s.orelse, env, module)

    def x_While(self, s, env, module):
        n = 0
        while True:
            if not self.truth(self.eval(s.test, env)):
                self.exec_block(s.orelse, env, module)
                return
            n += 1
            if n > 400:
                raise Unsupported("loop does not terminate within 400 abstract iterations")
            try:
                self.exec_block(s.body, env, module)
            except _Break:
                return
            except _Continue:
                pass
            tm.CUR[2] = s.lineno

    def x_For(self, s, env, module):
        it = self.eval(s.iter, env)
        for x in self.iterate_lazy(it):
            self.assign(s.target, x, env)
            try:
                self.exec_block(s.body, env, module)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(s.orelse, env, module)

    def x_Break(self, s, env, module):
        raise _Break()

    def x_Continue(self, s, env, module):
        raise _Continue()

    def x_Global(self, s, env, module):
        pass

    x_Nonlocal = x_Global

    def x_Assert(self, s, env, module):
        v = self.eval(s.test, env)
        if not self.truth(v):
            raise PyRaise("AssertionError", "assertion failed")

    def x_Raise(self, s, env, module):
        if s.exc is None:
            if self.exc_stack:
                raise self.exc_stack[-1]
            raise PyRaise("RuntimeError", "No active exception to reraise")
        e = self.eval(s.exc, env)
        if isinstance(e, (NClass, AClass)):
            e = self.call(e, [], {})
        if isinstance(e, AObj):
            msg = e.attrs.get("args", ("",))
            raise PyRaise(e.cls.name, msg[0] if msg else "", e)
        raise PyRaise("Exception", repr(e))

    def exc_matches(self, e, h):
        if isinstance(h, tuple):
            return any(self.exc_matches(e, x) for x in h)
        if e.obj is not None:
            return h in e.obj.cls.mro or any(c.name == getattr(h, "name", None) for c in e.obj.cls.mro)
        c = EXCS.get(e.cls)
        if c is None:
            return h is EXC or h is BASEEXC
        return h in c.mro

    def x_Try(self, s, env, module):
        try:
            try:
                self.exec_block(s.body, env, module)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e, self.eval(h.type, env)):
                        if h.name:
                            env.vars[h.name] = self.exc_object(e)
                        self.exc_stack.append(e)
                        try:
                            self.exec_block(h.body, env, module)
                        finally:
                            self.exc_stack.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env, module)
        finally:
            et = sys.exc_info()[0]
            if et is None or issubclass(et, (PyRaise, _Return, _Break, _Continue)):
                if s.finalbody:
                    self.exec_block(s.finalbody, env, module)

    def x_With(self, s, env, module):
        self.with_items(s, list(s.items), env, module)

    def with_items(self, s, items, env, module):
        if not items:
            self.exec_block(s.body, env, module)
            return
        item = items[0]
        m = self.eval(item.context_expr, env)
        if isinstance(m, Unk):
            v, ext = m, None
        else:
            ext = self.getattr(m, "__exit__")
            v = self.call(self.getattr(m, "__enter__"), [], {})
        try:
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
            self.with_items(s, items[1:], env, module)
        except PyRaise as e:
            if ext is not None:
                o = self.exc_object(e)
                self.exc_stack.append(e)
                try:
                    over = self.truth(self.call(ext, [o.cls if e.obj is not None else EXCS.get(e.cls, EXC), o, None], {}))
                finally:
                    self.exc_stack.pop()
                if over:
                    return
            raise
        except (_Return, _Break, _Continue):
            if ext is not None:
                self.call(ext, [None, None, None], {})
            raise
        if ext is not None:
            self.call(ext, [None, None, None], {})

    def exc_object(self, e):
        o = e.obj
        if o is None:
            o = AObj(f_as_aclass(EXCS.get(e.cls, EXC)))
            o.attrs["args"] = (e.msg,)
        return o

    def x_Import(self, s, env, module):
        for al in s.names:
            m = self.import_module(al.name)
            if al.asname:
                self.store(al.asname, m, env)
            else:
                top = al.name.split(".")[0]
                self.store(top, self.import_module(top), env)

    def x_ImportFrom(self, s, env, module):
        base = s.module or ""
        if s.level:
            pkg = module.name if module.path.endswith("__init__.py") else module.name.rsplit(".", 1)[0]
            for _ in range(s.level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            base = pkg + ("." + base if base else "")
        m = self.import_module(base)
        for al in s.names:
            if al.name == "*":
                if isinstance(m, (AModule,)):
                    names = m.ns.get("__all__")
                    for k, v in list(m.ns.items()):
                        if (names is not None and k in names) or (names is None and not k.startswith("_")):
                            self.store(k, v, env)
                else:
                    for k, v in m.ns.items():
                        self.store(k, v, env)
                continue
            if isinstance(m, AModule):
                if al.name in m.ns:
                    v = m.ns[al.name]
                else:
                    sub = base + "." + al.name
                    if sub in self.modules or self.find_module(sub) or sub in self.sources:
                        v = self.import_module(sub)
                    else:
                        raise PyRaise("ImportError", "cannot import name '%s' from '%s'" % (al.name, base))
            else:
                v = self.getattr(m, al.name)
            self.store(al.asname or al.name, v, env)

    def x_FunctionDef(self, s, env, module):
        f = self.make_func(s, env, module)
        v = f
        for d in reversed(s.decorator_list):
            dec = self.eval(d, env)
            v = self.call(dec, [v], {})
        self.store(s.name, v, env)

    def make_func(self, s, env, module):
        defaults = [self.eval(d, env) for d in s.args.defaults]
        kwd = [self.eval(d, env) if d is not None else _MISSING for d in s.args.kw_defaults]
        name = getattr(s, "name", "<lambda>")
        q = name
        e = env
        cls = None
        if env.cls is not None:
            q = env.cls + "." + name
            cls = env.cls
        elif env.fn is not None:
            q = env.fn.qual + "." + name
        defenv = env
        if env.cls is not None:
            defenv = env.parent if env.parent is not None else env
        f = AFunc(s, env, module, name, defaults, kwd, q)
        f.defcls = None
        if env.cls is not None:
            pend = env.vars.setdefault("__pending_methods__", [])
            pend.append(f)
        return f

    def x_ClassDef(self, s, env, module):
        bases = []
        for b in s.bases:
            v = self.eval(b, env)
            if isinstance(v, (AClass, NClass)):
                bases.append(v)
            elif isinstance(v, Unk):
                raise Unsupported("class %s derives from an unmodelled class: %s" % (s.name, v.reason))
        cenv = Env(env)
        cenv.cls = s.name if env.cls is None else env.cls + "." + s.name
        saved = tm.CUR[1]
        tm.CUR[1] = cenv.cls
        self.exec_block(s.body, cenv, module)
        tm.CUR[1] = saved
        ns = cenv.vars
        pend = ns.pop("__pending_methods__", [])
        meta_abc = any(k.arg == "metaclass" for k in s.keywords)
        if meta_abc and ABC not in [m for b in bases for m in b.mro]:
            bases = [b for b in bases if b is not OBJECT] + [ABC]
        c = AClass(s.name, bases, ns, module, s)
        for f in pend:
            f.defcls = c
        for k, v in ns.items():
            if isinstance(v, CachedProp):
                v.name = k
        if ENUM in c.mro:
            members = []
            auto = 0
            for k, v in list(ns.items()):
                if k.startswith("_") or isinstance(v, (AFunc, Prop, StaticM, ClassM)):
                    continue
                if isinstance(v, NObj) and v.kind == "auto":
                    v = auto + 1
                if isinstance(v, int):
                    auto = v
                o = AObj(c)
                o.attrs["name"] = k
                o.attrs["value"] = v
                ns[k] = o
                members.append(o)
            ns["__members_list__"] = members
        for k, v in list(ns.items()):
            if isinstance(v, AObj):
                h, _ = v.cls.lookup("__set_name__")
                if h is not None:
                    self.call(self.bind(h, v), [c, k], {})
        for b in c.mro[1:]:
            h = b.ns.get("__init_subclass__")
            if h is not None:
                kw = {k.arg: self.eval(k.value, env) for k in s.keywords if k.arg not in (None, "metaclass")}
                self.call(h.f if isinstance(h, ClassM) else h, [c], kw)
                break
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, env), [v], {})
        self.store(s.name, v, env)

    def x_Match(self, s, env, module):
        subj = self.eval(s.subject, env)
        for case in s.cases:
            if self.match(case.pattern, subj, env) and (case.guard is None or self.truth(self.eval(case.guard, env))):
                self.exec_block(case.body, env, module)
                return

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchClass):
            return self.isinstance(v, self.eval(p.cls, env)) and not p.patterns and not p.kwd_patterns
        if isinstance(p, ast.MatchSequence) and isinstance(v, (list, tuple)):
            return len(p.patterns) == len(v) and all(self.match(q, x, env) for q, x in zip(p.patterns, v))
        raise Unsupported("match pattern")

    # ------------------------------------------------------------- expressions
    def eval(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(n).__name__)
        if hasattr(n, "lineno"):
            tm.CUR[2] = n.lineno
        return m(n, env)

    def e_Constant(self, n, env):
        v = n.value
        if isinstance(v, float):
            return tm.const(v)
        if isinstance(v, complex):
            return Unk("complex literal")
        return v

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Attribute(self, n, env):
        o = self.eval(n.value, env)
        tm.CUR[2] = n.lineno
        return self.getattr(o, n.attr)

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        return list(self.elts(n.elts, env))

    def e_Set(self, n, env):
        return set(self.hashable(x) for x in self.elts(n.elts, env))

    def elts(self, es, env):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return out

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                m = self.eval(v, env)
                d.update(m)
            else:
                d[self.hashable(self.eval(k, env))] = self.eval(v, env)
        return d

    def hashable(self, k):
        if isinstance(k, T) and k.k == "c":
            i = as_pyint(k)
            return i if i is not None else k
        if type(k) is tuple:
            return tuple(self.hashable(x) for x in k)
        if isinstance(k, (list, dict, set, AArray)):
            raise PyRaise("TypeError", "unhashable type: '%s'" % self.type_of(k).name)
        return k

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return self.zero_super(env)
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                m = self.eval(k.value, env)
                if isinstance(m, Unk):
                    return Unk("call with unknown keywords")
                for kk in m:
                    if kk in kw:
                        raise PyRaise("TypeError", "got multiple values for keyword argument '%s'" % kk)
                kw.update(m)
            else:
                if k.arg in kw:
                    raise PyRaise("TypeError", "got multiple values for keyword argument '%s'" % k.arg)
                kw[k.arg] = self.eval(k.value, env)
        tm.CUR[2] = n.lineno
        self.calls += 1
        if isinstance(f, NFunc) and f.name in ("locals", "globals"):
            return env.vars
        return f.f(self, *args, **kw) if isinstance(f, NFunc) else self.call(f, args, kw)

    def zero_super(self, env):
        e = env
        while e is not None and e.fn is None:
            e = e.parent
        while e is not None:
            fn = e.fn
            if fn is not None and getattr(fn, "defcls", None) is not None:
                a = fn.node.args
                first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else a.vararg.arg
                o = e.vars[first]
                if isinstance(o, tuple) and not (a.posonlyargs + a.args):
                    o = o[0]
                return Super(fn.defcls, o)
            e = e.parent
        raise PyRaise("RuntimeError", "super(): no arguments")

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        tm.CUR[2] = n.lineno
        return self.binop(n.op, a, b)

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, T):
                t = tm.truth(v)
                if t.k != "b":
                    return tm.not_(t)
            return not self.truth(v)
        if isinstance(v, Unk):
            return v
        if isinstance(v, (int, bool)):
            return {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(n.op)](v)
        if isinstance(v, T):
            if isinstance(n.op, ast.USub):
                return tm.neg(v)
            if isinstance(n.op, ast.UAdd):
                return v
            if v.bool:
                return tm.not_(v)
            return tm.sub(tm.neg(v), tm.ONE)
        if isinstance(v, AArray):
            return self.models.npm.unary(self, type(n.op).__name__, v)
        if isinstance(v, self.models.ASeries):
            return self.models.ASeries(self.models.npm.unary(self, type(n.op).__name__, v.arr), v.name)
        if isinstance(v, AObj):
            nm = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(n.op)]
            f, _ = v.cls.lookup(nm)
            if f is not None:
                return self.call(self.bind(f, v), [], {})
        raise PyRaise("TypeError", "bad operand type for unary %s: %s" % (type(n.op).__name__, self.describe(v)))

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        acc = None
        for i, e in enumerate(n.values):
            v = self.eval(e, env)
            if isinstance(v, T) and tm.truth(v).k != "b" and v.bool and _pure(n.values[i + 1:]):
                # keep as a term when the remaining operands are pure comparisons
                acc = v if acc is None else (tm.and_(acc, v) if isand else tm.or_(acc, v))
                continue
            if acc is not None:
                if isinstance(v, T) and (v.bool):
                    acc = tm.and_(acc, v) if isand else tm.or_(acc, v)
                    continue
                if isinstance(v, bool):
                    acc = tm.and_(acc, tm.const(v)) if isand else tm.or_(acc, tm.const(v))
                    continue
                d = self.truth(acc)
                if d != isand:
                    return acc
                acc = None
            if self.truth(v) != isand:
                return v
        return acc if acc is not None else v

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, env)
            tm.CUR[2] = n.lineno
            c = self.compare(op, left, right)
            if len(n.ops) == 1:
                return c
            if isinstance(c, T) and isinstance(res, (T, bool)):
                res = tm.and_(tm.const(res) if isinstance(res, bool) else res, c)
                if res is tm.FALSE:
                    return False
            else:
                if not self.truth(c):
                    return False
            left = right
        if isinstance(res, T) and res.k == "b":
            return res.a[0]
        return res

    def e_IfExp(self, n, env):
        c = self.eval(n.test, env)
        if isinstance(c, T):
            t = tm.truth(c)
            if t.k != "b" and _pure([n.body, n.orelse]):
                a = self.eval(n.body, env)
                b = self.eval(n.orelse, env)
                if _isnum(a) and _isnum(b):
                    return tm.ite(t, tm.const(a), tm.const(b))
                return a if self.truth(t) else b
        return self.eval(n.body if self.truth(c) else n.orelse, env)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.store(n.target.id, v, env)
        return v

    def e_Lambda(self, n, env):
        return self.make_func(n, env, self.module_of(env))

    def module_of(self, env):
        e = env
        while e.parent is not None:
            e = e.parent
        for m in self.modules.values():
            if m.ns is e.vars:
                return m
        raise Unsupported("module of lambda")

    def e_JoinedStr(self, n, env):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.eval(v.value, env)
                out.append(self.tostr(x))
        return "".join(out)

    def tostr(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, T):
            return tm.show(x)
        return str(x)

    def e_FormattedValue(self, n, env):
        return self.tostr(self.eval(n.value, env))

    def e_Starred(self, n, env):
        raise Unsupported("starred expression")

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        k = self.eval_index(n.slice, env)
        tm.CUR[2] = n.lineno
        return self.getitem(o, k)

    def eval_index(self, n, env):
        if isinstance(n, ast.Slice):
            return slice(*[None if x is None else self.eval(x, env) for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    out.extend(self.iterate(self.eval(e.value, env)))
                else:
                    out.append(self.eval_index(e, env))
            return tuple(out)
        return self.eval(n, env)

    def e_Slice(self, n, env):
        return self.eval_index(n, env)

    def e_ListComp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.eval(n.elt, e)))
        return out

    def e_GeneratorExp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.eval(n.elt, e)))
        return Iter(out)

    def e_SetComp(self, n, env):
        out = set()
        self.comp(n.generators, env, lambda e: out.add(self.hashable(self.eval(n.elt, e))))
        return out

    def e_DictComp(self, n, env):
        out = {}

        def f(e):
            out[self.hashable(self.eval(n.key, e))] = self.eval(n.value, e)
        self.comp(n.generators, env, f)
        return out

    def comp(self, gens, env, f, scope=None):
        e = scope
        if e is None:
            e = Env(env)
        g = gens[0]
        for x in self.iterate_lazy(self.eval(g.iter, env if scope is None else e)):
            self.assign(g.target, x, e)
            if all(self.truth(self.eval(c, e)) for c in g.ifs):
                if len(gens) > 1:
                    self.comp(gens[1:], env, f, e)
                else:
                    f(e)

    def e_Yield(self, n, env):
        e = env
        while e.fn is None:
            e = e.parent
        return e.vars["__state__"].give(None if n.value is None else self.eval(n.value, env))

    def e_YieldFrom(self, n, env):
        e = env
        while e.fn is None:
            e = e.parent
        src = self.iterate_lazy(self.eval(n.value, env))
        src = iter(src)
        while True:
            try:
                v = next(src)
            except StopIteration as stop:
                return getattr(stop, "value", None)
            e.vars["__state__"].give(v)

    # ------------------------------------------------------------- operations
    def binop(self, op, a, b):
        name = type(op).__name__
        if isinstance(a, Unk) or isinstance(b, Unk):
            return a if isinstance(a, Unk) else b
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return self.pyint_op(name, a, b)
        if isinstance(a, (AArray, T, bool, int)) and isinstance(b, (AArray, T, bool, int)):
            if isinstance(a, AArray) or isinstance(b, AArray):
                return self.models.npm.binary(self, name, a, b)
            return self.models.npm.scalar_binop(self, name, tm.const(a), tm.const(b))
        if isinstance(a, self.models.AFrame) or isinstance(b, self.models.AFrame):
            return self.models.frame_binop(self, name, a, b)
        if isinstance(a, self.models.ASeries) or isinstance(b, self.models.ASeries):
            return self.models.series_binop(self, name, a, b)
        if isinstance(a, AObj) or isinstance(b, AObj):
            return self.dunder_binop(name, a, b)
        if isinstance(a, AArray) or isinstance(b, AArray):
            # list/tuple operand
            other = b if isinstance(a, AArray) else a
            if isinstance(other, (list, tuple, range)):
                return self.models.npm.binary(self, name, self.models.npm.asarray(a), self.models.npm.asarray(b))
        if isinstance(a, (str, list, tuple)) or isinstance(b, (str, list, tuple)) or isinstance(a, (set, dict, frozenset)):
            if name == "Add" and type(a) is type(b) and isinstance(a, (str, list, tuple)):
                return a + b
            if name == "Mult":
                i = as_pyint(b) if not isinstance(b, (str, list, tuple)) else as_pyint(a)
                s = a if isinstance(a, (str, list, tuple)) else b
                if i is not None:
                    return s * i
            if name == "Mod" and isinstance(a, str):
                args = b if isinstance(b, tuple) else (b,)
                args = tuple(as_pyint(x) if isinstance(x, T) and as_pyint(x) is not None else (tm.cfloat(x) if isinstance(x, T) and x.k == "c" else x) for x in args)
                if all(isinstance(x, (int, float, str, type(None))) for x in args):
                    try:
                        return a % (args if isinstance(b, tuple) else args[0])
                    except TypeError as e:
                        raise PyRaise("TypeError", str(e))
                return a
            if name in ("BitOr", "BitAnd", "Sub", "BitXor") and isinstance(a, (set, frozenset)):
                return {"BitOr": a.__or__, "BitAnd": a.__and__, "Sub": a.__sub__, "BitXor": a.__xor__}[name](b)
            if name == "BitOr" and isinstance(a, dict):
                return {**a, **b}
            raise PyRaise("TypeError", "unsupported operand type(s) for %s: %s and %s" % (name, self.describe(a), self.describe(b)))
        if isinstance(a, (AClass, NClass)) and name == "BitOr":
            return (a, b)
        raise PyRaise("TypeError", "unsupported operand type(s) for %s: %s and %s" % (name, self.describe(a), self.describe(b)))

    def pyint_op(self, name, a, b):
        if name == "Add":
            return a + b
        if name == "Sub":
            return a - b
        if name == "Mult":
            return a * b
        if name == "Div":
            if b == 0:
                raise PyRaise("ZeroDivisionError", "division by zero")
            return tm.div(tm.const(int(a)), tm.const(int(b)))
        if name == "FloorDiv":
            if b == 0:
                raise PyRaise("ZeroDivisionError", "integer division by zero")
            return a // b
        if name == "Mod":
            if b == 0:
                raise PyRaise("ZeroDivisionError", "integer modulo by zero")
            return a % b
        if name == "Pow":
            if b < 0:
                return tm.powt(tm.const(int(a)), tm.const(int(b)))
            return a ** b
        return {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b,
                "LShift": lambda: a << b, "RShift": lambda: a >> b}[name]()

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod",
              "Pow": "pow", "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor"}

    def dunder_binop(self, name, a, b):
        d = self.DUNDER.get(name)
        if d:
            if isinstance(a, AObj):
                f, _ = a.cls.lookup("__%s__" % d)
                if f is not None:
                    r = self.call(self.bind(f, a), [b], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(b, AObj):
                f, _ = b.cls.lookup("__r%s__" % d)
                if f is not None:
                    r = self.call(self.bind(f, b), [a], {})
                    if r is not NotImplemented:
                        return r
        raise PyRaise("TypeError", "unsupported operand type(s) for %s: %s and %s" % (name, self.describe(a), self.describe(b)))

    def py_eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, T) or isinstance(b, T):
            if _isnum(a) and _isnum(b):
                t = tm.eq(tm.const(a), tm.const(b))
                if t.k == "b":
                    return t.a[0]
                return self.truth(t)
            return False
        if isinstance(a, (tuple, list)) and type(a) is type(b):
            return len(a) == len(b) and all(self.py_eq(x, y) for x, y in zip(a, b))
        if isinstance(a, AObj):
            f, _ = a.cls.lookup("__eq__")
            if f is not None:
                return self.truth(self.call(self.bind(f, a), [b], {}))
            return False
        if isinstance(a, AArray) or isinstance(b, AArray):
            return self.truth(self.compare(ast.Eq(), a, b))
        try:
            return bool(a == b)
        except Exception:
            return False

    def compare(self, op, a, b):
        name = type(op).__name__
        if name == "Is":
            return self.is_(a, b)
        if name == "IsNot":
            return not self.is_(a, b)
        if name in ("In", "NotIn"):
            r = self.contains(b, a)
            if isinstance(r, T):
                return r if name == "In" else tm.not_(r)
            return r if name == "In" else not r
        if isinstance(a, Unk) or isinstance(b, Unk):
            return a if isinstance(a, Unk) else b
        if (isinstance(a, self.models.AFrame) or isinstance(b, self.models.AFrame)) and a is not None and b is not None:
            return self.models.frame_binop(self, name, a, b, "compare")
        if isinstance(a, self.models.ASeries) or isinstance(b, self.models.ASeries):
            return self.models.series_compare(self, name, a, b)
        if isinstance(a, AArray) or isinstance(b, AArray):
            if (a is None or b is None or isinstance(a, str) or isinstance(b, str)) :
                return name == "NotEq"
            if isinstance(a, AObj) or isinstance(b, AObj):
                return name == "NotEq"
            return self.models.npm.compare(self, name, a, b)
        if _isnum(a) and _isnum(b):
            if isinstance(a, T) or isinstance(b, T):
                return self.models.npm.scalar_compare(name, tm.const(a), tm.const(b))
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[name]
        if name in ("Eq", "NotEq"):
            r = self.py_eq(a, b)
            return r if name == "Eq" else not r
        if isinstance(a, (str,)) and isinstance(b, str) or (isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset))):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[name]
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            for x, y in zip(a, b):
                if self.py_eq(x, y):
                    continue
                return self.compare(op, x, y)
            return {"Lt": len(a) < len(b), "LtE": len(a) <= len(b), "Gt": len(a) > len(b), "GtE": len(a) >= len(b)}[name]
        if isinstance(a, AObj) or isinstance(b, AObj):
            d = {"Lt": ("__lt__", "__gt__"), "LtE": ("__le__", "__ge__"), "Gt": ("__gt__", "__lt__"), "GtE": ("__ge__", "__le__")}[name]
            for x, y, nm in ((a, b, d[0]), (b, a, d[1])):
                if isinstance(x, AObj):
                    f, _ = x.cls.lookup(nm)
                    if f is not None:
                        return self.call(self.bind(f, x), [y], {})
        raise PyRaise("TypeError", "'%s' not supported between instances of %s and %s" % (name, self.describe(a), self.describe(b)))

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            if isinstance(a, Unk) or isinstance(b, Unk):
                raise Unsupported("identity of unknown value")
            return False
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return False

    def contains(self, c, x):
        if isinstance(c, dict):
            if isinstance(x, (list, dict, AArray)):
                raise PyRaise("TypeError", "unhashable type")
            return self.hashable(x) in c
        if isinstance(c, str):
            if not isinstance(x, str):
                raise PyRaise("TypeError", "'in <string>' requires string as left operand")
            return x in c
        if isinstance(c, (list, tuple, set, frozenset, range)):
            acc = tm.FALSE
            for y in c:
                if y is x:
                    return True
                if _isnum(x) and _isnum(y):
                    acc = tm.or_(acc, tm.eq(tm.const(x), tm.const(y)))
                    if acc is tm.TRUE:
                        return True
                elif self.py_eq(x, y):
                    return True
            if acc.k == "b":
                return acc.a[0]
            return acc
        if isinstance(c, AArray):
            acc = tm.FALSE
            if c.has_lane():
                return self.models.npm.call(self, "any", self.models.npm.compare(self, "Eq", c, x))
            for y in c.cells():
                acc = tm.or_(acc, tm.eq(tm.const(x), y))
            return acc.a[0] if acc.k == "b" else acc
        if isinstance(c, AClass) and ENUM in c.mro:
            return x in c.ns["__members_list__"]
        if isinstance(c, AObj):
            f, _ = c.cls.lookup("__contains__")
            if f is not None:
                return self.truth(self.call(self.bind(f, c), [x], {}))
            return self.contains(self.iterate(c), x)
        if isinstance(c, self.models.AFrame):
            return x in c.cols
        if isinstance(c, Unk):
            return c
        return self.contains(self.iterate(c), x)

    def getitem(self, o, k):
        if isinstance(o, AArray):
            if isinstance(k, Unk) or (isinstance(k, tuple) and any(isinstance(x, Unk) for x in k)):
                return Unk("indexed by unknown")
            r = ar.getitem(o, self.norm_key(k))
            return self.models.npm.scalar(r, o.dtype) if isinstance(r, T) else r
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, slice):
                k = slice(*[as_pyint(x) if x is not None else None for x in (k.start, k.stop, k.step)])
                return o[k]
            i = as_pyint(k)
            if i is None and isinstance(k, bool):
                i = int(k)
            if i is None:
                if isinstance(k, T):
                    r = self.symbolic_pick(list(o), k)
                    if r is not None:
                        return r
                    raise Unsupported("symbolic index into a sequence")
                raise PyRaise("TypeError", "sequence indices must be integers, not %s" % self.describe(k))
            try:
                return o[i]
            except IndexError:
                raise PyRaise("IndexError", "index %d out of range" % i)
        if isinstance(o, dict):
            k = self.hashable(k)
            try:
                return o[k]
            except KeyError:
                if isinstance(o, self.models.DefaultDict):
                    v = self.call(o.factory, [], {})
                    o[k] = v
                    return v
                raise PyRaise("KeyError", repr(k))
        if isinstance(o, AObj):
            f, _ = o.cls.lookup("__getitem__")
            if f is not None:
                return self.call(self.bind(f, o), [k], {})
            raise PyRaise("TypeError", "'%s' object is not subscriptable" % o.cls.name)
        if isinstance(o, AClass):
            if ENUM in o.mro and isinstance(k, str):
                if k in o.ns:
                    return o.ns[k]
                raise PyRaise("KeyError", k)
            f, _ = o.lookup("__class_getitem__")
            return o
        if isinstance(o, NClass):
            return o
        if isinstance(o, self.models.AFrame):
            return self.models.frame_getitem(self, o, k)
        if isinstance(o, self.models.ASeries):
            return self.models.series_getitem(self, o, k)
        if isinstance(o, NObj):
            if "__getitem__" in o.ns:
                return self.call(o.ns["__getitem__"], [k], {})
            return Unk("subscript of %r" % o)
        if isinstance(o, Unk):
            return o
        if isinstance(o, T):
            if k is Ellipsis or k == ():
                return o
            if k is None or (isinstance(k, tuple) and all(x is None or x is Ellipsis for x in k)):
                return ar.getitem(self.models.npm.asarray(o), k)
            raise PyRaise("IndexError", "invalid index to scalar variable.")
        raise PyRaise("TypeError", "%s is not subscriptable" % self.describe(o))

    def symbolic_pick(self, seq, k):
        if not seq or not all(_isnum(x) for x in seq):
            return None
        r = tm.const(seq[-1])
        for i in range(len(seq) - 2, -1, -1):
            r = tm.ite(tm.eq(k, tm.const(i)), tm.const(seq[i]), r)
        return r

    def norm_key(self, k):
        if isinstance(k, tuple):
            return tuple(self.norm_key1(x) for x in k)
        return self.norm_key1(k)

    def norm_key1(self, x):
        if isinstance(x, tuple):
            return list(x)
        if isinstance(x, range):
            return list(x)
        if isinstance(x, self.models.ASeries):
            return x.arr
        if isinstance(x, bool):
            return x
        return x

    def setitem(self, o, k, v):
        if isinstance(o, AArray):
            if isinstance(k, Unk) or isinstance(v, Unk):
                if isinstance(k, Unk):
                    ar.note_write(o.buf)
                    for i in o.idx.ravel():
                        o.buf.cells[i] = tm.unk(k.reason)
                    return
                v = tm.unk(v.reason)
            ar.setitem(o, self.norm_key(k), self.models.npm.asarray(v))
            return
        if isinstance(o, list):
            if isinstance(k, slice):
                k = slice(*[as_pyint(x) if x is not None else None for x in (k.start, k.stop, k.step)])
                o[k] = list(self.iterate(v))
                return
            i = as_pyint(k)
            if i is None:
                raise Unsupported("symbolic list index store")
            try:
                o[i] = v
            except IndexError:
                raise PyRaise("IndexError", "list assignment index out of range")
            return
        if isinstance(o, dict):
            o[self.hashable(k)] = v
            return
        if isinstance(o, AObj):
            f, _ = o.cls.lookup("__setitem__")
            if f is not None:
                self.call(self.bind(f, o), [k, v], {})
                return
            raise PyRaise("TypeError", "'%s' object does not support item assignment" % o.cls.name)
        if isinstance(o, self.models.AFrame):
            self.models.frame_setitem(self, o, k, v)
            return
        if isinstance(o, NObj) and "__setitem__" in o.ns:
            self.call(o.ns["__setitem__"], [k, v], {})
            return
        if isinstance(o, Unk):
            return
        raise PyRaise("TypeError", "%s does not support item assignment" % self.describe(o))

    # ------------------------------------------------------------- iteration
    def iterate(self, v):
        return list(self.iterate_lazy(v))

    def iterate_lazy(self, v):
        if isinstance(v, (list,)):
            return _list_iter(v)
        if isinstance(v, (tuple, str, range, set, frozenset)):
            return list(v) if isinstance(v, (set, frozenset)) else v
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Iter):
            return v.gen
        if isinstance(v, AArray):
            if v.ndim == 0:
                raise PyRaise("TypeError", "iteration over a 0-d array")
            d = v.dims[0]
            if isinstance(d, LDim):
                if all(isinstance(b[0], tuple) and b[1] is tm.TRUE for b in d.blocks):
                    return [self.getitem(v, i) for i in range(len(d))]
                if all(isinstance(b[0], tuple) for b in d.blocks):
                    return self._iter_some(v)
                raise ar.CrossLane("iteration over individual rays")
            return [self.getitem(v, i) for i in range(d)]
        if isinstance(v, AClass) and ENUM in v.mro:
            return list(v.ns["__members_list__"])
        if isinstance(v, AObj):
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                return self.iterate_lazy(self.call(self.bind(f, v), [], {}))
            g, _ = v.cls.lookup("__getitem__")
            if g is not None:
                out = []
                for i in range(10000):
                    try:
                        out.append(self.call(self.bind(g, v), [i], {}))
                    except PyRaise as e:
                        if e.cls == "IndexError":
                            break
                        raise
                return out
            nx, _ = v.cls.lookup("__next__")
            if nx is not None:
                return self._iter_next(v)
            raise PyRaise("TypeError", "'%s' object is not iterable" % v.cls.name)
        if isinstance(v, self.models.AFrame):
            return list(v.cols)
        if isinstance(v, self.models.ASeries):
            return self.iterate_lazy(v.arr)
        if isinstance(v, Unk):
            raise Unsupported("iteration over unknown value: %s" % v.reason)
        if isinstance(v, NObj) and "__iter__" in v.ns:
            return self.iterate_lazy(self.call(v.ns["__iter__"], [], {}))
        raise PyRaise("TypeError", "%s is not iterable" % self.describe(v))

    def _iter_some(self, v):
        """entries that are there or not depending on the data"""
        for i, b in enumerate(v.dims[0].blocks):
            if self.truth(b[1]):
                yield self.models.npm.pick_block(v, i)

    def _iter_next(self, v):
        nx, _ = v.cls.lookup("__next__")
        while True:
            try:
                x = self.call(self.bind(nx, v), [], {})
            except PyRaise as e:
                if e.cls == "StopIteration":
                    return
                raise
            yield x


def descriptor(v):
    """the descriptor methods of a class attribute that is an instance of a user-defined class"""
    if not isinstance(v, AObj):
        return None
    d = {}
    for n in ("__get__", "__set__", "__delete__"):
        f, c = v.cls.lookup(n)
        if isinstance(f, (AFunc, NFunc)):
            d[n] = f
    return d or None


def _list_iter(v):
    i = 0
    while i < len(v):
        yield v[i]
        i += 1


def _isnum(v):
    return isinstance(v, (T, int, bool))


def _pure(nodes):
    """expressions without calls that could have effects"""
    for n in nodes:
        for c in ast.walk(n):
            if isinstance(c, (ast.Call, ast.NamedExpr, ast.Yield, ast.Await, ast.Subscript)):
                return False
    return True


_MISSING = type("_Missing", (), {"__repr__": lambda s: "<missing>"})()
_aclass_cache = {}


def f_as_aclass(nc):
    """wrap a native class as AClass so that instances are AObj"""
    c = _aclass_cache.get(nc)
    if c is None:
        c = AClass.__new__(AClass)
        c.name, c.bases, c.ns, c.module, c.node = nc.name, [nc], {}, None, None
        c.mro = [c] + list(nc.mro)
        _aclass_cache[nc] = c
    return c


_OBJ_A = f_as_aclass(OBJECT)
