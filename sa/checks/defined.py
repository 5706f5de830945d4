"""Definedness: names, attributes, calls, locals and results of the whole program resolve on every path (flow analysis over the syntax trees)."""
import ast
import builtins
import json
import os
import subprocess
import symtable
import sys
import time

VENV = "/opt/venv/bin/python"

PROBE = r"""
import importlib, inspect, json, sys
out = {}
for path in json.load(sys.stdin):
    parts = path.split(".")
    obj, ok, i = None, True, 0
    try:
        obj = importlib.import_module(parts[0])
    except Exception:
        out[path] = None
        continue
    for i, p in enumerate(parts[1:], 1):
        if hasattr(obj, p):
            obj = getattr(obj, p)
            continue
        try:
            obj = importlib.import_module(".".join(parts[:i + 1]))
        except Exception:
            ok = False
            break
    if not ok:
        out[path] = {"missing": parts[i], "of": ".".join(parts[:i])}
        continue
    d = {"kind": "class" if inspect.isclass(obj) else "module" if inspect.ismodule(obj) else "callable" if callable(obj) else "value"}
    if inspect.isclass(obj):
        d["attrs"] = dir(obj)
    if type(obj).__name__ == "ufunc":
        d["ufunc"] = [obj.nin, obj.nout]
    elif callable(obj):
        try:
            s = inspect.signature(obj)
            d["sig"] = [[p.name, p.kind.name, p.default is not inspect.Parameter.empty] for p in s.parameters.values()]
        except Exception:
            pass
    out[path] = d
json.dump(out, sys.stdout)
"""


def library(paths):
    """facts about the installed libraries (never about the repository)"""
    if not os.path.exists(VENV):
        return {}
    try:
        env = {"PATH": "/usr/bin:/bin", "MPLBACKEND": "Agg", "MPLCONFIGDIR": "/opt/pyrayt/mplconfig", "PYTHONDONTWRITEBYTECODE": "1", "HOME": "/nonexistent"}
        r = subprocess.run([VENV, "-I", "-c", PROBE], input=json.dumps(sorted(paths)), capture_output=True, text=True, timeout=300, cwd="/", env=env)
        return json.loads(r.stdout)
    except Exception:
        return {}


class Mod:
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.tree = ast.parse(src, rel)
        self.pkg = rel.endswith("__init__.py")
        self.names = {}      # top level name -> ("mod", dotted) | ("ext", dotted) | ("def", node) | ("class", Cls) | ("val", node)
        self.stars = []
        self.used = None


class Cls:
    def __init__(self, mod, node, qual):
        self.mod, self.node, self.qual = mod, node, qual
        self.name = node.name
        self.methods = {}
        self.attrs = set()
        self.enum = []
        self.fields = []
        self.dataclass = any("dataclass" in ast.dump(d) for d in node.decorator_list)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in s.decorator_list):
                    self.attrs.add(s.name)
                    continue
                self.methods[s.name] = s
                self.attrs.add(s.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.attrs.add(n.id)
                            self.enum.append(n.id)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    self.attrs.add(s.target.id)
                    self.enum.append(s.target.id)
                self.fields.append((s.target.id, s.value is not None))
            elif isinstance(s, ast.ClassDef):
                self.attrs.add(s.name)


class Program:
    def __init__(self, repo, roots=("pyrayt", "tinygfx"), extra=("examples",)):
        self.repo = repo
        self.mods = {}
        self.errors = []
        for root in roots + extra:
            for dp, dn, fn in sorted(os.walk(os.path.join(repo, root))):
                dn.sort()
                for f in sorted(fn):
                    if not f.endswith(".py"):
                        continue
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, repo)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    m = Mod(name, p, rel, open(p, encoding="utf-8").read())
                    m.library = root in roots
                    self.mods[name] = m
        self.documents()
        self.classes = []
        for m in self.mods.values():
            self.top(m)
        for _ in range(4):
            for m in self.mods.values():
                for src in m.stars:
                    if src in self.mods:
                        t = self.mods[src]
                        pub = None
                        if "__all__" in t.names and isinstance(t.names["__all__"][1], ast.Assign):
                            try:
                                pub = ast.literal_eval(t.names["__all__"][1].value)
                            except Exception:
                                pub = None
                        for k, v in t.names.items():
                            if (pub is None and not k.startswith("_")) or (pub is not None and k in pub):
                                m.names.setdefault(k, v)

    def documents(self):
        """the Python session shown in the documentation, one program per document"""
        base = os.path.join(self.repo, "docs", "source")
        for f in sorted(os.listdir(base)) if os.path.isdir(base) else []:
            if not f.endswith(".rst"):
                continue
            lines = open(os.path.join(base, f), encoding="utf-8").read().split("\n")
            src = [""] * len(lines)
            block = None
            for i, l in enumerate(lines):
                t = l.strip()
                if t.startswith(">>> "):
                    src[i] = t[4:]
                elif t.startswith(".. code:: python"):
                    block = len(l) - len(l.lstrip())
                elif block is not None:
                    if t and len(l.expandtabs(8)) - len(l.expandtabs(8).lstrip()) <= block:
                        block = None
                    else:
                        src[i] = t
            if not any(src):
                continue
            rel = os.path.join("docs", "source", f)
            try:
                m = Mod("docs." + f[:-4], os.path.join(base, f), rel, "\n".join(src) + "\n")
            except SyntaxError:
                continue
            m.library = False
            self.mods[m.name] = m

    def absolute(self, m, node):
        if not node.level:
            return node.module
        base = m.name.split(".")
        base = base if m.pkg else base[:-1]
        base = base[:len(base) - (node.level - 1)]
        return ".".join(base + ([node.module] if node.module else []))

    def top(self, m):
        m.imports = set()
        m.froms = []
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                m.imports |= {a.name for a in n.names}
            elif isinstance(n, ast.ImportFrom):
                a = self.absolute(m, n)
                m.imports.add(a)
                for x in n.names:
                    m.froms.append((a, x.name, n))
                    if a + "." + x.name in self.mods or os.path.exists(os.path.join(self.repo, *(a.split(".") + [x.name + ".py"]))) or os.path.isdir(os.path.join(self.repo, *(a.split(".") + [x.name]))):
                        m.imports.add(a + "." + x.name)

        def scan(body):
            for s in body:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.names[a.asname] = self.ref(a.name)
                        else:
                            m.names[a.name.split(".")[0]] = self.ref(a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    src = self.absolute(m, s)
                    for a in s.names:
                        if a.name == "*":
                            m.stars.append(src)
                        else:
                            m.names[a.asname or a.name] = ("from", src, a.name)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.names[s.name] = ("def", s, m)
                elif isinstance(s, ast.ClassDef):
                    c = Cls(m, s, m.name + "." + s.name)
                    self.classes.append(c)
                    m.names[s.name] = ("class", c)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                m.names[n.id] = ("val", s, m)
                elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    for n in ast.walk(s.target) if isinstance(s, ast.For) else []:
                        if isinstance(n, ast.Name):
                            m.names[n.id] = ("val", s, m)
                    for b in ("body", "orelse", "finalbody"):
                        scan(getattr(s, b, []) or [])
                    for h in getattr(s, "handlers", []) or []:
                        scan(h.body)
        scan(m.tree.body)

    def ref(self, dotted):
        return ("mod", dotted) if dotted in self.mods or os.path.isdir(os.path.join(self.repo, *dotted.split("."))) else ("ext", dotted)

    def resolve(self, v, depth=0):
        if v and v[0] == "from" and depth < 12:
            _, src, name = v
            if src in self.mods:
                t = self.mods[src]
                if name in t.names:
                    return self.resolve(t.names[name], depth + 1)
                if src + "." + name in self.mods:
                    return ("mod", src + "." + name)
                return ("missing", src, name)
            if os.path.isdir(os.path.join(self.repo, *src.split("."))):
                return self.ref(src + "." + name)
            return ("ext", src + "." + name)
        return v

    def closure(self, start):
        seen, todo = set(), [start] + [".".join(start.split(".")[:i]) for i in range(1, start.count(".") + 1)]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            m = self.mods.get(x)
            if m:
                for i in m.imports:
                    parts = i.split(".")
                    todo += [".".join(parts[:k]) for k in range(1, len(parts) + 1)]
        return seen

    def mro(self, c):
        """in-repo classes of the linearised bases, and the external bases"""
        order, ext = [], []

        def go(x):
            if x in order:
                return
            order.append(x)
            for b in x.node.bases:
                r = self.lookup(x.mod, b)
                if r and r[0] == "class":
                    go(r[1])
                elif r and r[0] == "ext":
                    ext.append(r[1])
                elif isinstance(b, ast.Name) and b.id in dir(builtins):
                    ext.append("builtins." + b.id)
                else:
                    ext.append(None)
        go(c)
        return order, ext

    def lookup(self, m, node, local=()):
        """what an expression of names and attributes refers to (None: a run-time value)"""
        if isinstance(node, ast.Name):
            if node.id in local:
                return None
            v = m.names.get(node.id)
            return self.resolve(v) if v else None
        if isinstance(node, ast.Attribute):
            b = self.lookup(m, node.value, local)
            if not b:
                return None
            if b[0] == "ext":
                return ("ext", b[1] + "." + node.attr)
            if b[0] == "mod":
                t = self.mods.get(b[1])
                if t and node.attr in t.names:
                    r = self.resolve(t.names[node.attr])
                    return r
                full = b[1] + "." + node.attr
                if full in self.mods or os.path.isdir(os.path.join(self.repo, *full.split("."))):
                    return ("mod", full)
                return ("missing", b[1], node.attr)
            if b[0] == "class":
                for k in b[1].node.body:
                    if isinstance(k, ast.ClassDef) and k.name == node.attr:
                        return ("class", Cls(b[1].mod, k, b[1].qual + "." + k.name))
                for k in self.mro(b[1])[0]:
                    if node.attr in k.methods:
                        return ("method", k, k.methods[node.attr])
                return None
        return None


def functions(m):
    """(qualified name, class or None, node)"""
    out = []

    def go(body, prefix, cls):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((prefix + s.name, cls, s))
                go(s.body, prefix + s.name + ".", None)
            elif isinstance(s, ast.ClassDef):
                go(s.body, prefix + s.name + ".", s)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                go(s.body, prefix, cls)
                go(getattr(s, "orelse", []), prefix, cls)
    go(m.tree.body, "", None)
    return out


def own(fn):
    """nodes of a function that belong to its own scope (lambdas and comprehensions included, nested functions excluded)"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                break
            todo.append(c)


def locals_of(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name.split(".")[0]) for x in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
    return out


# ---- definite assignment and results ---------------------------------------------------------------------------------------------
class World:
    __slots__ = ("facts", "bound")

    def __init__(self, facts, bound):
        self.facts, self.bound = facts, bound

    def key(self):
        return (tuple(sorted(self.facts.items())), frozenset(self.bound))


def norm(cond):
    """(key, polarity) of an atomic condition"""
    if isinstance(cond, ast.UnaryOp) and isinstance(cond.op, ast.Not):
        k, p = norm(cond.operand)
        return k, not p
    if isinstance(cond, ast.Compare) and len(cond.ops) == 1:
        l, r, o = ast.unparse(cond.left), ast.unparse(cond.comparators[0]), cond.ops[0]
        table = {ast.Eq: ("==", True), ast.NotEq: ("==", False), ast.Is: ("is", True), ast.IsNot: ("is", False), ast.In: ("in", True), ast.NotIn: ("in", False),
                 ast.Lt: ("<", True), ast.GtE: ("<", False), ast.Gt: (">", True), ast.LtE: (">", False)}
        op, pol = table[type(o)]
        if op == ">":
            l, r, op = r, l, "<"
        return "%s %s %s" % (l, op, r), pol
    return ast.unparse(cond), True


class Flow:
    """may an own local be read before it is assigned? (branches correlated by equal conditions; loops entered at least once)"""

    def __init__(self, prog, mod, fn, cls):
        self.prog, self.mod, self.fn = prog, mod, fn
        self.unbound = {}
        self.ends = []           # "value", "none", "fall"
        a = fn.args
        bound = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        self.locals = set()
        glob = set()
        for n in own(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
        comp = set()
        for n in own(fn):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp, ast.Lambda)):
                comp |= {id(x) for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for n in own(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in comp:
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.locals |= {(x.asname or x.name.split(".")[0]) for x in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
        self.locals -= glob
        self.gave_up = False
        live = self.block(fn.body, [World({}, frozenset(bound))], None)
        if live:
            self.ends.append(("fall", fn.body[-1]))

    def dedup(self, ws):
        out, seen = [], set()
        for w in ws:
            k = w.key()
            if k not in seen:
                seen.add(k)
                out.append(w)
        if len(out) > 300:
            self.gave_up = True
            b = frozenset.intersection(*[w.bound for w in out])
            b = frozenset.union(*[w.bound for w in out])
            out = [World({}, b)]
        return out

    def reads(self, node, ws):
        """names an expression reads, in order; comprehension variables excluded"""
        if node is None:
            return ws
        skip = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    skip |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            elif isinstance(n, ast.Lambda):
                skip |= {x.arg for x in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        lam = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Lambda):
                lam |= {id(x) for x in ast.walk(n.body)}
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in skip and id(n) not in lam:
                for w in ws:
                    if n.id not in w.bound:
                        self.unbound.setdefault(n.id, (n.lineno, [k if v else "not (%s)" % k for k, v in w.facts.items()]))
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr):
                ws = self.bind(n.target, ws)
        return ws

    def bind(self, target, ws):
        names = {x.id for x in ast.walk(target) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        text = {ast.unparse(x) for x in ast.walk(target) if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store)}
        out = []
        for w in ws:
            facts = {k: v for k, v in w.facts.items() if not any(t in k for t in text)}
            out.append(World(facts, w.bound | names))
        return out

    def assume(self, cond, ws, value):
        if isinstance(cond, ast.UnaryOp) and isinstance(cond.op, ast.Not):
            return self.assume(cond.operand, ws, not value)
        if isinstance(cond, ast.BoolOp):
            conj = isinstance(cond.op, ast.And) == value
            if conj:
                for c in cond.values:
                    ws = self.assume(c, ws, value)
                return ws
            out, cur = [], ws
            for c in cond.values:
                out += self.assume(c, cur, value)
                cur = self.assume(c, cur, not value)
            return self.dedup(out)
        if isinstance(cond, ast.Constant):
            return ws if bool(cond.value) == value else []
        k, p = norm(cond)
        want = p == value
        out = []
        for w in ws:
            if w.facts.get(k, want) != want:
                continue
            facts = dict(w.facts)
            if " == " in k:
                l, r = k.split(" == ", 1)
                if want and any(v and f.startswith(l + " == ") and f != k and self.const(f.split(" == ", 1)[1]) and self.const(r) for f, v in facts.items()):
                    continue
                facts[k] = want
                if not want and self.exhausted(l, r, facts):
                    continue
            facts[k] = want
            out.append(World(facts, w.bound))
        return out

    def const(self, text):
        return text[:1] in "'\"-0123456789" or "." in text

    def exhausted(self, l, r, facts):
        """every member of an enumeration has been excluded"""
        if "." not in r:
            return False
        try:
            node = ast.parse(r, mode="eval").body
        except SyntaxError:
            return False
        if not isinstance(node, ast.Attribute):
            return False
        base = ast.unparse(node.value)
        c = self.prog.lookup(self.mod, node.value)
        if c and c[0] == "class":
            members = [e for e in c[1].enum if not e.startswith("_")]
        else:
            # self._States style nested enumerations
            members = None
            if isinstance(node.value, ast.Attribute):
                for k in self.prog.classes:
                    for b in k.node.body:
                        if isinstance(b, ast.ClassDef) and b.name == node.value.attr:
                            members = [e for e in Cls(k.mod, b, b.name).enum if not e.startswith("_")]
        if not members:
            return False
        return all(facts.get("%s == %s.%s" % (l, base, e)) is False for e in members)

    def block(self, body, ws, loop):
        for s in body:
            if not ws:
                return ws
            ws = self.dedup(self.stmt(s, ws, loop))
        return ws

    def stmt(self, s, ws, loop):
        if isinstance(s, ast.Assign):
            ws = self.reads(s.value, ws)
            for t in s.targets:
                ws = self.reads(t, ws)
                ws = self.bind(t, ws)
            return ws
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return ws
            ws = self.reads(s.value, ws)
            return self.bind(s.target, self.reads(s.target, ws))
        if isinstance(s, ast.AugAssign):
            ws = self.reads(s.value, ws)
            if isinstance(s.target, ast.Name):
                ws = self.reads(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), ws)
            else:
                ws = self.reads(s.target, ws)
            return self.bind(s.target, ws)
        if isinstance(s, ast.If):
            ws = self.reads(s.test, ws)
            a = self.block(s.body, self.assume(s.test, ws, True), loop)
            b = self.block(s.orelse, self.assume(s.test, ws, False), loop)
            return a + b
        if isinstance(s, (ast.For, ast.AsyncFor)):
            ws = self.reads(s.iter, ws)
            exits = []
            cur = self.bind(s.target, ws)
            tgt = set()
            for n in ast.walk(s):
                if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                    tgt.add(ast.unparse(n))
            cur = self.block(s.body, cur, exits)
            cur = cur + [w for k, w in exits if k == "continue"]
            # facts about variables the loop changes do not survive into later iterations
            cur = [World({k: v for k, v in w.facts.items() if not any(t in k for t in tgt)}, w.bound) for w in cur]
            again = []
            cur2 = self.block(s.body, self.bind(s.target, self.dedup(cur)), again)
            out = cur + cur2 + [w for k, w in again if k == "continue"]
            out = [World({k: v for k, v in w.facts.items() if not any(t in k for t in tgt)}, w.bound) for w in out]
            out = self.block(s.orelse, out, loop)
            return self.dedup(out + [w for k, w in exits + again if k == "break"])
        if isinstance(s, ast.While):
            exits = []
            ws = self.reads(s.test, ws)
            cur = self.block(s.body, self.assume(s.test, ws, True), exits)
            cur = cur + [w for k, w in exits if k == "continue"]
            forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
            after = [World({}, w.bound) for w in cur]
            again = []
            cur2 = self.block(s.body, self.dedup(after), again)
            out = [] if forever else [World({}, w.bound) for w in cur + cur2]
            return self.dedup(out + [w for k, w in exits + again if k == "break"])
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                ws = self.reads(i.context_expr, ws)
                if i.optional_vars is not None:
                    ws = self.bind(i.optional_vars, ws)
            return self.block(s.body, ws, loop)
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            done = self.block(s.body, ws, loop)
            done = self.block(s.orelse, done, loop) if done else done
            for h in s.handlers:
                st = list(ws)
                if h.name:
                    st = [World(w.facts, w.bound | {h.name}) for w in st]
                done = done + self.block(h.body, st, loop)
            return self.block(s.finalbody, self.dedup(done), loop) if s.finalbody and done else done
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.reads(s.value, ws)
            none = s.value is None or (isinstance(s.value, ast.Constant) and s.value.value is None)
            self.ends.append(("none" if none else "value", s))
            return []
        if isinstance(s, ast.Raise):
            self.reads(s.exc, ws)
            return []
        if isinstance(s, ast.Break):
            loop.extend(("break", w) for w in ws)
            return []
        if isinstance(s, ast.Continue):
            loop.extend(("continue", w) for w in ws)
            return []
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return [World(w.facts, w.bound | {s.name}) for w in ws]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            names = {(x.asname or x.name.split(".")[0]) for x in s.names}
            return [World(w.facts, w.bound | names) for w in ws]
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    ws = [World(w.facts, w.bound - {t.id}) for w in ws]
            return ws
        if isinstance(s, ast.Assert):
            ws = self.reads(s.test, ws)
            return self.assume(s.test, ws, True)
        if s.__class__.__name__ == "Match":
            ws = self.reads(s.subject, ws)
            out, wild = [], False
            for c in s.cases:
                names = {x.name for x in ast.walk(c.pattern) if getattr(x, "name", None)}
                st = [World(w.facts, w.bound | names) for w in ws]
                out += self.block(c.body, st, loop)
                wild = wild or (isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None)
            return out + ([] if wild else ws)
        for f in ast.iter_child_nodes(s):
            if isinstance(f, ast.expr):
                ws = self.reads(f, ws)
        return ws


# ---- calls ------------------------------------------------------------------------------------------------------------------------
def sig_of(fn, bound):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    need = pos[:len(pos) - nd] if nd else list(pos)
    if bound and pos:
        first = pos[0]
        pos = pos[1:]
        need = [x for x in need if x != first]
    kwo = [x.arg for x in a.kwonlyargs]
    kwneed = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    posonly = [x.arg for x in a.posonlyargs]
    return {"pos": pos, "need": need, "kwo": kwo, "kwneed": kwneed, "var": a.vararg is not None, "kw": a.kwarg is not None, "posonly": posonly}


def lib_sig(s, drop=False):
    pos = [n for n, k, d in s if k in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD")]
    need = [n for n, k, d in s if k in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD") and not d]
    return {"pos": pos, "need": need, "kwo": [n for n, k, d in s if k == "KEYWORD_ONLY"], "kwneed": [n for n, k, d in s if k == "KEYWORD_ONLY" and not d],
            "var": any(k == "VAR_POSITIONAL" for n, k, d in s), "kw": any(k == "VAR_KEYWORD" for n, k, d in s), "posonly": [n for n, k, d in s if k == "POSITIONAL_ONLY"]}


def fits(call, g):
    """None if the call fits the signature, a reason otherwise"""
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(g["pos"]) and not g["var"]:
        return "takes at most %d positional arguments, %d are given" % (len(g["pos"]), npos)
    given = set(g["pos"][:npos])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given and k.arg not in g["posonly"]:
            return "argument %s is given twice" % k.arg
        if k.arg not in g["pos"] and k.arg not in g["kwo"] and not g["kw"]:
            return "has no argument named %s" % k.arg
        given.add(k.arg)
    if not star and not dstar:
        miss = [x for x in g["need"] + g["kwneed"] if x not in given]
        if miss:
            return "misses argument %s" % ", ".join(miss)
    return None


LABELS = {
    "import": "every imported name exists",
    "name": "every name that is read is defined",
    "module": "every attribute read from a module exists",
    "self": "every attribute an object reads of itself exists in its class",
    "typed": "every attribute read from a value of known class exists",
    "local": "every local variable is assigned before it is read, on every path",
    "result": "a function that returns a value does so on every path",
    "call": "every call fits the signature of what it calls",
    "abstract": "only complete classes are instantiated",
}


class Definedness:
    name = "definedness"
    cost = 5
    independence = False

    def analyse(self, repo, seed):
        t0 = time.time()
        P = Program(repo)
        self.P = P
        self.res = {v: {"held": 0, "violated": 0, "undecided": 0, "vacuous": 0, "n": 0, "how": {}, "viol": [], "und": []} for v in LABELS.values()}
        self.funcs, self.lines = {}, set()
        fatal = []
        if len([m for m in P.mods.values() if m.library]) < 5:
            fatal.append("the packages pyrayt and tinygfx are not there")
        wanted = set()
        calls = []
        for m in P.mods.values():
            calls.append(self.module(m, wanted))
        lib = library(wanted)
        for m, pend in zip(P.mods.values(), calls):
            self.external(m, pend, lib)
        self.fields, self.fam = {}, {}
        for m in P.mods.values():
            self.typed(m, lib)
        for c in P.classes:
            self.klass(c, lib)
        out = {}
        for l, d in self.res.items():
            d["how"] = {"path and reference resolution": d["held"]} if d["held"] else {}
            d["n"] = 0
            out[l] = d
        return {"harness": self.name, "labels": out, "partitions": 0, "infeasible": 0, "errors": fatal, "fatal": bool(fatal), "functions": self.funcs,
                "lines": len(self.lines), "covered": sorted(self.lines), "calls": sum(len(p) for p in calls), "interpretations": 0, "unks": [], "skipped": 0, "wall": time.time() - t0}

    def ok(self, rule):
        self.res[LABELS[rule]]["held"] += 1

    def bad(self, rule, m, line, fn, why):
        d = self.res[LABELS[rule]]
        d["violated"] += 1
        d["viol"].append({"why": why, "sites": ["%s:%d:%s" % (m.rel, line, fn)], "n": 1, "path": []})

    # -- one module
    def module(self, m, wanted):
        P = self.P
        pend = []
        # imports
        for src, name, node in m.froms:
            if name == "*":
                continue
            r = P.resolve(("from", src, name))
            if r[0] == "missing":
                self.bad("import", m, node.lineno, "module", "%s has no name %s" % (r[1], r[2]))
            elif r[0] == "ext":
                wanted.add(r[1])
                pend.append(("import", r[1], node, "module"))
            else:
                self.ok("import")
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if P.ref(a.name)[0] == "ext":
                        root = a.name.split(".")[0]
                        if root in P.mods or os.path.isdir(os.path.join(P.repo, root)):
                            self.bad("import", m, n.lineno, "module", "there is no module %s" % a.name)
                        else:
                            wanted.add(a.name)
                            pend.append(("import", a.name, n, "module"))
                    else:
                        self.ok("import")
        # names
        have = set(m.names) | set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__class__"}
        ext_star = [s for s in m.stars if s not in P.mods]
        gl = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                gl |= set(n.names)
        have |= gl
        where = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                where.setdefault(n.id, n.lineno)

        def scopes(t):
            for s in t.get_symbols():
                if s.is_referenced() and (s.is_global() or t.get_type() == "module"):
                    if t.get_type() == "module" and s.is_local() and s.get_name() in have:
                        self.ok("name")
                        continue
                    if s.get_name() in have or ext_star:
                        self.ok("name")
                    else:
                        self.bad("name", m, where.get(s.get_name(), t.get_lineno()), t.get_name(), "name %s is not defined" % s.get_name())
            for c in t.get_children():
                scopes(c)
        scopes(symtable.symtable(m.src, m.rel, "exec"))
        # attribute chains and calls
        loaded = P.closure(m.name)
        fns = functions(m)
        owner = {}
        for q, cls, fn in fns:
            for n in ast.walk(fn):
                owner[id(n)] = (q, fn)
        inner = {id(n.value) for n in ast.walk(m.tree) if isinstance(n, ast.Attribute)}
        loc = {id(fn): locals_of(fn) for q, c, fn in fns}
        for n in ast.walk(m.tree):
            q, fn = owner.get(id(n), ("module", None))
            local = loc.get(id(fn), set()) if fn is not None else set()
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) not in inner:
                # prefixes of the chain
                chain = []
                x = n
                while isinstance(x, ast.Attribute):
                    chain.append(x)
                    x = x.value
                if isinstance(x, ast.Name):
                    self.chain(m, chain[::-1], local, q, wanted, pend, loaded)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) in inner and not isinstance(n.value, (ast.Name, ast.Attribute)):
                pass
            if isinstance(n, ast.Call):
                self.call(m, n, local, q, fn, wanted, pend)
        # flow
        for q, cls, fn in fns:
            self.funcs["%s:%s" % (m.rel, q)] = 1
            for n in ast.walk(fn):
                if hasattr(n, "lineno"):
                    self.lines.add((m.rel, n.lineno))
            try:
                f = Flow(P, m, fn, cls)
            except RecursionError:
                self.res[LABELS["local"]]["undecided"] += 1
                continue
            if f.gave_up:
                self.res[LABELS["local"]]["undecided"] += 1
                self.res[LABELS["local"]]["und"].append("too many paths in %s:%s" % (m.rel, q))
                continue
            if f.unbound:
                for name, (line, facts) in sorted(f.unbound.items()):
                    self.bad("local", m, line, q, "local %s may be read before it is assigned%s" % (name, " when " + " and ".join(facts) if facts else ""))
            else:
                self.ok("local")
            gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))
            kinds = {k for k, s in f.ends}
            if "value" in kinds and not gen and not (fn.name.startswith("__") and fn.name != "__new__") and self.valued(fn):
                if "fall" in kinds or any(k == "none" and s.value is None for k, s in f.ends):
                    at = [s for k, s in f.ends if k in ("fall", "none")][0]
                    self.bad("result", m, at.lineno, q, "%s returns a value on some paths and nothing on others" % q)
                else:
                    self.ok("result")
        return pend

    def constructed(self, c):
        if not hasattr(self, "called"):
            self.called = set()
            for m in self.P.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call):
                        self.called.add(n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None))
        return c.name in self.called

    def valued(self, fn):
        """does anybody rely on the value: documented, or referred to anywhere in the program"""
        if ":return" in (ast.get_docstring(fn) or ""):
            return True
        for m in self.P.mods.values():
            if m.used is None:
                m.used = {n.attr for n in ast.walk(m.tree) if isinstance(n, ast.Attribute)} | {n.id for n in ast.walk(m.tree) if isinstance(n, ast.Name)}
            if fn.name in m.used:
                return True
        return False

    def chain(self, m, chain, local, q, wanted, pend, loaded):
        P = self.P
        for a in chain:
            b = P.lookup(m, a.value, local)
            if not b:
                return
            if b[0] == "mod":
                r = P.lookup(m, a, local)
                if r and r[0] == "missing":
                    self.bad("module", m, a.lineno, q, "module %s has no attribute %s" % (r[1], r[2]))
                    return
                t = P.mods.get(b[1])
                if r and r[0] == "mod" and not (t and a.attr in t.names) and r[1] not in loaded:
                    self.bad("module", m, a.lineno, q, "module %s is never imported" % r[1])
                    return
                self.ok("module")
            elif b[0] == "ext":
                path = b[1] + "." + a.attr
                wanted.add(path)
                pend.append(("attr", path, a, q))
            else:
                if b[0] == "class":
                    order, ext = P.mro(b[1])
                    if not ext or all(e and e.startswith("builtins.object") for e in ext):
                        if any(a.attr in k.attrs for k in order) or a.attr.startswith("__"):
                            self.ok("typed")
                        else:
                            self.bad("typed", m, a.lineno, q, "class %s has no attribute %s" % (b[1].name, a.attr))
                return

    def ctor(self, c):
        """signature of a constructor; None if unknown"""
        order, ext = self.P.mro(c)
        for k in order:
            if "__init__" in k.methods:
                return sig_of(k.methods["__init__"], True)
            if k.dataclass:
                f = []
                for b in order[::-1]:
                    for n, d in b.fields:
                        f = [x for x in f if x[0] != n] + [(n, d)]
                return {"pos": [n for n, d in f], "need": [n for n, d in f if not d], "kwo": [], "kwneed": [], "var": False, "kw": False, "posonly": []}
            if "__new__" in k.methods:
                return None
        if not ext or all(e == "builtins.object" for e in ext):
            return {"pos": [], "need": [], "kwo": [], "kwneed": [], "var": False, "kw": False, "posonly": []}
        return None

    def missing_abstract(self, c):
        order, ext = self.P.mro(c)
        out = []
        names = set()
        for k in order:
            names |= set(k.methods)
        for n in names:
            for k in order:
                if n in k.attrs:
                    f = k.methods.get(n)
                    if f is not None and any("abstractmethod" in ast.dump(d) for d in f.decorator_list):
                        out.append(n)
                    break
        return out

    def is_abc(self, c):
        order, ext = self.P.mro(c)
        return any(e and e.startswith("abc.") for e in ext) or any(k.arg == "metaclass" for o in order for k in o.node.keywords)

    def call(self, m, n, local, q, fn, wanted, pend):
        P = self.P
        f = n.func
        r = None
        if isinstance(f, (ast.Name, ast.Attribute)):
            r = P.lookup(m, f, local)
        if r and r[0] == "ext":
            wanted.add(r[1])
            pend.append(("call", r[1], n, q))
            return
        if r and r[0] == "class":
            c = r[1]
            if any(e and "enum" in e.lower() for e in P.mro(c)[1]):
                return
            if self.is_abc(c):
                miss = self.missing_abstract(c)
                if miss:
                    self.bad("abstract", m, n.lineno, q, "%s is instantiated but does not implement %s" % (c.name, ", ".join(sorted(miss))))
                else:
                    self.ok("abstract")
            g = self.ctor(c)
            if g:
                why = fits(n, g)
                self.bad("call", m, n.lineno, q, "%s(...) %s" % (c.name, why)) if why else self.ok("call")
            return
        if r and r[0] == "def":
            if r[1].decorator_list:
                g = self.decorated(r[1], r[2])
            else:
                g = sig_of(r[1], False)
            if g:
                why = fits(n, g)
                self.bad("call", m, n.lineno, q, "%s(...) %s" % (r[1].name, why)) if why else self.ok("call")
            return
        if isinstance(f, ast.Name) and fn is not None and f.id in local:
            # nested function of this scope, bound once
            ds = [x for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x.name == f.id]
            st = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == f.id and isinstance(x.ctx, ast.Store)]
            if len(ds) == 1 and not st and not ds[0].decorator_list:
                why = fits(n, sig_of(ds[0], False))
                self.bad("call", m, n.lineno, q, "%s(...) %s" % (f.id, why)) if why else self.ok("call")

    def decorated(self, fn, m):
        """a decorated function can be called with what its wrapper passes on; unknown decorators are not judged"""
        wraps = []
        for d in fn.decorator_list:
            r = self.P.lookup(m, d)
            if not r or r[0] != "def":
                return None
            inner = [x for x in r[1].body if isinstance(x, ast.FunctionDef)]
            if len(inner) != 1:
                return None
            g = sig_of(inner[0], False)
            if not (g["var"] and g["kw"]):
                return None
            wraps.append(inner[0])
        g = sig_of(fn, False)
        # keyword arguments with defaults the wrapper fills in are not needed
        for w in wraps:
            filled = {x.value for x in ast.walk(w) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
            g["need"] = [x for x in g["need"] if x not in filled]
            g["kwneed"] = [x for x in g["kwneed"] if x not in filled]
            g["kw"] = g["kw"]
        return g

    def external(self, m, pend, lib):
        for kind, path, node, q in pend:
            d = lib.get(path)
            if d is None:
                continue
            if "missing" in d:
                # an attribute of a run-time value of the library is not judged
                o = lib.get(d["of"])
                if o is None and d["of"].count("."):
                    o = {"kind": "module"}
                if kind == "call":
                    continue
                if o and o.get("kind") not in (None, "module", "class"):
                    continue
                self.bad("import" if kind == "import" else "module", m, node.lineno, q, "%s has no attribute %s" % (d["of"], d["missing"]))
                continue
            if kind == "import":
                self.ok("import")
            elif kind == "attr":
                self.ok("module")
            elif kind == "call":
                if "ufunc" in d:
                    npos = len(node.args)
                    if npos < d["ufunc"][0] and not any(isinstance(x, ast.Starred) for x in node.args):
                        self.bad("call", m, node.lineno, q, "%s takes %d operands, %d are given" % (path, d["ufunc"][0], npos))
                    elif npos > d["ufunc"][0] + d["ufunc"][1]:
                        self.bad("call", m, node.lineno, q, "%s takes %d operands, %d are given" % (path, d["ufunc"][0], npos))
                    else:
                        self.ok("call")
                elif "sig" in d and d["kind"] == "callable":
                    why = fits(node, lib_sig(d["sig"]))
                    self.bad("call", m, node.lineno, q, "%s %s" % (path, why)) if why else self.ok("call")

    # -- values of known class
    def returns_self(self, c, name, depth=0):
        for k in self.P.mro(c)[0]:
            f = k.methods.get(name)
            if f is None:
                continue
            rs = [n for n in own(f) if isinstance(n, ast.Return)]
            if not rs or not f.args.args or depth > 4:
                return False
            me = f.args.args[0].arg
            for r in rs:
                v = r.value
                if isinstance(v, ast.Name) and v.id == me:
                    continue
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == me and self.returns_self(c, v.func.attr, depth + 1):
                    continue
                return False
            return True
        return False

    def annotated(self, m, a):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(a, (ast.Name, ast.Attribute)):
            r = self.P.lookup(m, a)
            if r and r[0] == "class":
                return r[1]
        return None

    def typeof(self, m, n, env, local):
        if isinstance(n, ast.Name):
            return env.get(n.id)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in env and env.get(n.value.id) is not None:
            return self.field_type(env[n.value.id], n.attr)
        if isinstance(n, ast.Call):
            f = n.func
            r = self.P.lookup(m, f, local) if isinstance(f, (ast.Name, ast.Attribute)) else None
            if r and r[0] == "class":
                return r[1]
            if r and r[0] == "def" and r[1].returns is not None:
                return self.annotated(r[2], r[1].returns)
            if isinstance(f, ast.Attribute) and not r:
                c = self.typeof(m, f.value, env, local)
                if c is not None and self.returns_self(c, f.attr):
                    return c
        return None

    def field_type(self, c, attr):
        """class of an attribute that is only ever assigned instances of one class"""
        key = (c.qual, attr)
        if key in self.fields:
            return self.fields[key]
        self.fields[key] = None
        found = set()
        for k in self.P.mro(c)[0]:
            if attr in k.attrs:
                return None
            for f in k.methods.values():
                if not f.args.args:
                    continue
                me = f.args.args[0].arg
                for s in ast.walk(f):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AnnAssign, ast.AugAssign)) else []
                    for t in ts:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.value, ast.Name) and x.value.id == me:
                                v = s.value if x is t else None
                                if isinstance(v, ast.Constant) and v.value is None:
                                    continue
                                r = self.P.lookup(k.mod, v.func, locals_of(f)) if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) else None
                                found.add(r[1] if r and r[0] == "class" else None)
        if len({x.qual if x else None for x in found}) == 1:
            self.fields[key] = found.pop()
        return self.fields[key]

    def family(self, c, lib):
        """attributes an instance of the class or of one of its subclasses can have (None: unknown)"""
        key = c.qual
        if key in self.fam:
            return self.fam[key]
        out = set(dir(object)) | {"__dict__"}
        for k in self.P.classes:
            o, ext = self.P.mro(k)
            if not any(x.qual == c.qual for x in o):
                continue
            for x in o:
                out |= self.assigned(x)
                if "__getattr__" in x.attrs:
                    out = None
                    break
            for e in ext:
                if e is None or out is None or "enum" in e.lower():
                    out = None
                    break
                if e.startswith("builtins."):
                    out |= set(dir(getattr(builtins, e[9:], object)))
                else:
                    d = lib.get(e) or library({e}).get(e)
                    if not d or "attrs" not in d:
                        out = None
                        break
                    out |= set(d["attrs"])
            if out is None:
                break
        # attributes written from outside
        if out is not None:
            for m in self.P.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
        self.fam[key] = out
        return out

    def typed(self, m, lib):
        P = self.P
        scopes = [("module", None, None, m.tree.body)] + [(q, cls, fn, fn.body) for q, cls, fn in functions(m)]
        for q, cls, fn, body in scopes:
            holder = fn if fn is not None else ast.Module(body=[s for s in body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))], type_ignores=[])
            nodes = list(own(holder))
            local = locals_of(fn) if fn is not None else set()
            env, cand = {}, {}
            if fn is not None:
                for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs:
                    c = self.annotated(m, a.annotation) if a.annotation is not None else None
                    cand.setdefault(a.arg, []).append(c)
                if cls is not None and fn.args.args and not any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in fn.decorator_list):
                    k = [k for k in P.classes if k.node is cls]
                    if k:
                        cand[fn.args.args[0].arg] = [("self", k[0])]
            for _ in range(3):
                cur = {k: list(v) for k, v in cand.items()}
                for s in nodes:
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                cur.setdefault(t.id, []).append(self.typeof(m, s.value, env, local))
                            else:
                                for x in ast.walk(t):
                                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                        cur.setdefault(x.id, []).append(None)
                    elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                        if not any(isinstance(a, ast.Assign) and any(s is t for t in a.targets) for a in nodes):
                            cur.setdefault(s.id, []).append(None)
                env = {}
                for k, v in cur.items():
                    v2 = [x[1] if isinstance(x, tuple) else x for x in v]
                    if v2 and all(x is not None and x.qual == v2[0].qual for x in v2):
                        env[k] = v2[0]
            me = {k for k, v in cand.items() if v and isinstance(v[0], tuple)}
            for n in nodes:
                if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                    continue
                if isinstance(n.value, ast.Name) and n.value.id in me:
                    continue
                c = self.typeof(m, n.value, env, local)
                if c is None:
                    continue
                fam = self.family(c, lib)
                if fam is None:
                    continue
                guarded = fn is not None and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr", "isinstance") for x in nodes)
                if n.attr in fam or guarded:
                    self.ok("typed")
                else:
                    self.bad("typed", m, n.lineno, q, "an object of class %s has no attribute %s" % (c.name, n.attr))
            for n in nodes:
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    if isinstance(n.func.value, ast.Name) and n.func.value.id in me:
                        continue
                    c = self.typeof(m, n.func.value, env, local)
                    if c is None:
                        continue
                    sigs = []
                    for k in P.classes:
                        o, ext = P.mro(k)
                        if any(x.qual == c.qual for x in o):
                            for x in o:
                                if n.func.attr in x.methods:
                                    f = x.methods[n.func.attr]
                                    if [d for d in f.decorator_list if "abstractmethod" not in ast.dump(d)]:
                                        sigs.append(None)
                                    else:
                                        sigs.append(sig_of(f, self.unbound(f)))
                                    break
                    if sigs and all(g is not None for g in sigs):
                        why = [fits(n, g) for g in sigs]
                        if all(why):
                            self.bad("call", m, n.lineno, q, "%s(...) of %s %s" % (n.func.attr, c.name, why[0]))
                        else:
                            self.ok("call")

    # -- attributes of objects
    def assigned(self, c):
        out = set(c.attrs)
        for f in c.methods.values():
            if not f.args.args:
                continue
            me = f.args.args[0].arg
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    out.add(n.attr)
        if c.dataclass:
            out |= {n for n, d in c.fields}
        return out

    def klass(self, c, lib):
        P = self.P
        order, ext = P.mro(c)
        if any(e is None for e in ext):
            return
        have = set(dir(object)) | {"__dict__", "__class__"}
        for k in order:
            have |= self.assigned(k)
            for b in k.node.body:
                if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                    pass
        for e in set(ext):
            if e.startswith("builtins."):
                have |= set(dir(getattr(builtins, e[9:], object)))
            else:
                d = lib.get(e)
                if d is None:
                    d = library({e}).get(e)
                if not d or "attrs" not in d:
                    return
                have |= set(d["attrs"])
                if e == "collections.UserList":
                    have.add("data")
                if e.endswith("ndarray"):
                    pass
        if any("enum" in e.lower() for e in ext):
            return
        abstract = self.missing_abstract(c) if self.is_abc(c) else []
        subs = set()
        if abstract or self.is_mixin(c) or not self.constructed(c):
            # (a class nobody constructs may leave a step to the classes derived from it; each of those is looked at itself)
            for k in P.classes:
                o, _ = P.mro(k)
                if c in o and k is not c:
                    for x in o:
                        subs |= self.assigned(x)
        for k in order:
            for name, f in k.methods.items():
                if not f.args.args or any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list):
                    continue
                me = f.args.args[0].arg
                cm = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in f.decorator_list)
                if cm or name == "__new__":
                    continue
                guarded = {x.args[1].value for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr", "setattr")
                           and len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}
                rebound = any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) for x in ast.walk(f))
                if rebound:
                    continue
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
                        if n.attr in have or n.attr in subs or n.attr in guarded or "__getattr__" in have:
                            self.ok("self")
                        else:
                            self.bad("self", k.mod, n.lineno, "%s.%s" % (c.name, name), "an object of class %s has no attribute %s" % (c.name, n.attr))
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                        self.selfcall(c, order, k, name, n)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super" and k is c:
                        self.supercall(c, order, ext, name, n, lib)

    def is_mixin(self, c):
        return False

    def unbound(self, f):
        return not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list)

    def selfcall(self, c, order, k, name, n):
        for b in order:
            if n.func.attr in b.methods:
                f = b.methods[n.func.attr]
                if any(not (isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod")) and "abstractmethod" not in ast.dump(d) for d in f.decorator_list):
                    return
                why = fits(n, sig_of(f, self.unbound(f)))
                if why:
                    self.bad("call", k.mod, n.lineno, "%s.%s" % (c.name, name), "%s(...) of %s %s" % (n.func.attr, c.name, why))
                else:
                    self.ok("call")
                return
            if n.func.attr in self.assigned(b):
                return

    def supercall(self, c, order, ext, name, n, lib):
        if n.func.value.args:
            return
        for b in order[1:]:
            if n.func.attr in b.methods:
                f = b.methods[n.func.attr]
                why = fits(n, sig_of(f, self.unbound(f)))
                if why:
                    self.bad("call", c.mod, n.lineno, "%s.%s" % (c.name, name), "super().%s(...) %s" % (n.func.attr, why))
                else:
                    self.ok("call")
                return
        have = set(dir(object))
        for e in ext:
            if e.startswith("builtins."):
                have |= set(dir(getattr(builtins, e[9:], object)))
            else:
                have |= set((lib.get(e) or {}).get("attrs") or [n.func.attr])
        if not ext or n.func.attr in have:
            if n.func.attr in have:
                self.ok("self")
                return
        if n.func.attr not in have:
            self.bad("self", c.mod, n.lineno, "%s.%s" % (c.name, name), "no base class of %s has a method %s" % (c.name, n.func.attr))


if __name__ == "__main__":
    r = Definedness().analyse(sys.argv[1] if len(sys.argv) > 1 else "/repo", 1)
    for l, d in r["labels"].items():
        print(l, {k: d[k] for k in ("held", "violated", "undecided")})
        for v in d["viol"]:
            print("   ", v["why"], v["sites"])
    print(r["wall"], len(r["functions"]))
