"""Engine validation (not a check): the repository's own unit tests are *interpreted abstractly* and every assertion must
come out 'true' - a disagreement means that a transfer function of the engine is wrong.  Nothing of /repo is executed."""
import ast
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import analysis, interp as ip, terms as tm, arrays as ar  # noqa
from sa.arrays import PyRaise, Unsupported  # noqa

STUB = '''
class SkipTest(Exception):
    pass
class _Raises:
    def __init__(self, exc): self.exc = exc
    def __enter__(self): return self
    def __exit__(self, et, ev, tb):
        if et is None: raise AssertionError("not raised")
        return True
class TestCase:
    def setUp(self): pass
    def tearDown(self): pass
    def assertTrue(self, x, msg=None):
        if not x: raise AssertionError("not true")
    def assertFalse(self, x, msg=None):
        if x: raise AssertionError("not false")
    def assertEqual(self, a, b, msg=None):
        if not (a == b): raise AssertionError("not equal")
    def assertNotEqual(self, a, b, msg=None):
        if a == b: raise AssertionError("equal")
    def assertAlmostEqual(self, a, b, places=7, msg=None, delta=None):
        if a == b: return
        if delta is not None:
            ok = abs(a-b) <= delta
        else:
            ok = abs(a-b) < 0.5*10**(-places)
        if not ok: raise AssertionError("not almost equal")
    def assertRaises(self, exc, f=None, *a, **k):
        if f is None:
            return _Raises(exc)
        try:
            f(*a, **k)
        except exc:
            return
        raise AssertionError("not raised")
def main(): pass
'''
MOCK = '''
class MagicMock:
    def __init__(self, *a, **k): pass
def patch(*a, **k): raise NotImplementedError("mock")
'''


def main(repo="/repo"):
    ok = bad = und = 0
    only = sys.argv[1] if len(sys.argv) > 1 else ""
    for root, _, files in sorted(os.walk(os.path.join(repo, "test"))):
        for f in sorted(files):
            if not f.endswith(".py") or not f.startswith(("test_", "int_test")):
                continue
            rel = os.path.relpath(os.path.join(root, f), repo)
            mod = rel[:-3].replace("/", ".")
            tree = ast.parse(open(os.path.join(repo, rel)).read())
            cases = []
            classes = {n.name: n for n in tree.body if isinstance(n, ast.ClassDef)}

            def methods(c):
                out = []
                for b in c.bases:
                    if isinstance(b, ast.Name) and b.id in classes:
                        out += methods(classes[b.id])
                for n in c.body:
                    if isinstance(n, ast.FunctionDef) and n.name.startswith("test") and n.name not in out:
                        out.append(n.name)
                return out
            for c in classes.values():
                cases += [(c.name, m) for m in methods(c)]
            for cn, mn in cases:
                name = "%s:%s.%s" % (rel, cn, mn)
                if only and only not in name:
                    continue
                src = "import %s as m\ndef main():\n    t=m.%s()\n    t.setUp()\n    t.%s()\n    t.tearDown()\n" % (mod, cn, mn)
                h = analysis.Harness("t", src, groups=4, sizes=(1,))
                ex = analysis.Explorer(h, repo, verbose=bool(only))
                orig = analysis.Run.install

                def install(self, orig=orig):
                    orig(self)
                    self.it.add_source("unittest", STUB)
                    self.it.add_source("unittest.mock", MOCK)
                analysis.Run.install = install
                try:
                    r = ex.go()
                finally:
                    analysis.Run.install = orig
                L = r["labels"].get("completes", {})
                if r["errors"] or L.get("violated"):
                    bad += 1
                    print("BAD ", name, r["errors"][:1], [(v["why"], v["sites"]) for v in L.get("viol", [])][:1])
                elif L.get("undecided") or r["partitions"] != 1:
                    und += 1
                    print("UND ", name, L.get("und"), r["partitions"], r["unks"])
                else:
                    ok += 1
    print("agree %d, disagree %d, undecided %d" % (ok, bad, und))


main()
