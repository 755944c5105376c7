"""Loads the code under test (and the harnesses) through the instrumenter, fresh
for every explored path; compiled code objects are cached per process."""
import builtins
import importlib.abc
import importlib.machinery
import os
import sys

from . import instrument, runtime, stubs

REPO = os.environ.get('NSYM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FUNCS = {}          # file -> [(qualname, line)]
_code = {}
_paths = {}
COVER = set()       # (file, first line) of code objects that ran symbolically


def find(name):
    if name in _paths:
        return _paths[name]
    top = name.split('.')[0]
    if top == 'neocore':
        base = REPO
    elif top == 'harness':
        base = VERIF
    else:
        return None
    p = os.path.join(base, *name.split('.'))
    r = None
    if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
        r = (os.path.join(p, '__init__.py'), True)
    elif os.path.exists(p + '.py'):
        r = (p + '.py', False)
    elif os.path.isdir(p):
        r = (None, True)
    _paths[name] = r
    return r


def code_for(path):
    if path not in _code:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        c, fn = instrument.compile_instrumented(src, path)
        _code[path] = c
        FUNCS[path] = fn
    return _code[path]


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        d = module.__dict__
        d['_nsym_'] = runtime.RT
        d['_nsym_slice'] = slice
        if self.path is not None:
            exec(code_for(self.path), d)


class StubLoader(importlib.abc.Loader):
    def __init__(self, m):
        self.m = m

    def create_module(self, spec):
        return self.m

    def exec_module(self, module):
        pass


_group = {}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        top = name.split('.')[0]
        if top in stubs.NAMES:
            if top not in _group:
                _group[top] = stubs.make_stub(top, builtins)
            m = _group[top].get(name)
            if m is None:
                return None
            return importlib.machinery.ModuleSpec(name, StubLoader(m), origin='stub', is_package=hasattr(m, '__path__'))
        r = find(name)
        if r is None:
            return None
        p, pkg = r
        spec = importlib.machinery.ModuleSpec(name, Loader(p), origin=p, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = []
        return spec


_finder = Finder()


def reset():
    """a fresh copy of every module of the code under test and of its libraries"""
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
    for n in list(sys.modules):
        top = n.split('.')[0]
        if top in ('neocore', 'harness') or top in stubs.NAMES:
            del sys.modules[n]
    _group.clear()


def setup():
    sys.dont_write_bytecode = True
    stubs.load_real()
    for n in ('_nsym_', '_nsym_slice'):
        setattr(builtins, n, runtime.RT if n == '_nsym_' else slice)
