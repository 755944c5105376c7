"""The property registry: which harness cases decide each property, and their bounds."""
import importlib
import os
import sys

CASEDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'cases')


def get(prop):
    ns = {}
    p = os.path.join(CASEDIR, prop + '.py')
    with open(p) as f:
        exec(compile(f.read(), p, 'exec'), ns)
    P = ns['P']
    P.setdefault('module', 'harness.' + prop)
    return P
