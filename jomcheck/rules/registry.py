"""Property id -> rule function."""
import importlib
import os

CHECKS = {}
TITLES = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def _load():
    d = os.path.dirname(os.path.abspath(__file__))
    for n in sorted(os.listdir(d)):
        if n.endswith('.py') and n not in ('__init__.py', 'registry.py', 'common.py'):
            importlib.import_module('jomcheck.rules.' + n[:-3])


def run(pid, prog, rep):
    CHECKS[pid](prog, rep)


_load()
