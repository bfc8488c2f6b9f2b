"""P28: every module can be imported on its own, and import helpers bring in exactly what modules export"""
import contextlib
import importlib
import os
import subprocess
import sys
import textwrap
import warnings

from hypothesis import strategies as st

from harness import Property, check, eq, raises, scratch_dir, in_child, Violation

import satella
from satella.imports import import_class, import_from

prop = Property('P28')

ROOT = os.path.dirname(satella.__file__)
MODULES = sorted(os.path.relpath(os.path.join(d, f), os.path.dirname(ROOT))[:-3].replace('/__init__', '').replace('/', '.')
                 for d, _, fs in os.walk(ROOT) for f in fs if f.endswith('.py'))

PROGRAM = '''
import sys, importlib, warnings
warnings.simplefilter('ignore')
for name in %r:
    m = importlib.import_module(name)
    for item in getattr(m, '__all__', []):
        if not hasattr(m, item):
            raise AttributeError('%%s lacks %%s, which is in its __all__' %% (name, item))
'''


def fresh(names):
    p = subprocess.run([sys.executable, '-c', PROGRAM % (names,)], env=dict(os.environ, PYTHONPATH=os.path.dirname(ROOT)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    check(not p.returncode, 'importing %s in a new interpreter failed: %s', ', '.join(names), p.stdout.decode()[-400:])


@prop.facet(st.lists(st.sampled_from(MODULES), min_size=1, max_size=4, unique=True), 'two modules were imported', quick=40, thorough=1500, shrink=True)
def orders(names):
    """Any sequence of imports in a new interpreter"""
    fresh(names)
    return len(names) > 1


@prop.facet(st.just(0), 'always', quick=1, thorough=1, hang_s=400)
def every(case):
    """Each module on its own"""
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(6) as pool:
        for _ in pool.map(lambda m: fresh([m]), MODULES):
            pass
    return True


NAMES = ['alpha', 'beta', 'json', 'email', 'logging', '_private', 'http']
ITEMS = ['One', 'two', '_three', 'four']


@st.composite
def tree(draw, depth):
    """name -> (kind, names defined, names in __all__ or None, modules within)"""
    entries = {}
    for name in draw(st.lists(st.sampled_from(NAMES), max_size=3, unique=True)):
        kind = draw(st.sampled_from(['module', 'package', 'package'])) if depth else 'module'
        defined = draw(st.lists(st.sampled_from(ITEMS), max_size=4, unique=True))
        sub = draw(tree(depth - 1)) if kind == 'package' else {}
        all_ = None
        if draw(st.integers(0, 3)):
            all_ = draw(st.lists(st.sampled_from(defined + sorted(sub)), max_size=3, unique=True)) if defined or sub else []
            if not draw(st.integers(0, 9)):
                all_.append('missing')
        entries[name] = (kind, defined, all_, sub)
    return entries


def write(path, entries):
    for name, (kind, defined, all_, sub) in entries.items():
        lines = ['%s = %r' % (n, path + '/' + name + ':' + n) for n in defined]
        if all_ is not None:
            lines.append('__all__ = %r' % (all_,))
        if kind == 'package':
            os.mkdir(os.path.join(path, name))
            write(os.path.join(path, name), sub)
            f = os.path.join(path, name, '__init__.py')
        else:
            f = os.path.join(path, name + '.py')
        with open(f, 'w') as out:
            out.write('\n'.join(lines) + '\n')


class Missing(Exception):
    pass


def model(path, entries, all_, names, opts):
    """Names imported and appended to __all__; values are told by where they were defined"""
    for name in sorted(entries):
        kind, defined, mod_all, sub = entries[name]
        if name.startswith('_') and opts['skip_single_underscores']:
            continue
        if mod_all is None and opts['skip_not_having_all']:
            continue
        if kind == 'package':
            if not opts['recursive']:
                continue
            inner = set(mod_all or [])
            scope = {n: path + '/' + name + ':' + n for n in defined}
            if mod_all is not None or opts['create_all']:
                scope['__all__'] = inner
            model(path + '/' + name, sub, inner, scope, opts)
            names[name] = scope
            all_.add(name)
        else:
            for item in (mod_all if mod_all is not None else defined):
                if item.startswith('_') and opts['skip_single_underscores']:
                    continue
                if item in defined:
                    names[item] = path + '/' + name + ':' + item
                    all_.add(item)
                elif opts['fail_on_attributerror']:
                    raise Missing()


def compare(got, want, what):
    for k, v in want.items():
        check(k in got, '%s: %s was not imported', what, k)
        if isinstance(v, dict):
            check(hasattr(got[k], '__path__'), '%s: %s is %r', what, k, got[k])
            check('__all__' in v or not hasattr(got[k], '__all__'), '%s: an __all__ was created in %s', what, k)
            compare(got[k].__dict__, v, what + '.' + k)
        elif k == '__all__':
            l = [x for x in got[k] if not x.startswith('__')]
            eq(set(l), v, '__all__ of %s' % what)
            eq(len(l), len(set(l)), 'number of items in __all__ of %s' % what)
        else:
            eq(got[k], v, '%s: %s' % (what, k))


opts_s = st.fixed_dictionaries({}, optional={n: st.booleans() for n in ('recursive', 'fail_on_attributerror', 'create_all', 'skip_single_underscores', 'skip_not_having_all')})
DEFAULTS = {'recursive': True, 'fail_on_attributerror': True, 'create_all': True, 'skip_single_underscores': True, 'skip_not_having_all': False}


@prop.facet(st.tuples(tree(2), opts_s, st.booleans()), 'a package was imported', quick=600)
def importing(case):
    """import_from"""
    entries, opts, from_init = case
    full = dict(DEFAULTS, **opts)

    def run():
        with scratch_dir() as root:
            top = os.path.join(root, 'vf_top')
            os.mkdir(top)
            write(top, entries)
            sys.path.insert(0, root)
            want_all, want = set(), {}
            try:
                model(top, entries, want_all, want, full)
            except Missing:
                want = None
            with open(os.path.join(top, '__init__.py'), 'w') as f:
                if from_init:
                    f.write('from satella.imports import import_from\n__all__ = []\nimport_from(__path__, __name__, __all__, locals(), **%r)\n' % (opts,))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                importlib.invalidate_caches()
                try:
                    m = importlib.import_module('vf_top')
                    if from_init:
                        got_all, got = m.__all__, m.__dict__
                    else:
                        got_all, got = [], {}
                        import_from(m.__path__, 'vf_top', got_all, got, **opts)
                except AttributeError:
                    check(want is None, 'failed upon a missing attribute')
                    return False
                check(want is not None, 'a missing attribute was ignored')
            got_all = [n for n in got_all if not n.startswith('__')]    # these dir() enumerates in modules without __all__
            eq(set(got_all), want_all, '__all__')
            eq(len(got_all), len(set(got_all)), 'items in __all__')
            compare(got, want, 'vf_top')
            if not from_init:
                eq({n for n in got if not n.startswith('__')}, set(want), 'names imported')
        return any(isinstance(v, dict) for v in want.values())
    return in_child(run)


@prop.facet(st.sampled_from([('subprocess.Popen', 'ok'), ('os.path.join', 'ok'), ('collections.OrderedDict', 'ok'), ('concurrent.futures.Future', 'ok'), ('subprocess.Nothing', 'missing'),
                             ('nothing.At.All', 'missing'), ('satella.coding.structures.Heap', 'ok'), ('os.nothing.X', 'missing')]), 'always', quick=16)
def classes(case):
    """import_class"""
    path, outcome = case
    if outcome == 'missing':
        raises(ImportError, import_class, path)
    else:
        mod, name = path.rsplit('.', 1)
        check(import_class(path) is getattr(sys.modules[mod], name), 'import_class(%r)', path)
    return True
