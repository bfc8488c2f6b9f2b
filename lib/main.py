"""
Driver.  Runs every facet of a property in its own worker process (so that a hang in the code under
test is a finding and not a stuck check), with Hypothesis as generator and shrinker.

exit 0: held on everything explored; exit 1 + VIOLATION line: violated; exit 2: harness error
"""
import base64
import faulthandler
import glob
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(LIB)
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
sys.path.insert(0, REPO)
sys.path.insert(1, LIB)
sys.path.insert(2, os.path.join(ROOT, 'checks'))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)

_monotonic = time.monotonic
_sleep = time.sleep

from harness import Violation, HarnessError, Trivial  # noqa


def find_module(pid):
    files = glob.glob(os.path.join(ROOT, 'checks', pid.lower() + '_*.py'))
    if len(files) != 1:
        raise HarnessError('no check for %s' % pid)
    return os.path.basename(files[0])[:-3]


def load(pid):
    import satella
    where = os.path.realpath(os.path.dirname(satella.__file__))
    if where != os.path.realpath(os.path.join(REPO, 'satella')):
        raise HarnessError('satella imported from %s' % where)
    mod = importlib.import_module(find_module(pid))
    prop = mod.prop
    assert prop.pid == pid
    return prop


HARNESS_ONLY = (ImportError, SyntaxError, NameError, HarnessError, MemoryError)


def is_harness_error(e):
    """
    An exception from run(case) counts against the code under test, unless it is one that only a
    mistake in the harness can produce: a NameError etc. raised with no frame of the tested code
    underneath.
    """
    if isinstance(e, HarnessError):
        return True
    if not isinstance(e, HARNESS_ONLY):
        return False
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if last.startswith(REPO + os.sep):
            return False
        tb = tb.tb_next
    return True


def case_key(case):
    return hashlib.sha1(repr(case).encode('utf8', 'backslashreplace')).digest()[:10]


def worker(pid, index, tier, seed, out_path, cur_path):
    """Run a single facet; writes a pickled result to out_path"""
    faulthandler.enable()
    result = {'evaluations': 0, 'nontrivial': set(), 'samples': [], 'failure': None,
              'error': None, 'wall': 0.0, 'stopped_early': False}
    started = _monotonic()
    try:
        import hypothesis
        from hypothesis import settings, given, HealthCheck, Phase
        prop = load(pid)
        facet = prop.facets[index]
        fd = os.open(cur_path, os.O_RDWR | os.O_CREAT)
        budget = float(os.environ.get('VERIF_FACET_BUDGET_S') or (150 if tier == 'quick' else 1500))
        state = {'fail': None, 'shrink_until': None}
        n = facet.quick if tier == 'quick' else facet.thorough
        scale = os.environ.get('VERIF_SCALE')
        if scale:
            n = max(1, int(n * float(scale)))

        def execute(case):
            now = _monotonic()
            if state['fail'] is None and now - started > budget:
                result['stopped_early'] = True
                return
            if state['shrink_until'] is not None and now > state['shrink_until']:
                # out of shrinking time: let only the best failure so far fail
                if case_key(case) != state['fail_key']:
                    return
                raise state['fail_exc']
            blob = pickle.dumps(case)
            os.pwrite(fd, len(blob).to_bytes(8, 'little') + blob, 8)
            result['evaluations'] += 1
            os.pwrite(fd, result['evaluations'].to_bytes(8, 'little'), 0)
            try:
                nontrivial = facet.run(case)
            except Trivial:
                nontrivial = False
            except Exception as e:
                if is_harness_error(e):
                    result['error'] = traceback.format_exc()
                    raise HarnessError('harness error') from e
                state['fail'] = case
                state['fail_key'] = case_key(case)
                state['fail_exc'] = e
                state['fail_tb'] = traceback.format_exc()
                if state['shrink_until'] is None:
                    state['shrink_until'] = _monotonic() + (60 if facet.shrink else 0)
                raise
            finally:
                os.pwrite(fd, (0).to_bytes(8, 'little'), 0)
            if nontrivial:
                k = case_key(case)
                if k not in result['nontrivial']:
                    result['nontrivial'].add(k)
                    if len(result['samples']) < 3 and (len(result['nontrivial']) % 7) == 1:
                        result['samples'].append(repr(case)[:1000])

        test = given(facet.strategy)(execute)
        test = hypothesis.seed(seed * 1000003 + int(hashlib.sha1(
            (pid + facet.name).encode()).hexdigest()[:6], 16))(test)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                        report_multiple_bugs=False, print_blob=False,
                        suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate, Phase.shrink] if facet.shrink else [Phase.generate]
                        )(test)
        try:
            test()
        except BaseException as e:
            if result['error'] is None and state['fail'] is None:
                result['error'] = traceback.format_exc()
            elif state['fail'] is not None:
                result['error'] = None
                result['failure'] = {'case': state['fail'], 'traceback': state['fail_tb']}
    except BaseException:
        result['error'] = traceback.format_exc()
    result['wall'] = _monotonic() - started
    with open(out_path + '.tmp', 'wb') as f:
        pickle.dump(result, f)
    os.rename(out_path + '.tmp', out_path)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def replay_worker(pid, index, case, out_path):
    faulthandler.enable()
    res = {'failure': None, 'error': None}
    try:
        prop = load(pid)
        try:
            prop.facets[index].run(case)
        except Trivial:
            pass
        except Exception as e:
            if is_harness_error(e):
                res['error'] = traceback.format_exc()
            else:
                res['failure'] = traceback.format_exc()
    except BaseException:
        res['error'] = traceback.format_exc()
    with open(out_path + '.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.rename(out_path + '.tmp', out_path)
    sys.stdout.flush()
    os._exit(0)


def spawn(fun, *args):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            null = os.open(os.environ.get('VERIF_WORKER_OUT', '/dev/null'),
                           os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.dup2(null, 1)
            os.dup2(null, 2)
            fun(*args)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(3)
    return pid


def kill(p):
    for f in (os.killpg, os.kill):
        try:
            f(p, signal.SIGKILL)
        except OSError:
            pass
    try:
        os.waitpid(p, 0)
    except OSError:
        pass


def write_replay(pid, facet, case, text):
    d = os.path.join(EVIDENCE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, facet.name))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'facet': facet.name, 'case_repr': repr(case),
                   'case_pickle_b64': base64.b64encode(pickle.dumps(case)).decode(),
                   'failure': text,
                   'how': 'bash /verif/run.sh --replay %s' % path}, f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        x = json.load(f)
    prop = load(x['property'])
    case = pickle.loads(base64.b64decode(x['case_pickle_b64']))
    for facet in prop.facets:
        if facet.name == x['facet']:
            print('case:', repr(case))
            try:
                facet.run(case)
            except Trivial:
                pass
            except Exception:
                traceback.print_exc()
                print('VIOLATION property=%s replay=%s' % (x['property'], path))
                return 1
            print('the case passes')
            return 0
    raise HarnessError('unknown facet')


def known_findings():
    path = os.path.join(ROOT, 'findings', 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)


def run_facets(prop, pending, tier, seed):
    """
    Run facets in processes of their own.

    :return: results by index of the facet, violations as (facet, case, text), errors
    """
    tmp = tempfile.mkdtemp(prefix='vf-run-')
    pending = list(pending)
    running = {}
    results = {}
    jobs = int(os.environ.get('VERIF_JOBS') or max(2, min(8, os.cpu_count() or 2)))
    hard = 700 if tier == 'quick' else 6 * 3600
    errors = []
    violations = []
    try:
        while pending or running:
            while pending and len(running) < jobs:
                i = pending.pop(0)
                out = os.path.join(tmp, 'out%d' % i)
                cur = os.path.join(tmp, 'cur%d' % i)
                p = spawn(worker, prop.pid, i, tier, seed, out, cur)
                running[p] = [i, out, cur, None, _monotonic()]
            for p in list(running):
                i, out, cur, seen, began = running[p]
                facet = prop.facets[i]
                r, status = os.waitpid(p, os.WNOHANG)
                if r:
                    del running[p]
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
                    if os.path.exists(out):
                        with open(out, 'rb') as f:
                            results[i] = pickle.load(f)
                    else:
                        # the worker died: if it did inside a case, that's the code's doing
                        case = read_case(cur)
                        if case is None:
                            errors.append('%s: worker died with status %s' % (facet.name, status))
                        else:
                            violations.append((facet, case[0], 'process died with status %s '
                                                               'while running the case' % status))
                    continue
                # hang detection
                now = _monotonic()
                case = read_case(cur)
                if case is not None:
                    key = case[1]
                    if seen is None or seen[0] != key:
                        running[p][3] = (key, now)
                    elif now - seen[1] > facet.hang_s:
                        kill(p)
                        del running[p]
                        violations.append((facet, case[0],
                                           'the case did not finish within %s s' % facet.hang_s))
                        continue
                else:
                    running[p][3] = None
                if now - began > hard:
                    kill(p)
                    del running[p]
                    errors.append('%s: out of time' % (facet.name,))
            _sleep(0.02)
    finally:
        for p in running:
            kill(p)
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    for i, res in sorted(results.items()):
        if res['failure']:
            violations.append((prop.facets[i], res['failure']['case'],
                               res['failure']['traceback']))
    return results, violations, errors


def confirm(prop, violation, tier, seed):
    """
    Does the case fail again, in a fresh process? Should it not (it might depend upon what was run
    before it) does the entire facet fail again?
    """
    facet, case, text = violation
    index = prop.facets.index(facet)
    tmp = tempfile.mkdtemp(prefix='vf-run-')
    try:
        for attempt in range(2):
            out = os.path.join(tmp, 'out%d' % attempt)
            p = spawn(replay_worker, prop.pid, index, case, out)
            until = _monotonic() + facet.hang_s
            while True:
                r, status = os.waitpid(p, os.WNOHANG)
                if r:
                    if not os.path.exists(out):
                        return True     # it died again
                    with open(out, 'rb') as f:
                        if pickle.load(f)['failure']:
                            return True
                    break
                if _monotonic() > until:
                    kill(p)
                    return True
                _sleep(0.01)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return bool(run_facets(prop, [index], tier, seed)[1])


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = os.environ.get('VERIF_FACET')
    started = _monotonic()
    prop = load(pid)
    import hypothesis  # noqa  preload before forking
    import hypothesis.strategies  # noqa
    results, violations, errors = run_facets(
        prop, [i for i, f in enumerate(prop.facets) if not only or f.name == only], tier, seed)

    per_facet = {}
    evaluations = 0
    nontrivial = 0
    samples = []
    for i, res in sorted(results.items()):
        facet = prop.facets[i]
        if res['error']:
            errors.append('%s: %s' % (facet.name, res['error']))
        evaluations += res['evaluations']
        nontrivial += len(res['nontrivial'])
        per_facet[facet.name] = {'evaluations': res['evaluations'],
                                 'distinct_nontrivial': len(res['nontrivial']),
                                 'rule': facet.rule, 'wall_s': round(res['wall'], 2),
                                 'stopped_by_time_budget': res['stopped_early']}
        samples.extend({'facet': facet.name, 'case': s} for s in res['samples'][:2])
    lines = []
    unconfirmed = [v for v in violations if not confirm(prop, v, tier, seed)]
    violations = [v for v in violations if v not in unconfirmed]
    for facet, case, text in unconfirmed:
        print('facet %s failed once on case %s, but not again\n%s' % (
            facet.name, repr(case)[:2000], text[-3000:]))
    for facet, case, text in violations:
        path = write_replay(pid, facet, case, text)
        print('facet %s failed on case %s\n%s' % (facet.name, repr(case)[:2000], text[-3000:]))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': nontrivial,
            'rule': 'Cases drawn by Hypothesis strategies and compared with an oracle; a case is '
                    'counted once (by hash of its repr) when it is non-trivial by its facet\'s '
                    'rule, see facets.',
            'facets': per_facet,
            'samples': samples,
        },
        'assumptions': prop.assumptions,
        'wall_s': round(_monotonic() - started, 2),
        'violations': len(violations),
        'unconfirmed_failures': len(unconfirmed),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    for x in known_findings():
        if x.get('status') == 'known' and x.get('property') == pid:
            print('KNOWN-FINDING: property=%s %s' % (pid, x['what']))
    for name, x in per_facet.items():
        print('%s %-34s %6d cases, %6d distinct non-trivial, %.1fs' % (
            pid, name, x['evaluations'], x['distinct_nontrivial'], x['wall_s']))
    for e in errors:
        print('HARNESS ERROR', e)
    if lines:
        print('\n'.join(lines))
        return 1
    if errors:
        return 2
    print('%s held on everything explored (%d cases, %.1fs)' % (pid, evaluations,
                                                               evidence['wall_s']))
    return 0


def read_case(cur):
    try:
        with open(cur, 'rb') as f:
            data = f.read()
    except OSError:
        return None
    if len(data) < 16 or data[:8] == bytes(8):
        return None
    n = int.from_bytes(data[8:16], 'little')
    try:
        return pickle.loads(data[16:16 + n]), data[:8]
    except Exception:
        return None


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
