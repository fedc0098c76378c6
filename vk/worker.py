"""One shard of a generated-input search (runs unprivileged, in its own scratch directory)."""
import faulthandler
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

faulthandler.enable()
warnings.simplefilter('ignore')

job = json.load(open(sys.argv[1]))
T0 = time.time()
WORK = job['workdir']
TREE = os.environ['VK_TREE']

import vk.core as core                                   # noqa: E402
from vk.core import Violation, Skip, Ctx                 # noqa: E402
import vk.guard as guard                                 # noqa: E402

guard.install(WORK, TREE)

import numpy as np                                       # noqa: E402
import hypothesis                                        # noqa: E402
from hypothesis import given, settings, HealthCheck, Phase  # noqa: E402


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


signal.signal(signal.SIGALRM, _alarm)


def jdump(obj):
    return json.dumps(obj, sort_keys=True)


def write_json(path, obj):
    tmp = path + '.tmp'
    with open(tmp, 'w') as fp:
        json.dump(obj, fp)
    os.replace(tmp, path)


def passes_through_tree(tb):
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(TREE):
            return True
        tb = tb.tb_next
    return False


def raised_in_tree(tb):
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename.startswith(TREE)


def run_case(sub, case):
    """Returns ctx; raises Violation or lets harness errors through"""
    write_json(os.path.join(WORK, 'current.json'), dict(sub=sub.name, case=case))
    ctx = Ctx(WORK)
    guard.escapes.clear()
    signal.alarm(job['case_timeout'])
    try:
        sub.func(case, ctx)
    except (Violation, Skip):
        raise
    except CaseTimeout:
        raise Violation(f"the code under test did not finish within {job['case_timeout']} s")
    except guard.Escape as e:
        raise Violation(str(e))
    except (Exception, SystemExit) as e:
        if isinstance(e, np.linalg.LinAlgError) and raised_in_tree(e.__traceback__):
            raise Skip('singular system')           # (refused; C01 checks that these are singular)
        if passes_through_tree(e.__traceback__):
            raise Violation('the code under test raised on a valid case: '
                            + ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:])
        # the oracle looked for a result that is not there (missing file, key, entry, unreadable number)
        none = isinstance(e, TypeError) and 'NoneType' in str(e)        # ... or is not set
        if none or isinstance(e, (LookupError, FileNotFoundError, ValueError)) and not isinstance(e, np.linalg.LinAlgError):
            raise Violation('the results do not have the promised form: '
                            + ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
        raise
    finally:
        signal.alarm(0)
    if guard.escapes:
        raise Violation('effects outside the project directory: ' + '; '.join(guard.escapes[:5]))
    return ctx


def main():
    mod = importlib.import_module(f"vk.checks.{job['property'].lower()}")
    subs = mod.SUBS
    report = dict(subs={}, violations=[], errors=[], known_lines=[])

    if job['replay'] is not None:
        sub = [s for s in subs if s.name == job['replay']['sub']][0]
        try:
            run_case(sub, job['replay']['case'])
        except Skip:
            pass
        except Violation as e:
            report['violations'].append(dict(sub=sub.name, case=job['replay']['case'], message=str(e)))
        except Exception:
            report['errors'].append(traceback.format_exc())
        write_json(os.path.join(WORK, 'report.json'), report)
        return

    # listed findings: re-run the exact failing case, report the line while it still fails
    for k in job.get('known', []):
        sub = [s for s in subs if s.name == k['sub']][0]
        try:
            run_case(sub, k['case'])
            report['known_lines'].append(f"note: listed finding no longer reproduces: {k['what']}")
        except Violation:
            report['known_lines'].append(f"KNOWN-FINDING: property={job['property']} {k['what']}")
        except Exception:
            report['errors'].append(traceback.format_exc())

    deadline = T0 + job['budget']
    for sub in subs:
        if job['only'] and sub.name not in job['only'].split(','):
            continue
        total = sub.quick if job['tier'] == 'quick' else sub.thorough
        total = max(1, int(round(total*job['scale'])))
        n = total//job['nshards'] + (1 if job['shard'] < total % job['nshards'] else 0)
        if n == 0:
            continue
        st = dict(evaluations=0, skipped=0, planned=n, hashes_nt=[], labels={}, samples=[], rule=sub.rule)
        seen = set()
        failing = {}           # case json -> message
        state = dict(first_fail=None, last=None)

        def body(case):
            now = time.time()
            key = jdump(case)
            if state['first_fail'] is None and now > deadline:
                st['skipped'] += 1
                return
            if state['first_fail'] is not None and now - state['first_fail'] > 45 and key not in failing:
                return         # shrinking budget is used up: keep the smallest found so far
            ctx = None
            if key in failing:
                msg = failing[key]
            else:
                msg = None
                try:
                    ctx = run_case(sub, case)
                except Skip as e:
                    st['evaluations'] += 1
                    st['labels']['outside domain: ' + str(e)] = st['labels'].get('outside domain: ' + str(e), 0) + 1
                    return
                except Violation as e:
                    if state['first_fail'] is None:
                        state['first_fail'] = now
                    msg = failing[key] = str(e)
            if msg is not None:
                state['last'] = (case, msg)
                raise Violation(msg)
            st['evaluations'] += 1
            for lab in ctx.labels:
                st['labels'][lab] = st['labels'].get(lab, 0) + 1
            if ctx.is_nontrivial:
                h = hashlib.sha1(key.encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(seen) == max(1, min(5, n//2)) or (len(seen) == 40):
                        if len(key) < 6000:
                            st['samples'].append(case)

        seed = int(hashlib.sha256(f"{job['seed']}/{job['property']}/{sub.name}/{job['shard']}".encode()).hexdigest()[:12], 16)
        test = given(sub.strategy)(body)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                        suppress_health_check=list(HealthCheck), print_blob=False,
                        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False)(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except Violation:
            case, msg = state['last']
            report['violations'].append(dict(sub=sub.name, case=case, message=msg))
        except hypothesis.errors.Flaky:
            # fails, but not every time it is run: report the failing case as it was found
            case, msg = state['last']
            report['violations'].append(dict(sub=sub.name, case=case, message='(not on every run) ' + msg))
        except Exception:
            report['errors'].append(f'{sub.name}: ' + traceback.format_exc())
        st['hashes_nt'] = sorted(seen)
        report['subs'][sub.name] = st
        if report['violations']:
            break
    write_json(os.path.join(WORK, 'report.json'), report)


main()
