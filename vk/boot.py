"""
Orchestrator: builds a scratch copy of the code under test from /repo's
working tree, shards the generated-input search over worker processes, merges
their reports, writes the evidence file and turns the outcome into an exit code.

    exit 0   property held on everything explored
    exit 1   VIOLATION line printed (replay file written)
    exit 2   the check itself failed (build error, harness error, ...)
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import time
import zipfile
import glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VK_REPO', '/repo')
PY = '/opt/venv/bin/python'
WHEELS = '/opt/veriftools/wheels'
NOBODY = 65534
NPROC = int(os.environ.get('VK_NPROC', '8'))


class HarnessError(Exception):
    pass


def make_scratch():
    base = tempfile.mkdtemp(prefix='vk_', dir=os.environ.get('VK_TMP', '/tmp'))
    os.chmod(base, 0o755)
    return base


def copy_tree(scratch):
    dst = os.path.join(scratch, 'tree')
    os.makedirs(dst)
    ign = shutil.ignore_patterns('__pycache__', '*.so', '*.pyc', 'build', '*.egg-info')
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(dst, 'src'), ignore=ign, symlinks=True)
    for name in ('setup.py', 'README.rst'):
        p = os.path.join(REPO, name)
        if os.path.exists(p):
            shutil.copy(p, dst)
    return dst


def build(tree, sanitize=False):
    """Compile the extension of the copied tree in place with the repo's own setup.py"""
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1')
    if sanitize:
        env['CFLAGS'] = '-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined'
        env['LDFLAGS'] = '-fsanitize=address,undefined'
    r = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace', '--force'],
                       cwd=tree, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    so = glob.glob(os.path.join(tree, 'src/lib/pytornado/aero/c_vlm*.so'))
    if r.returncode != 0 or not so:
        sys.stderr.write(r.stdout[-4000:])
        raise HarnessError('build of the extension failed')
    shutil.rmtree(os.path.join(tree, 'build'), ignore_errors=True)


def deps_dir(scratch):
    """hypothesis for the interpreter of the code under test, from the offline wheelhouse"""
    out = os.path.join(scratch, 'deps')
    os.makedirs(out)
    for pat in ('hypothesis-*cp312-cp312-manylinux*', 'sortedcontainers-*'):
        hit = sorted(glob.glob(os.path.join(WHEELS, pat + '.whl')))
        if not hit:
            raise HarnessError(f'wheel {pat} not found in {WHEELS}')
        with zipfile.ZipFile(hit[-1]) as z:
            z.extractall(out)
    return out


def worker_env(scratch, tree, deps, workdir, extra=None):
    env = {
        'PATH': f"{tree}/src/bin:/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        'PYTHONPATH': ':'.join([os.path.join(tree, 'src/lib'), deps, VERIF]),
        'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONHASHSEED': '0',
        'MPLBACKEND': 'Agg',
        'MPLCONFIGDIR': os.path.join(workdir, 'mpl'),
        'OMP_NUM_THREADS': '1',
        'OPENBLAS_NUM_THREADS': '1',
        'HOME': workdir,
        'TMPDIR': workdir,
        'HYPOTHESIS_STORAGE_DIRECTORY': os.path.join(workdir, 'hyp'),
        'LC_ALL': 'C.UTF-8',
        'VK_TREE': tree,
    }
    env.update(extra or {})
    return env


def can_drop():
    if os.getuid() != 0:
        return False
    try:
        r = subprocess.run(['/bin/true'], user=NOBODY, group=NOBODY, extra_groups=[])
        return r.returncode == 0
    except Exception:
        return False


def spawn(scratch, tree, deps, idx, job, extra_env=None):
    workdir = os.path.join(scratch, f'w{idx}')
    os.makedirs(workdir)
    if os.path.isdir('/opt/venv/mplconfig'):
        shutil.copytree('/opt/venv/mplconfig', os.path.join(workdir, 'mpl'))
    else:
        os.makedirs(os.path.join(workdir, 'mpl'))
    job = dict(job, workdir=workdir)
    jobfile = os.path.join(workdir, 'job.json')
    with open(jobfile, 'w') as fp:
        json.dump(job, fp)
    kw = {}
    if can_drop():
        for root, dirs, files in os.walk(workdir):
            os.chown(root, NOBODY, NOBODY)
            for f in files:
                os.chown(os.path.join(root, f), NOBODY, NOBODY)
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    out = open(os.path.join(scratch, f'w{idx}.log'), 'wb')
    p = subprocess.Popen([PY, '-B', '-X', 'faulthandler', '-m', 'vk.worker', jobfile], cwd=workdir,
                         env=worker_env(scratch, tree, deps, workdir, extra_env),
                         stdin=subprocess.DEVNULL, stdout=out, stderr=out, start_new_session=True, **kw)
    return dict(p=p, workdir=workdir, log=out.name, idx=idx, done=False)


def killpg(w):
    try:
        os.killpg(w['p'].pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def read_json(path):
    try:
        with open(path) as fp:
            return json.load(fp)
    except Exception:
        return None


def load_known():
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                line = line.strip()
                if line:
                    out.append(json.loads(line))
    return out


def run_workers(scratch, tree, deps, jobs, hard_cap, extra_env=None):
    ws = [spawn(scratch, tree, deps, i, j, extra_env) for i, j in enumerate(jobs)]
    t0 = time.time()
    first_viol = None
    try:
        while True:
            alive = [w for w in ws if w['p'].poll() is None]
            if not alive:
                break
            if first_viol is None:
                for w in ws:
                    if w['p'].poll() is not None:
                        rep = read_json(os.path.join(w['workdir'], 'report.json'))
                        if rep and rep.get('violations'):
                            first_viol = time.time()
            # one minimal reproduction is enough: do not wait for the other shards to shrink theirs
            if first_viol is not None and time.time() - first_viol > 3:
                break
            if time.time() - t0 > hard_cap:
                break
            time.sleep(0.05)
    finally:
        timed_out = []
        for w in ws:
            if w['p'].poll() is None:
                timed_out.append(w)
                killpg(w)
                w['p'].wait()
    return ws, (timed_out if first_viol is None else [])


def main():
    t_start = time.time()
    args = sys.argv[1:]
    if args and args[0] == '--list':
        sys.path.insert(0, VERIF)
        for f in sorted(glob.glob(os.path.join(VERIF, 'vk/checks/c[0-9]*.py'))):
            print(os.path.basename(f)[:-3].upper())
        return 0
    replay = None
    if args and args[0] == '--replay':
        replay = read_json(args[1])
        if replay is None:
            raise HarnessError('cannot read replay file')
        prop, tier = replay['property'], 'quick'
    else:
        prop = args[0].upper()
        tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scale = float(os.environ.get('VK_SCALE', '1'))
    only = os.environ.get('VK_ONLY')

    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    evfile = os.path.join(evdir, f'{prop}.json')
    if replay is None and os.path.exists(evfile):
        os.remove(evfile)

    scratch = make_scratch()
    try:
        tree = copy_tree(scratch)
        deps = deps_dir(scratch)
        modfile = os.path.join(VERIF, 'vk', 'checks', f'{prop.lower()}.py')
        if not os.path.exists(modfile):
            raise HarnessError(f'no check for {prop}')
        with open(modfile) as fp:
            src = fp.read()
        sanitize = 'SANITIZE = True' in src
        extra_env = {}
        build(tree, sanitize=sanitize)
        if sanitize:
            lib = lambda n: subprocess.run(['gcc', f'-print-file-name={n}'], stdout=subprocess.PIPE, text=True).stdout.strip()
            extra_env = {
                'LD_PRELOAD': lib('libasan.so') + ' ' + lib('libubsan.so') + ' ' + lib('libstdc++.so.6'),
                'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1',
                'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
                'PYTHONMALLOC': 'malloc',
            }
        os.system(f'chmod -R a+rX {scratch}')

        known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']
        base = dict(property=prop, tier=tier, seed=seed, scale=scale, only=only, replay=replay,
                    budget=float(os.environ.get('VK_BUDGET', '330' if tier == 'quick' else '3000')),
                    case_timeout=120)
        hard_cap = base['budget'] + 240
        if replay is not None:
            jobs = [dict(base, shard=0, nshards=1)]
        else:
            jobs = [dict(base, shard=k, nshards=NPROC, known=(known if k == 0 else [])) for k in range(NPROC)]
        ws, timed_out = run_workers(scratch, tree, deps, jobs, hard_cap, extra_env)

        viols, errors, reports = [], [], []
        for w in ws:
            rep = read_json(os.path.join(w['workdir'], 'report.json'))
            rc = w['p'].returncode
            if rep is not None:
                reports.append(rep)
                viols += rep['violations']
                errors += rep['errors']
            elif w in timed_out:
                errors.append(f'worker {w["idx"]} exceeded the hard time cap')
            elif rc is not None and (rc < 0 or rc == 99) and rc != -signal.SIGKILL:
                cur = read_json(os.path.join(w['workdir'], 'current.json'))
                tail = open(w['log'], errors='replace').read()[-3000:]
                if cur:
                    viols.append(dict(sub=cur['sub'], case=cur['case'],
                                      message=f'process died (exit status {rc}) while running this case\n{tail}'))
                else:
                    errors.append(f'worker died rc={rc}: {tail}')
            elif rc not in (0, -signal.SIGKILL) or (rc == -signal.SIGKILL and not viols):
                tail = open(w['log'], errors='replace').read()[-3000:]
                errors.append(f'worker {w["idx"]} rc={rc}: {tail}')

        if replay is not None:
            for v in viols:
                print(f"replay fails: {v['sub']}: {v['message'][:3000]}")
            for e in errors:
                sys.stderr.write(str(e)[:3000] + '\n')
            if not viols and not errors:
                print('replay passes')
            return 1 if viols else (2 if errors else 0)

        # ----- merge -----
        subs = {}
        known_lines = []
        for rep in reports:
            for name, s in rep['subs'].items():
                m = subs.setdefault(name, dict(evaluations=0, hashes=set(), hashes_nt=set(), labels={}, samples=[],
                                               rule=s['rule'], skipped=0, planned=0))
                m['evaluations'] += s['evaluations']
                m['skipped'] += s['skipped']
                m['planned'] += s['planned']
                m['hashes_nt'] |= set(s['hashes_nt'])
                for k, v in s['labels'].items():
                    m['labels'][k] = m['labels'].get(k, 0) + v
                for smp in s['samples']:
                    if len(m['samples']) < 2:
                        m['samples'].append(smp)
            known_lines += rep.get('known_lines', [])
        evaluations = sum(m['evaluations'] for m in subs.values())
        nontriv = sum(len(m['hashes_nt']) for m in subs.values())
        samples = []
        for name in sorted(subs):
            for smp in subs[name]['samples']:
                samples.append(dict(sub=name, case=smp))
        ev = dict(
            property=prop, tier=tier, seed=seed, level='exploration',
            coverage=dict(
                evaluations=evaluations,
                distinct_nontrivial=nontriv,
                rule=' | '.join(f'{n}: {subs[n]["rule"]}' for n in sorted(subs)),
                samples=samples,
                sub_checks={n: dict(evaluations=m['evaluations'], distinct_nontrivial=len(m['hashes_nt']),
                                    labels=m['labels'], planned=m['planned'], skipped_by_time_budget=m['skipped'])
                            for n, m in sorted(subs.items())},
            ),
            wall_s=round(time.time() - t_start, 2),
            violations=len(viols),
        )
        if not errors or viols:
            with open(evfile, 'w') as fp:
                json.dump(ev, fp, indent=1)

        for line in known_lines:
            print(line)
        for n, m in sorted(subs.items()):
            print(f'[{prop}] {n}: {m["evaluations"]} cases, {len(m["hashes_nt"])} distinct non-trivial'
                  + (f', {m["skipped"]} skipped (time budget)' if m['skipped'] else ''))
        if viols:
            viols.sort(key=lambda v: (v['sub'], len(json.dumps(v['case']))))
            v = viols[0]
            rdir = os.path.join(VERIF, '.replays')
            os.makedirs(rdir, exist_ok=True)
            rfile = os.path.join(rdir, f'{prop}_{v["sub"]}.json')
            with open(rfile, 'w') as fp:
                json.dump(dict(property=prop, sub=v['sub'], case=v['case'], message=v['message'], seed=seed), fp, indent=1)
            print(f'[{prop}] {v["sub"]}: {v["message"][:2500]}')
            print(f'VIOLATION property={prop} replay={rfile}')
            return 1
        if errors:
            for e in errors[:3]:
                sys.stderr.write(f'[{prop}] HARNESS ERROR: {str(e)[:4000]}\n')
            return 2
        if evaluations == 0:
            sys.stderr.write('nothing was evaluated\n')
            return 2
        print(f'[{prop}] held on {evaluations} generated cases ({tier}, seed {seed}, {ev["wall_s"]} s)')
        return 0
    finally:
        if os.environ.get('VK_KEEP'):
            print('kept', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    try:
        rc = main()
    except HarnessError as e:
        sys.stderr.write(f'HARNESS ERROR: {e}\n')
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
