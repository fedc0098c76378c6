"""What a process did before does not matter to an analysis, and an analysis leaves the process as it found it."""
import copy
import os
import pickle
import random
import shutil
import sys
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim
from vk.checks import c16, c19
from vk.core import Sub, Skip, Violation, require, close

SAVE = {'global': True, 'panelwise': True, 'aeroperformance': True, 'matrix_system': False}
KINDS = ['deflection', 'airfoil', 'aero', 'states', 'settings', 'place', 'scale', 'deformation', 'defaults', 'sparse', 'sparse', 'other']


# ----- the oracle: the same analysis in a process which made none before -----

_zygote = [None]


def digest(r):
    d, lat, res = r['vlmdata'], r['lattice'], r['state'].results
    return dict(p=np.array(lat.p), n=np.array(lat.n), rhs=np.array(d.array_rhs), gamma=np.array(d.panelwise['gamma']),
                cp=np.array(d.panelwise['cp']), F=np.array([d.forces[k] for k in 'xyzDCLlmn']),
                C=np.array([d.coeffs[k] for k in 'xyzDCLlmn']), apm=np.array([res[k] for k in sorted(res)], dtype=float),
                settings=repr(sorted((k, repr(v)) for k, v in r['settings'].settings.items())))


def serve(inp, out):
    """Waits for settings files; analyses each of them in a child of its own"""
    while True:
        line = inp.readline()
        if not line:
            os._exit(0)
        path, answer = line.rstrip('\n').split('\t')
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    res = ('ok', digest(sim.standard_run(path)))
                except BaseException as e:
                    res = ('error', f'{type(e).__name__}: {e}')
                with open(answer, 'wb') as fp:
                    pickle.dump(res, fp)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        out.write('done\n')
        out.flush()


def zygote():
    """Forked before the first analysis of this process"""
    if _zygote[0] is None:
        import pytornado.stdfun.run        # noqa: F401 (imported, nothing done)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                serve(os.fdopen(r1), os.fdopen(w2, 'w'))
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        _zygote[0] = (os.fdopen(w1, 'w'), os.fdopen(r2))
    return _zygote[0]


def in_new_process(ctx, path):
    w, r = zygote()
    answer = os.path.join(ctx.workdir, 'cases', 'answer.pickle')
    os.makedirs(os.path.dirname(answer), exist_ok=True)
    if os.path.exists(answer):
        os.remove(answer)
    w.write(f'{path}\t{answer}\n')
    w.flush()
    r.readline()
    if not os.path.exists(answer):
        raise Violation('the analysis ended its process')
    with open(answer, 'rb') as fp:
        return pickle.load(fp)


# ----- cases -----

@st.composite
def version(draw, base):
    """Contents of a project; mostly one thing apart from the base"""
    v = copy.deepcopy(base)
    kind = draw(st.sampled_from(KINDS))
    v['kind'] = kind
    if kind == 'deflection':
        for w in v['aircraft']['wings']:
            for c in w.get('controls', []):
                c['deflection'] = round(draw(gen.num(-20, 20, 1)) + 0.5, 3)
    elif kind == 'airfoil':
        v['foil'] = [draw(gen.num(0.02, 0.07, 0.001)), draw(gen.num(0.06, 0.14, 0.001))]
    elif kind == 'aero':
        v['aero'] = {k: draw(gen.aero(amax=12))[k] for k in v['aero']}
    elif kind == 'states':
        n = draw(st.integers(2, 3))
        a = [draw(gen.aero(amax=12)) for _ in range(n)]
        v['aero'] = {k: [x[k] for x in a] for k in a[0]}
    elif kind == 'settings':
        v['settings'].update(draw(st.sampled_from([dict(vlm_autopanels_c=1), dict(vlm_autopanels_s=5), dict(_do_normal_rotations=False),
                                                   dict(_epsilon=1e-3), dict(vlm_autopanels_c=3, vlm_autopanels_s=2)])))
    elif kind in ('place', 'scale'):
        f = 1.0 if kind == 'place' else draw(st.sampled_from([0.5, 1.25, 2.0]))
        t = draw(gen.num(-1, 1, 0.1)) if kind == 'place' else 0.0
        for w in v['aircraft']['wings']:
            for s in w['segments']:
                s['vertices'] = {k: [round(q[0]*f + t, 6), round(q[1]*f, 6), round(q[2]*f, 6)] for k, q in s['vertices'].items()}
        v['aircraft']['refs']['area'] += 1.0
    elif kind == 'deformation':
        w = draw(st.sampled_from(v['aircraft']['wings']))
        v['deformation'] = {w['uid']: draw(c19.field(w, False))}
    elif kind == 'defaults':
        # everything which may be left out is left out
        v['settings'] = {}
    elif kind == 'sparse':
        # what may be left out of the aircraft file is left out
        for w in v['aircraft']['wings']:
            for x in w['segments'] + w.get('controls', []):
                x.pop('panels', None)
                x.pop('deflection_mirror', None)
            if not w.get('controls'):
                w.pop('controls', None)
    elif kind == 'other':
        v['aircraft'] = draw(crafts())
    return v


@st.composite
def crafts(draw):
    ac = draw(gen.aircraft(controls=2, max_c=2, max_s=3, max_segs=2, max_wings=2, panels='mixed'))
    if draw(st.booleans()):
        for w in ac['wings']:
            for s in w['segments']:
                for pos in ('inner', 'outer'):
                    if draw(st.integers(0, 2)):
                        s['airfoils'][pos] = 'airfoils/blade.foil'
    return ac


@st.composite
def cases(draw):
    base = dict(aircraft=draw(crafts()), aero=draw(gen.aero(amax=12)), foil=[0.04, 0.1], deformation=None, kind='base',
                settings=dict(save_results=SAVE, vlm_autopanels_c=2, vlm_autopanels_s=3))
    versions = [base] + [draw(version(base)) for _ in range(draw(st.integers(1, 3)))]
    op = st.tuples(st.sampled_from(['edit', 'edit', 'edit', 'put', 'run', 'fail', 'script', 'stages']), st.integers(0, 1),
                   st.integers(0, len(versions) - 1)).map(list)
    return dict(versions=versions, start=[0, draw(st.integers(0, len(versions) - 1))], ops=draw(st.lists(op, min_size=2, max_size=9)))


def put(root, v):
    """Other contents, everything else about the files as before"""
    for d in ('aircraft', 'state', 'settings', 'deformation', 'airfoils'):
        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    settings = dict(aircraft='ac.json', state='st.json', **v['settings'])
    f = sim.write_project(root, v['aircraft'], v['aero'], settings, deformation=v['deformation'],
                          airfoils={'blade.foil': c16.FOIL.format(a=v['foil'][0], b=v['foil'][1])})
    for d, _, files in os.walk(root):
        for fn in files:
            os.utime(os.path.join(d, fn), (1.6e9, 1.6e9))
    return f


def outputs(root):
    out = {}
    for d, _, files in os.walk(os.path.join(root, '_results')):
        for fn in files:
            p = os.path.join(d, fn)
            with open(p) as fp:
                out[os.path.relpath(p, root)] = fp.read()
    for d, _, files in os.walk(os.path.join(root, '_plots')):
        out.update({os.path.relpath(os.path.join(d, fn), root): None for fn in files})
    return out


def process_state():
    s = dict(cwd=os.getcwd(), environment=dict(os.environ), numpy_errors=np.geterr(), path=list(sys.path),
             printing=repr(sorted(np.get_printoptions().items(), key=str)), umask=os.umask(0o22),
             random=random.getstate(), numpy_random=repr(np.random.get_state()), recursion=sys.getrecursionlimit(),
             stdout=id(sys.stdout), stderr=id(sys.stderr), argv=list(sys.argv))
    os.umask(s['umask'])
    return s


def agree(got, want, what):
    """True if bit by bit the same"""
    require(got['settings'] == want['settings'], f"{what}: settings {got['settings']}, in a new process {want['settings']}")
    exact = True
    for k in want:
        if k == 'settings':
            continue
        require(got[k].shape == want[k].shape, f'{what}: {k} has shape {got[k].shape}, in a new process {want[k].shape}')
        if np.array_equal(got[k], want[k], equal_nan=True):
            continue
        exact = False
        close(got[k], want[k], f'{what}: {k}, against a new process', rtol=1e-9, atol=1e-9*np.abs(want[k]).max())
    return exact


def history(case, ctx):
    zygote()
    top = sim.fresh_dir(ctx, 'hist')
    roots = [os.path.join(top, 'p0'), os.path.join(top, 'p1')]
    now = [None, None]
    files = [None, None]
    for k in (0, 1):
        now[k] = case['start'][k]
        files[k] = put(roots[k], case['versions'][now[k]])
    done, did = [], set()
    for i, (op, k, j) in enumerate(case['ops']):
        what = f'step {i} ({op})'
        if op == 'edit':
            # other contents, and an analysis of them
            now[k] = j
            files[k] = put(roots[k], case['versions'][j])
            op = 'run'
        if op == 'put':
            now[k] = j
            files[k] = put(roots[k], case['versions'][j])
        elif op in ('run', 'stages'):
            for sub in ('_results', '_plots'):
                shutil.rmtree(os.path.join(roots[k], sub), ignore_errors=True)
            status, want = in_new_process(ctx, files[k])
            require(status == 'ok', f'{what}: failed in a new process: {want}')
            if not np.all(np.isfinite(want['gamma'])):
                raise Skip('singular system')
            exp = outputs(roots[k])
            for sub in ('_results', '_plots'):
                shutil.rmtree(os.path.join(roots[k], sub), ignore_errors=True)
            before = process_state()
            if op == 'run':
                r = sim.standard_run(files[k])
                after = process_state()
                for q in before:
                    require(before[q] == after[q], f'{what}: {q} of the process was {before[q]}, is {after[q]}')
                exact = agree(digest(r), want, what)
                got = outputs(roots[k])
                require(sorted(got) == sorted(exp), f'{what}: wrote {sorted(got)}, a new process {sorted(exp)}')
                for p in exp:
                    require(not exact or got[p] == exp[p], f'{what}: {p} has other contents than from a new process')
            else:
                last = None
                for cur, lat, data in sim.stages(*sim.load_project(files[k])):
                    last = (lat, data)
                lat, data = last
                got = dict(p=lat.p, n=lat.n, rhs=data.array_rhs, gamma=data.panelwise['gamma'],
                           F=np.array([data.forces[q] for q in 'xyzDCLlmn']), settings=want['settings'])
                agree({q: np.array(x) if q != 'settings' else x for q, x in got.items()}, {q: want[q] for q in got}, what)
            done.append((k, now[k]))
        elif op == 'fail':
            # an analysis which cannot be made; afterwards the file is in its place again
            p = os.path.join(roots[k], *(('aircraft', 'ac.json'), ('state', 'st.json'), ('settings', 'run.json'))[j % 3])
            with open(p) as fp:
                text = fp.read()
            with open(p, 'w') as fp:
                fp.write(text[:len(text)//2])
            try:
                sim.standard_run(files[k])
            except (Exception, SystemExit):
                pass
            else:
                require(False, f'{what}: half a file was analysed: {p}')
            with open(p, 'w') as fp:
                fp.write(text)
            os.utime(p, (1.6e9, 1.6e9))
        elif op == 'script':
            # a script changes the objects which it loaded; that is its own business
            s, a, state = sim.load_project(files[k])
            s.settings['vlm_autopanels_c'] = 7
            s.settings['_epsilon'] = 0.01
            s.settings['save_results']['matrix_system'] = True
            s.settings['plot']['results']['opt'] = ['gamma']
            s.settings['plot']['lattice']['save'] = True
            a.refs['area'] *= 3
            a.refs['gcenter'] += 2.0
            for w in a.wings.values():
                for seg in w.segments.values():
                    seg.panels['num_c'] = 5
                    for q in 'abcd':
                        seg.vertices[q] = seg.vertices[q] + 1.0
                for c in w.controls.values():
                    c.deflection += 5.0
                    c.panels['num_c'] = 4
            for q, x in state.aero.items():
                if x is not None:
                    state.aero[q] = x + 1.0
        did.add(op)
    for q in did:
        ctx.label(q)
    ctx.label(*(v['kind'] for v in case['versions']))
    if len(set(done)) > 1:
        ctx.label('several contents analysed')
    ctx.nontrivial(len(set(done)) > 1)


SUBS = [Sub('history', cases(), history, 700, 15000, 'at least two different contents were analysed in one process')]
