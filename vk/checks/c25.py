"""The command line and the library give the same results, from any directory and however the path is written."""
import copy
import json
import os
import shutil
import subprocess
import sys
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim
from vk.checks import c16, c19
from vk.checks.c20 import cli, snapshot, diff
from vk.core import Sub, Skip, require

NAMES = ['P', 'my project', 'a.b', 'settings', 'proj.json', 'Ünï', '-q', 'results', 'x/y/z', 'aircraft/state', '..data', 'a b/settings/c']
FLAGS = [['-q'], ['-v'], ['-d'], [], ['--quiet', '--clean'], ['-c', '-v']]
SAVE = {k: True for k in ('global', 'panelwise', 'aeroperformance', 'matrix_system')}
BROKEN = ['no settings', 'settings text', 'settings empty', 'no aircraft', 'aircraft text', 'no state', 'state text', 'no airfoil',
          'no deformation', 'directory', 'bad value', 'bad wing', 'unknown airfoil', 'no parent', 'bad state']


@st.composite
def spelling(draw):
    """How to write the path of the settings file, and from where"""
    return dict(cwd=draw(st.sampled_from(['work', 'P', 'P/settings', 'P/aircraft', 'elsewhere', 'elsewhere/deep', 'root', 'P/state'])),
                form=draw(st.sampled_from(['abs', 'rel', 'dots', 'link', 'slashes', 'rel-link', 'dot-slash'])),
                decoy=draw(st.booleans()))


@st.composite
def cases(draw):
    ac = draw(gen.aircraft(controls=1, max_c=2, max_s=2, max_segs=2, max_wings=2))
    foils = {}
    if draw(st.booleans()):
        nm = draw(st.sampled_from(['blade.one', 'foil.dat', 'sub/foil.dat', 'my foil.txt']))
        foils[nm] = c16.FOIL.format(a=draw(gen.num(0.03, 0.06, 0.001)), b=draw(gen.num(0.06, 0.12, 0.001)))
        for w in ac['wings']:
            for s in w['segments']:
                for pos in ('inner', 'outer'):
                    if draw(st.booleans()):
                        s['airfoils'][pos] = 'airfoils/' + nm
    f = {w['uid']: draw(c19.field(w, False)) for w in ac['wings']} if draw(st.integers(0, 3)) == 0 else None
    return dict(name=draw(st.sampled_from(NAMES)), file=draw(st.sampled_from(['run.json', 'a b.json', 'run.v2.json', 'settings.json', 'RUN'])),
                acfile=draw(st.sampled_from(['ac.json', 'my ac.json', 'ac.v1.json', 'state.json', 'sub/ac.json'])),
                stfile=draw(st.sampled_from(['st.json', 'cruise 1.json', 'aircraft.json', 'm0.5.json', 'sub/st.json'])),
                aircraft=ac, aero=draw(gen.aero()), foils=foils, field=f,
                runs=draw(st.lists(st.tuples(st.sampled_from(['lib', 'cli', 'cli', 'stages']), spelling(),
                                             st.integers(0, len(FLAGS) - 1)).map(list), min_size=2, max_size=4)))


def layout(case, ctx):
    w = sim.fresh_dir(ctx, 'work')
    P = os.path.join(w, 'base', case['name'])
    settings = sim.make_settings(save_results=SAVE, aircraft=case['acfile'], state=case['stfile'], vlm_autopanels_s=2)
    f0 = sim.write_project(P, case['aircraft'], case['aero'], settings, deformation=case['field'])
    for n, text in case['foils'].items():
        fp = os.path.join(P, 'airfoils', n)
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        with open(fp, 'w') as fh:
            fh.write(text)
    f = os.path.join(P, 'settings', case['file'])
    os.rename(f0, f)
    os.makedirs(os.path.join(w, 'elsewhere', 'deep'))
    return w, P, f


def decoys(case, d, ctx):
    """Other input files of the same names where the program is started"""
    ac = copy.deepcopy(case['aircraft'])
    ac['refs']['area'] += 1.5
    for wing in ac['wings']:
        for s in wing['segments']:
            for v in s['vertices'].values():
                v[0] = round(v[0]*1.5 + 0.2*v[1], 6)
    aero = dict(case['aero'], alpha=case['aero']['alpha']/2 + 1, airspeed=case['aero']['airspeed'] + 7)
    put = {os.path.join('aircraft', case['acfile']): ac, os.path.join('state', case['stfile']): {'aero': aero},
           case['acfile']: ac, case['stfile']: {'aero': aero},
           os.path.join('settings', case['file']): sim.make_settings(aircraft=case['acfile'], state=case['stfile'], vlm_autopanels_c=1),
           case['file']: sim.make_settings(aircraft=case['acfile'], state=case['stfile'], vlm_autopanels_c=1)}
    if case['field']:
        put['deformation/def.json'] = {k: [[r[0], r[1], r[2], r[3] + 0.4] + r[4:] for r in v] for k, v in case['field'].items()}
    for rel, obj in put.items():
        p = os.path.join(d, rel)
        if not os.path.lexists(p):
            try:
                sim.write_json(p, obj)
            except OSError:
                pass
    for n in case['foils']:
        for rel in (os.path.join('airfoils', n), n, os.path.basename(n)):
            p = os.path.join(d, rel)
            if not os.path.lexists(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as fh:
                    fh.write(c16.FOIL.format(a=0.02, b=0.2))


def spell(case, sp, w, P, f, k):
    cwd = dict(work=w, P=P, root='/').get(sp['cwd']) or (os.path.join(P, sp['cwd'][2:]) if sp['cwd'].startswith('P/')
                                                        else os.path.join(w, sp['cwd']))
    path = f
    if sp['form'] in ('link', 'rel-link'):
        # a second name of the directory the project is in
        link = os.path.join(w, f'link{k}')
        os.symlink(os.path.join(w, 'base'), link)
        path = os.path.join(link, os.path.relpath(f, os.path.join(w, 'base')))
    if sp['form'] in ('rel', 'rel-link'):
        path = os.path.relpath(path, cwd)
    elif sp['form'] == 'dots':
        path = os.path.join(P, 'aircraft', '..', 'settings', '..', '.', 'settings', case['file'])
    elif sp['form'] == 'slashes':
        path = path.replace('/settings', '//settings').replace('settings/', 'settings///')
    elif sp['form'] == 'dot-slash':
        path = './' + os.path.relpath(path, cwd)
    if path.startswith('-'):
        path = './' + path
    return path, cwd


def outputs(P):
    snap = snapshot(P)
    return {p: v for p, v in snap.items() if p.split('/')[0] in ('_results', '_plots') and v[0] == 'file'}


def digest(r):
    d, lat = r['vlmdata'], r['lattice']
    return dict(p=np.array(lat.p), n=np.array(lat.n), gamma=np.array(d.panelwise['gamma']),
                F=[d.forces[k] for k in 'xyzDCLlmn'], C=[d.coeffs[k] for k in 'xyzDCLlmn'])


def same_digest(a, b, what):
    for k in a:
        require(np.array_equal(np.asarray(a[k], float), np.asarray(b[k], float), equal_nan=True), f'{what}: {k} differs')


def by_stages(path, cwd, others):
    """The steps of an analysis as a script makes them, which changes its working directory in between"""
    import pytornado.fileio as io
    import pytornado.stdfun.run as run
    import pytornado.aero.vlm as vlm
    from pytornado.objects.vlm_struct import VLMData
    old = os.getcwd()
    try:
        os.chdir(cwd)
        settings = run.get_settings(path)
        os.chdir(others[0])
        aircraft = io.native.aircraft.load(settings)
        os.chdir(others[1])
        state = io.native.state.load(settings)
        os.chdir(others[0])
        if settings.settings['deformation']:
            io.native.deformation.load(aircraft, settings)
        vlm.set_autopanels(aircraft, settings)
        cur = list(state.iter_states())[0]
        cur.refs = aircraft.refs
        data = VLMData()
        os.chdir(others[1])
        lat = vlm.gen_lattice(aircraft, cur, settings, True)
        vlm.calc_downwash(lat, data)
        vlm.calc_boundary(lat, cur, data)
        vlm.solver(data)
        vlm.calc_results(lat, cur, data)
        os.chdir(cwd)
        settings.paths.counter = 0
        settings.paths('d_results', make_dirs=True, is_dir=True)
        os.chdir(others[0])
        io.native.results.save_all(settings, aircraft, cur, data)
        return digest(dict(vlmdata=data, lattice=lat))
    finally:
        os.chdir(old)


def places(case, ctx):
    w, P, f = layout(case, ctx)
    with sim.chdir(w):
        r = sim.standard_run(f)
    want_d = digest(r)
    want = outputs(P)
    # without file name suffix the run is named in the same way
    require(any(p.endswith('_global.json') or p.endswith('global.json') for p in want), f'no results in the project: {sorted(want)}')
    used = set()
    for k, (how, sp, fl) in enumerate(case['runs']):
        for sub in ('_results', '_plots'):
            shutil.rmtree(os.path.join(P, sub), ignore_errors=True)
        path, cwd = spell(case, sp, w, P, f, k)
        inside = cwd == P or cwd.startswith(P + '/')
        if sp['decoy'] and sp['cwd'] != 'root':
            # files of the project itself stay as they are
            decoys(case, cwd, ctx)
            used.add('decoys')
        what = f'{how} {path!r} from {sp["cwd"]!r}' + (' with decoys' if sp['decoy'] else '')
        before = snapshot(w)
        if how == 'lib':
            with sim.chdir(cwd):
                same_digest(digest(sim.standard_run(path)), want_d, what)
        elif how == 'stages':
            same_digest(by_stages(path, cwd, [os.path.join(w, 'elsewhere'), w]), want_d, what)
        else:
            rc = cli(FLAGS[fl] + ['--run', path], cwd)
            require(rc == 0, f'{what}: exit status {rc}')
            used.add('flags ' + ' '.join(FLAGS[fl]))
        got = outputs(P)
        if how == 'stages':
            miss = [p for p in got if p not in want]
            require(not miss and all(p in got for p in want if 'aeroperformance' not in p), f'{what}: wrote {sorted(got)}, not {sorted(want)}')
        else:
            require(sorted(got) == sorted(want), f'{what}: wrote {sorted(got)}, not {sorted(want)}')
        for p in got:
            require(got[p] == want[p], f'{what}: {p} has other contents')
        gone, new, changed = diff(before, snapshot(w))
        rel = os.path.relpath(P, w)
        stray = [p for p in gone + new + changed if not (p == rel or p.startswith(rel + '/'))]
        require(not stray, f'{what}: effects outside the project: {stray}')
        used.add(how)
        used.add(sp['form'])
        used.add('cwd ' + sp['cwd'])
        if inside:
            used.add('from inside the project')
    ctx.label(*used)
    ctx.nontrivial(len(used) > 3)


@st.composite
def broken_cases(draw):
    c = draw(cases())
    c['runs'] = c['runs'][:1]
    c['broken'] = draw(st.sampled_from(BROKEN))
    return c


def break_it(case, w, P, f, how):
    """Spoils an input; returns the path to run or None when the case has nothing to spoil"""
    acf, stf = os.path.join(P, 'aircraft', case['acfile']), os.path.join(P, 'state', case['stfile'])
    if how == 'no settings':
        os.remove(f)
    elif how == 'no parent':
        shutil.rmtree(os.path.join(P, 'settings'))
    elif how == 'directory':
        os.remove(f)
        os.mkdir(f)
    elif how in ('settings text', 'settings empty'):
        with open(f, 'w') as fp:
            fp.write('' if how == 'settings empty' else '{"aircraft": ')
    elif how == 'bad value':
        s = sim.read_json(f)
        s['vlm_autopanels_c'] = 'many'
        sim.write_json(f, s)
    elif how == 'no aircraft':
        os.remove(acf)
    elif how == 'aircraft text':
        with open(acf, 'a') as fp:
            fp.write('}')
    elif how == 'no state':
        os.remove(stf)
    elif how == 'state text':
        with open(stf, 'w') as fp:
            fp.write('[1,')
    elif how == 'bad state':
        s = sim.read_json(stf)
        s['aero']['alpha'] = 120.0
        sim.write_json(stf, s)
    elif how == 'bad wing':
        a = sim.read_json(acf)
        del a['wings'][0]['segments'][0]['vertices']
        sim.write_json(acf, a)
    elif how == 'unknown airfoil':
        a = sim.read_json(acf)
        a['wings'][0]['segments'][0]['airfoils']['inner'] = 'NACA12'
        sim.write_json(acf, a)
    elif how == 'no airfoil':
        used = {v for wg in case['aircraft']['wings'] for s in wg['segments'] for v in s['airfoils'].values()}
        there = [n for n in case['foils'] if 'airfoils/' + n in used]
        if not there:
            return False
        os.remove(os.path.join(P, 'airfoils', there[0]))
    elif how == 'no deformation':
        if not case['field']:
            return False
        os.remove(os.path.join(P, 'deformation', 'def.json'))
    return True


def failures(case, ctx):
    w, P, f = layout(case, ctx)
    _, sp, fl = case['runs'][0]
    path, cwd = spell(case, sp, w, P, f, 0)
    if not break_it(case, w, P, f, case['broken']):
        raise Skip('nothing to spoil')
    if case['broken'] == 'no parent' and sp['cwd'] == 'P/settings':
        cwd, path = w, f
    what = f'{case["broken"]}: {path!r} from {sp["cwd"]!r}'
    for how in ('cli', 'lib'):
        ok = False
        try:
            if how == 'cli':
                ok = cli([a for a in FLAGS[fl] if a not in ('-c', '--clean')] + ['--run', path], cwd) == 0
            else:
                with sim.chdir(cwd):
                    sim.standard_run(path)
                ok = True
        except Exception:
            # reported to the user as a failure
            pass
        require(not ok, f'{what}: the {how} run ended as a success')
        require(not outputs(P), f'{what}: the failed {how} run wrote {sorted(outputs(P))}')
    ctx.label(case['broken'])


# ----- whole processes -----

CLI_BAD = [['--clean'], ['--clean-only'], ['-c', '--make-example'], ['--run'], ['--nothing'], ['-v', '-q', '--run', '{f}'],
           ['--run', '{f}', '--make-example'], ['--clean', '--clean-only', '--run', '{f}'], ['--mdb', 'nosuch'], ['{f}']]


@st.composite
def process_cases(draw):
    c = draw(cases())
    c['runs'] = [['cli', draw(spelling()), draw(st.integers(0, len(FLAGS) - 1))]]
    c['what'] = draw(st.sampled_from(['good', 'good', 'good', 'broken', 'args', 'nothing', 'list']))
    c['broken'] = draw(st.sampled_from(BROKEN))
    c['args'] = draw(st.sampled_from(CLI_BAD))
    c['exe'] = draw(st.sampled_from(['pytornado', '_pytornado_exe.py']))
    return c


def process(args, cwd, exe='pytornado'):
    tree = os.environ['VK_TREE']
    script = os.path.join(tree, 'src', 'bin', exe)
    return subprocess.run([sys.executable, script] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=100)


def processes(case, ctx):
    w, P, f = layout(case, ctx)
    _, sp, fl = case['runs'][0]
    path, cwd = spell(case, sp, w, P, f, 0)
    if case['what'] == 'good':
        with sim.chdir(w):
            sim.standard_run(f)
        want = outputs(P)
        for sub in ('_results', '_plots'):
            shutil.rmtree(os.path.join(P, sub), ignore_errors=True)
        if sp['decoy'] and sp['cwd'] != 'root':
            decoys(case, cwd, ctx)
        before = snapshot(w)
        r = process(FLAGS[fl] + ['--run', path], cwd, case['exe'])
        require(r.returncode == 0, f'process {path!r} from {sp["cwd"]!r}: exit status {r.returncode}: {r.stdout[-1500:]}')
        got = outputs(P)
        require(sorted(got) == sorted(want), f'process wrote {sorted(got)}, not {sorted(want)}')
        for p in got:
            require(got[p] == want[p], f'process: {p} has other contents than the library run')
        gone, new, changed = diff(before, snapshot(w))
        rel = os.path.relpath(P, w)
        stray = [p for p in gone + new + changed if not (p == rel or p.startswith(rel + '/'))]
        require(not stray, f'process: effects outside the project: {stray}')
    elif case['what'] == 'broken':
        if not break_it(case, w, P, f, case['broken']):
            raise Skip('nothing to spoil')
        if case['broken'] == 'no parent' and sp['cwd'] == 'P/settings':
            cwd, path = w, f
        r = process([a for a in FLAGS[fl] if a not in ('-c', '--clean')] + ['--run', path], cwd, case['exe'])
        require(r.returncode != 0, f'{case["broken"]}: the process ended with status 0: {r.stdout[-800:]}')
        require(r.stdout.strip(), f'{case["broken"]}: the process failed without a message')
        require(not outputs(P), f'{case["broken"]}: the failed process wrote {sorted(outputs(P))}')
    elif case['what'] == 'args':
        before = snapshot(w)
        args = [a.replace('{f}', f) for a in case['args']]
        r = process(args, os.path.join(w, 'elsewhere'), case['exe'])
        require(r.returncode != 0, f'arguments {args}: exit status 0')
        gone, new, changed = diff(before, snapshot(w))
        require(not gone and not new and not changed, f'arguments {args} are wrong, yet removed {gone}, created {new}, changed {changed}')
    else:
        before = snapshot(w)
        r = process([] if case['what'] == 'nothing' else ['--ldb'], os.path.join(w, 'elsewhere'), case['exe'])
        require(r.returncode == 0, f'{case["what"]}: exit status {r.returncode}')
        if case['what'] == 'list':
            text = r.stdout.decode()
            db = os.path.join(os.environ['VK_TREE'], 'src/lib/pytornado/database/aircraft')
            for n in os.listdir(db):
                if n.endswith('.json'):
                    require(n[:-5] in text, f'{n} is not listed')
        gone, new, changed = diff(before, snapshot(w))
        require(not gone and not new and not changed, f'{case["what"]}: removed {gone}, created {new}, changed {changed}')
    ctx.label(case['what'])


SUBS = [Sub('places', cases(), places, 700, 12000, 'at least two entry points, spellings or directories'),
        Sub('failures', broken_cases(), failures, 350, 4000, 'an input file is missing or wrong'),
        Sub('processes', process_cases(), processes, 120, 1600, 'a process was run')]
