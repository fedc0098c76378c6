"""Project commands (analyse, clean, make an example) touch only what they promise; nothing existing is lost."""
import contextlib
import copy
import importlib.util
import io as pyio
import json
import os
import shutil
import sys
import numpy as np
from hypothesis import strategies as st

from vk import gen, sim
from vk.checks import c14, c16
from vk.core import Sub, require

STD = ('aircraft', 'airfoils', 'deformation', 'settings', 'state', '_plots', '_results')
DB = ('NASA_CRM', 'boxwing', 'bwb', 'd150', 'optimale')

# places a user may have put own files, relative to the workspace; P is the project
SPOTS = ['P/notes.txt', 'P/_results/old.txt', 'P/_results/run_000/own.txt', 'P/_results/run_007/global.json', 'P/_plots/fig.pdf',
         'P/_plots/run_000/fig.png', 'P/results/keep.txt', 'P/_results.txt', 'P/_results_old/keep.txt', 'P/_plots2/keep.txt',
         'P/aircraft/_results/keep.txt', 'P/settings/_plots/keep.txt', 'P/aircraft/other.json', 'P/airfoils/foil.dat',
         'P/state/other.json', 'P/deformation/d.json', 'P/log.txt', '_results/keep.txt', '_plots/keep.txt', 'other/keep.txt',
         'pytornado/keep.txt', 'pytornado', 'Pytornado/keep.txt', 'P/_results/.hidden', 'settings/run.json', 'P/_results/deep/a/b/c.txt']
FOLDERS = ['P/_empty', 'P/_results_old', 'P/_', 'P/results', 'P/aircraft/_plots', '_empty', 'P/_results/empty', 'P/_plots/run_000', 'P/__pycache__',
           'P/tmp', '_results', 'pytornado']
LINKS = [('P/_results/link', 'other'), ('P/_plots/link', 'other/keep.txt'), ('P/link', 'other'), ('P/_results/run_000/dangling', 'nowhere'),
         ('pytornado', 'nowhere'), ('pytornado', 'other')]


@st.composite
def cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(['put', 'put', 'folder', 'link', 'run', 'clean-only', 'clean', 'example', 'mdb', 'bad mdb', 'run2', 'list', 'bare']))
        if kind == 'put':
            ops.append(['put', draw(st.sampled_from(SPOTS))])
        elif kind == 'folder':
            ops.append(['folder', draw(st.sampled_from(FOLDERS))])
        elif kind == 'link':
            ops.append(['link', draw(st.integers(0, len(LINKS) - 1))])
        elif kind == 'mdb':
            ops.append(['mdb', draw(st.sampled_from(DB)), draw(st.sampled_from(['', '.json', 'dir/']))])
        elif kind == 'list':
            ops.append(['list', draw(st.sampled_from(['--ldb', '--list-example-from-db']))])
        elif kind == 'bare':
            ops.append(['bare', draw(st.lists(st.sampled_from(['-c', '--clean', '--clean-only', '-v', '-d', '-q']), max_size=2, unique=True))])
        elif kind == 'bad mdb':
            ops.append(['bad mdb', draw(st.sampled_from(['nothing', '', 'D150', '*', 'd15?', '__init__', 'd150x']))])
        else:
            ops.append([kind, draw(st.sampled_from(['abs', 'rel', 'in']))])
    return dict(ops=ops, save={k: draw(st.booleans()) for k in ('global', 'panelwise', 'aeroperformance', 'matrix_system')},
                other_save=draw(st.booleans()))


def snapshot(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = ('link', os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ('dir', None)
            else:
                with open(p, 'rb') as fp:
                    out[r] = ('file', fp.read())
    return out


_main = []


def main_function():
    if not _main:
        path = os.path.join(os.environ['VK_TREE'], 'src', 'bin', '_pytornado_exe.py')
        spec = importlib.util.spec_from_file_location('_vk_pytornado_exe', path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        _main.append(mod.main)
    return _main[0]


said = ['']


def cli(args, cwd):
    """Run the command line in this process; returns the exit status (what it printed: said[0])"""
    old = sys.argv
    sys.argv = ['pytornado'] + list(args)
    out = pyio.StringIO()
    try:
        with sim.chdir(cwd), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            main_function()()
        return 0
    except SystemExit as e:
        return 0 if e.code is None else e.code
    finally:
        sys.argv = old
        said[0] = out.getvalue()
        sim.reset_logging()


def under(p, top):
    return p == top or p.startswith(top + '/')


def diff(before, after):
    gone = sorted(p for p in before if p not in after)
    new = sorted(p for p in after if p not in before)
    changed = sorted(p for p in before if p in after and before[p] != after[p])
    return gone, new, changed


def check_clean(before, after, what):
    for top in ('P/_results', 'P/_plots'):
        left = [p for p in after if under(p, top)]
        require(not left, f'{what}: {left} was left')
    gone, new, changed = diff(before, after)
    gone = [p for p in gone if not (under(p, 'P/_results') or under(p, 'P/_plots'))]
    new = [p for p in new if not (p in ['P/' + s for s in STD] and after[p][0] == 'dir')]
    require(not gone and not new and not changed, f'{what}: also removed {gone}, created {new}, changed {changed}')


def check_run(before, after, name, what):
    gone, new, changed = diff(before, after)
    require(not gone, f'{what}: removed {gone}')

    def output(p):
        return (p == 'P/log.txt' or any(p == 'P/' + s for s in STD) or under(p, f'P/_results/{name}_000')
                or under(p, f'P/_plots/{name}_000') or p == f'P/_results/{name}_aeroperformance.json')
    stray = [p for p in new + changed if not output(p)]
    require(not stray, f'{what}: created or changed {stray}')
    own = [p for p in changed if os.path.basename(p) in ('own.txt', 'fig.png')]
    require(not own, f'{what}: changed {own}')


def history(case, ctx):
    w = sim.fresh_dir(ctx, 'work')
    P = os.path.join(w, 'P')
    f = sim.write_project(P, c14.AC, sim.AERO0, sim.make_settings(save_results=case['save']), name='run')
    f2 = sim.write_project(P, c14.AC, sim.AERO0, sim.make_settings(save_results={'global': case['other_save']}), name='two')
    os.makedirs(os.path.join(w, 'other'))
    for n in ('keep.txt', 'more.txt'):
        with open(os.path.join(w, 'other', n), 'w') as fp:
            fp.write('precious ' + n)
    spell = dict(abs=(lambda p: (p, w)), rel=(lambda p: (os.path.relpath(p, w), w)),
                 **{'in': (lambda p: (os.path.relpath(p, os.path.join(P, 'settings')), os.path.join(P, 'settings')))})
    did = set()
    for k, op in enumerate(case['ops']):
        before = snapshot(w)
        what = f'step {k}: {op}'
        if op[0] == 'put':
            p = os.path.join(w, op[1])
            try:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if not os.path.lexists(p) and not os.path.isdir(p):
                    with open(p, 'w') as fp:
                        fp.write(f'written by the user at {k}')
            except (NotADirectoryError, FileExistsError):
                pass
            continue
        if op[0] == 'folder':
            try:
                os.makedirs(os.path.join(w, op[1]), exist_ok=True)
            except (NotADirectoryError, FileExistsError):
                pass
            continue
        if op[0] == 'link':
            src, dst = LINKS[op[1]]
            p = os.path.join(w, src)
            try:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            except (FileExistsError, NotADirectoryError):
                continue
            if not os.path.lexists(p):
                os.symlink(os.path.join(w, dst), p)
            continue
        if op[0] == 'list':
            rc = cli([op[1]], w)
            require(rc == 0, f'{what}: exit status {rc}')
            gone, new, changed = diff(before, snapshot(w))
            require(not gone and not new and not changed, f'{what}: removed {gone}, created {new}, changed {changed}')
            check_list(said[0], what)
            did.add('list')
            continue
        if op[0] == 'bare':
            # no project is named: nothing can be cleaned or analysed
            try:
                rc = cli(op[1], w)
            except RuntimeError:
                rc = 1
            gone, new, changed = diff(before, snapshot(w))
            require(not gone and not new and not changed, f'{what}: removed {gone}, created {new}, changed {changed}')
            if any(a.lstrip('-').startswith('c') for a in op[1]):
                require(rc not in (0, None), f'{what}: exit status {rc} although no project is named')
            did.add('bare')
            continue
        if op[0] in ('run', 'run2', 'clean', 'clean-only'):
            path, cwd = spell[op[1]](f2 if op[0] == 'run2' else f)
            args = ['-q', '--run', path] + ([f'--{op[0]}'] if op[0].startswith('clean') else [])
            rc = cli(args, cwd)
            require(rc == 0, f'{what}: exit status {rc}')
            after = snapshot(w)
            if op[0] == 'clean-only':
                check_clean(before, after, what)
            elif op[0] == 'clean':
                mid = {p: v for p, v in before.items() if not (under(p, 'P/_results') or under(p, 'P/_plots'))}
                check_run(mid, after, 'run', what)
            else:
                check_run(before, after, 'two' if op[0] == 'run2' else 'run', what)
        else:
            there = os.path.lexists(os.path.join(w, 'pytornado'))
            if op[0] == 'example':
                args = ['--make-example']
            elif op[0] == 'mdb':
                args = ['--mdb', {'': '', '.json': '', 'dir/': 'dir/'}[op[2]] + op[1] + ('.json' if op[2] == '.json' else '')]
            else:
                args = ['--mdb', op[1]]
            try:
                rc = cli(args, w)
            except FileExistsError:
                rc = 1
            after = snapshot(w)
            gone, new, changed = diff(before, after)
            if there or op[0] == 'bad mdb':
                require(rc not in (0, None), f'{what}: exit status {rc} although nothing can be created')
                if op[0] == 'bad mdb':
                    check_list(said[0], what)
                require(not gone and not new and not changed, f'{what}: refused, but removed {gone}, created {new}, changed {changed}')
                did.add('refused')
                continue
            require(rc == 0, f'{what}: exit status {rc}')
            require(not gone and not changed, f'{what}: removed {gone}, changed {changed}')
            stray = [p for p in new if not under(p, 'pytornado')]
            require(not stray, f'{what}: created {stray}')
            example(os.path.join(w, 'pytornado'), op[1] if op[0] == 'mdb' else None, what)
            did.add('created')
        did.add(op[0])
    ctx.label(*did)
    ctx.nontrivial(bool(did))


def check_list(text, what):
    """Every aircraft of the database is named once, and nothing else is offered"""
    db = os.path.join(os.environ['VK_TREE'], 'src/lib/pytornado/database/aircraft')
    names = sorted(n[:-5] for n in os.listdir(db) if n.endswith('.json'))
    got = sorted(line.strip().lstrip('*').split()[0] for line in text.splitlines() if line.strip().startswith('*'))
    require(got == names, f'{what}: offers {got}, the database has {names}')


def example(d, name, what):
    """The new project is complete: it can be analysed as it is"""
    sfile = os.path.join(d, 'settings', f'{name or "template"}.json')
    settings = sim.read_json(sfile)
    for k in ('aircraft', 'airfoils', 'deformation', 'settings', 'state', '_plots', '_results'):
        require(os.path.isdir(os.path.join(d, k)), f'{what}: no folder {k}')
    acfile = os.path.join(d, 'aircraft', settings['aircraft'])
    require(os.path.isfile(acfile), f'{what}: no aircraft file')
    require(os.path.isfile(os.path.join(d, 'state', settings['state'])), f'{what}: no state file')
    if name:
        src = sim.read_json(os.path.join(os.environ['VK_TREE'], 'src/lib/pytornado/database/aircraft', name + '.json'))
        a, b = c16.norm(sim.read_json(acfile)), c16.norm(src)
        a['refs'].pop('comment', None)
        b['refs'].pop('comment', None)
        require(a == b, f'{what}: the aircraft is not the one of the database')
    # a coarse mesh: only that the project is complete matters here
    settings['vlm_autopanels_s'], settings['vlm_autopanels_c'] = 2, 1
    for p in settings['plot'].values():
        p['show'] = False
    coarse = os.path.join(d, 'settings', 'vk_coarse.json')
    sim.write_json(coarse, settings)
    if name is None:
        r = sim.standard_run(coarse)
        require(np.isfinite(r['vlmdata'].coeffs['L']), f'{what}: no finite lift')
    else:
        s, ac, stt = sim.load_project(coarse)
        require(len(rows(stt)) == 1, f'{what}: number of flight states')
    os.remove(coarse)


def rows(state):
    return list(state.iter_states())


SUBS = [Sub('history', cases(), history, 1600, 30000, 'at least one command was run')]
