"""
Containment: deletions, renames and file creation outside the worker's scratch
directory are refused and recorded (the code under test can remove directory
trees).  The worker additionally runs as an unprivileged user whose only
writable place is that directory.
"""
import builtins
import os
import shutil
import sys

escapes = []
_root = None
_orig = {}


class Escape(BaseException):
    pass


def inside(path):
    try:
        p = os.path.realpath(os.fspath(path))
    except TypeError:
        return True      # file descriptor
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p == _root or p.startswith(_root + os.sep) or p.startswith('/dev/') or p.startswith('/proc/self/')


def check(op, path, dir_fd=None):
    if dir_fd is not None:
        return
    # the entry itself is removed, not what a symlink points at
    try:
        s = os.fspath(path)
        if isinstance(s, (str, bytes)):
            s = os.fsdecode(s)
            par = os.path.dirname(os.path.abspath(s))
            target = os.path.join(os.path.realpath(par), os.path.basename(s.rstrip('/')))
        else:
            return
    except TypeError:
        return
    if not (target == _root or target.startswith(_root + os.sep)):
        msg = f'{op} outside the scratch directory: {s}'
        escapes.append(msg)
        raise PermissionError(msg)


def install(root, tree):
    global _root
    _root = os.path.realpath(root)

    def wrap1(mod, name):
        orig = getattr(mod, name)
        _orig[name] = orig

        def f(path, *a, **k):
            check(name, path, k.get('dir_fd'))
            return orig(path, *a, **k)
        f.__name__ = name
        setattr(mod, name, f)

    for name in ('remove', 'unlink', 'rmdir', 'mkdir', 'truncate', 'chmod', 'chown'):
        wrap1(os, name)
    wrap1(shutil, 'rmtree')
    shutil.rmtree.avoids_symlink_attacks = True

    for name in ('rename', 'replace', 'link', 'symlink'):
        def mk(name):
            orig = getattr(os, name)

            def f(src, dst, *a, **k):
                if name in ('rename', 'replace'):
                    check(name, src, k.get('src_dir_fd'))
                check(name, dst, k.get('dst_dir_fd'))
                return orig(src, dst, *a, **k)
            setattr(os, name, f)
        mk(name)

    def audit(event, args):
        if event == 'open':
            path, mode, flags = args
            if isinstance(path, (str, bytes)) and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                if not inside(path):
                    msg = f'write to {path}'
                    escapes.append(msg)
                    raise PermissionError(msg)
        elif event in ('os.system', 'os.exec', 'os.kill', 'os.killpg'):
            if event in ('os.kill', 'os.killpg'):
                return
            escapes.append(f'{event} {args!r}')
    sys.addaudithook(audit)
