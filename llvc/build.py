"""compile a translation unit of /verif/tu (or of /repo/src) to LLVM IR from the current working tree"""
import os, subprocess, hashlib, sys
from .irparse import Module
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
FLAGS = ['-std=c++11', '-DLINUX', '-DUSE_GDAL', '-DNDEBUG', '-DUNITTEST', '-I' + REPO, '-I' + REPO + '/src', '-isystem', '/usr/include/gdal',
         '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g', '-S', '-emit-llvm', '-w']


class BuildError(Exception):
    pass


def scratch():
    d = os.environ.get('LLVC_SCRATCH')
    if not d:
        import tempfile, atexit, shutil
        d = tempfile.mkdtemp(prefix='llvc.')
        os.environ['LLVC_SCRATCH'] = d
        pid = os.getpid()
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True) if os.getpid() == pid else None)
    return d


def source_of(tu):
    p = os.path.join(VERIF, 'tu', tu)
    return p if os.path.exists(p) else os.path.join(REPO, 'src', tu)


def compile_ll(tu, extra=()):
    out = os.path.join(scratch(), tu.replace('/', '_') + '-' + hashlib.md5(' '.join(extra).encode()).hexdigest()[:6] + '.ll')
    if os.path.exists(out): return out
    cmd = [CLANG] + FLAGS + list(extra) + ['-o', out + '.tmp', source_of(tu)]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
    os.rename(out + '.tmp', out)
    return out


_mods = {}


def module(tu, extra=()):
    k = (tu, tuple(extra))
    if k not in _mods:
        _mods[k] = Module(open(compile_ll(tu, extra)).read())
    return _mods[k]
