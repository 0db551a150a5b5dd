"""C11: replacing the cache file"""
from ..api import *
import io as _io
import os as _os
import os.path as _osp


class EnvError(OSError):
    """A failure the environment may answer any call with"""


class EnvSignal(BaseException):
    """A signal arriving during a call"""


class Encoded:
    """The JSON text of an object"""
    def __init__(self, obj):
        self.obj = obj

    def __add__(self, o):
        return self if isinstance(o, str) and not o.strip() else Unsupported

    def _subst(self, sub):
        return self


class GhostFile:
    def __init__(self, fs, name):
        self.fs, self.name, self.closed, self.writes = fs, name, False, []

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is not None and issubclass(et, Signal):
            return False
        self.close()
        return False

    def write(self, x):
        # a buffered write: what is on disk is garbled until the file is closed
        self.fs.content[self.name] = 'partial'
        self.fs.step('write')
        self.writes.append(x)

    def flush(self):
        self.fs.step('flush')

    def fileno(self):
        return GhostFd(self)

    def close(self):
        if self.closed:
            return
        self.closed = True
        ws = [w for w in self.writes if not (isinstance(w, str) and not w.strip())]
        full = len(ws) == 1 and isinstance(ws[0], Encoded) and ws[0].obj is self.fs.obj
        self.fs.step('close')
        if self.writes or self.fs.content.get(self.name) == 'empty':
            self.fs.content[self.name] = 'full' if full else 'partial'
            self.fs.step('closed', may_fail=False)


class GhostFd:
    def __init__(self, f):
        self.f = f


class GhostFS:
    """The files: final path 'old' at first. Every call may fail, or be
    interrupted by a signal, before it has its effect (writes: part of it)."""
    def __init__(self, path, obj):
        self.path, self.obj = path, obj
        self.content = {path: 'old'}
        self.temps, self.n = [], 0

    def step(self, what, may_fail=True):
        """The state here is what a crash would leave"""
        prove('crash-safe: ' + what, self.content.get(self.path) in ('old', 'full'))
        if may_fail:
            eng = E()
            if eng.choose(what + ' fails'):
                if eng.choose(what + ' signal'):
                    raise EnvSignal(what)
                raise EnvError(what)

    # tempfile
    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        self.step('mkstemp')
        self.n += 1
        name = _osp.join(dir or '/elsewhere', '%s%d%s' % (prefix or 'tmp', self.n, suffix or ''))
        self.content[name] = 'empty'
        self.temps.append(name)
        return GhostFd(GhostFile(self, name)), name

    # builtins
    def open(self, file, mode='r', *a, **k):
        self.step('open')
        if isinstance(file, GhostFd):
            return file.f
        if 'w' in mode or 'x' in mode:
            if 'x' in mode and file in self.content:
                raise FileExistsError(file)
            if file not in self.content:
                self.temps.append(file)
            self.content[file] = 'empty' if file != self.path else 'partial'
            self.step('open for writing', may_fail=False)
            return GhostFile(self, file)
        raise OutOfSubset('open ' + mode)

    # os
    def replace(self, src, dst):
        self.step('replace')
        if src not in self.content:
            raise FileNotFoundError(src)
        self.content[dst] = self.content.pop(src)
        self.step('replaced', may_fail=False)

    def unlink(self, name):
        if name not in self.content:
            raise FileNotFoundError(name)
        del self.content[name]
        self.step('unlink', may_fail=False)

    def json_dump(self, obj, f, **kw):
        # not everything can be encoded
        f.fs.content[f.name] = 'partial'
        self.step('dump')
        if E().choose('cannot be encoded'):
            raise TypeError('not JSON serializable')
        f.writes.append(Encoded(obj))

    def json_dumps(self, obj, **kw):
        if E().choose('cannot be encoded'):
            raise TypeError('not JSON serializable')
        return Encoded(obj)


class Env:
    """A module of which only what is listed may be used"""
    def __init__(self, what, **k):
        self.__dict__.update(k)
        self._what = what

    def __getattr__(self, nm):
        raise OutOfSubset('%s.%s' % (self.__dict__.get('_what'), nm))


@contract('C11', 'run_files_map.atomic_dump', assumes=[
    'os.replace replaces the target atomically; a file is complete on disk once it was closed without error',
    'json.dump(obj, f) writes exactly the JSON text of obj or raises',
    'removing the temporary file does not fail; no signal arrives between the calls of atomic_dump (only during them)'])
def atomic_dump(eng):
    m = load('run_files_map')
    obj = object()
    # an absolute path, or a name in the working directory
    path = '/run/karabo_data_map.json' if eng.choose('absolute') else 'karabo_data_map.json'
    fs = GhostFS(path, obj)
    os_ = Env('os', replace=fs.replace, rename=fs.replace, unlink=fs.unlink, remove=fs.unlink, path=_osp,
              fdopen=fs.open, fspath=_os.fspath, getpid=lambda: 4711,
              fsync=lambda fd: fs.step('fsync'), close=lambda fd: fs.step('close fd', may_fail=False))
    new = dict(os=os_, json=Env('json', dump=fs.json_dump, dumps=fs.json_dumps), mkstemp=fs.mkstemp, open=fs.open,
               tempfile=Env('tempfile', mkstemp=fs.mkstemp))
    raised = None
    with patched(m, **new):
        try:
            m.atomic_dump(obj, path, indent=2)
        except Signal:
            raise
        except (Exception, EnvSignal) as e:
            import traceback
            check_genuine(e, traceback.extract_tb(e.__traceback__))
            raised = e
    final = fs.content.get(path)
    left = [t for t in fs.temps if t in fs.content and t != path]
    prove('old-or-complete', final in ('old', 'full'))
    prove('no-temporary-file', not left)
    if raised is None:
        prove('complete', final == 'full')
    else:
        prove('failure-is-of-a-call', isinstance(raised, (EnvError, EnvSignal, TypeError)))
