"""Compiling generated trees against /repo and running command batches on them."""
import os
import resource
import signal
import subprocess
import tempfile
import shutil
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = 'clang++'
BASE = ['-std=c++20', '-O0', '-Wno-everything', '-D_GLIBCXX_ASSERTIONS', '-I' + REPO + '/include',
        '-I' + HERE + '/cpp', '-ferror-limit=5', '-ftemplate-backtrace-limit=6']
JOBS = max(2, min(8, os.cpu_count() or 2))


def limit_mem(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2**30), int(gb * 2**30)))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    return f


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def run(cmd, timeout, inp=None, mem=None, cwd=None, env=None):
    """-> (rc, stdout bytes, stderr bytes); rc None on timeout"""
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=limit_mem(mem) if mem else os.setsid)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        _kill(p)
        o, e = p.communicate()
        return None, o, e


class CompileError(Exception):
    def __init__(self, text):
        Exception.__init__(self, text[:4000])
        self.text = text


def compile_cmd(cmd, timeout=400):
    """Runs a compiler; a kill from outside (memory pressure, timeout) is retried once"""
    for attempt in range(3):
        rc, o, e = run(cmd, timeout)
        if rc == 0:
            return
        if rc is None or rc < 0 or b'unable to execute command' in e or b'Killed' in e:
            time.sleep(1 + attempt)
            continue
        raise CompileError((o + e).decode('utf-8', 'replace'))
    raise RuntimeError('compiler could not be run to completion: ' + ' '.join(cmd)[:300])


class Build:
    """A scratch build directory with a precompiled header and the server main"""

    def __init__(self, flags=(), std=None, main='rt_main.cpp', hdr='rt.hpp', tag='b', cxx=None):
        self.cxx = cxx or CXX
        self.dir = tempfile.mkdtemp(prefix='arv_')
        self.base = list(BASE)
        if std:
            self.base[0] = '-std=' + std
        self.flags = list(flags)
        self.gcc = 'clang' not in self.cxx
        if self.gcc:
            self.base = [x for x in self.base if not x.startswith(('-ferror', '-ftemplate-back', '-Wno-every'))] + ['-w', '-fmax-errors=5']
        self.pch = self.dir + '/rt.pch'
        self.main = self.dir + '/main.o'
        self.hdr = hdr
        self.mainsrc = main
        self.ready = False

    def prepare(self):
        if self.ready:
            return
        if self.gcc:
            # found next to the header of that name, which is empty
            with open(self.dir + '/pre.hpp', 'w') as f:
                f.write('#include "%s"\n' % self.hdr)
            compile_cmd([self.cxx] + self.base + self.flags + ['-x', 'c++-header', self.dir + '/pre.hpp', '-o', self.dir + '/pre.hpp.gch'])
            self.inc = ['-include', self.dir + '/pre.hpp']
        else:
            # the PCH carries everything of the library that does not depend on a tree
            compile_cmd([self.cxx] + self.base + self.flags + ['-fpch-instantiate-templates', '-x', 'c++-header',
                                                               HERE + '/cpp/' + self.hdr, '-o', self.pch])
            self.inc = ['-include-pch', self.pch]
        compile_cmd([self.cxx] + self.base + self.flags + self.inc + ['-c', HERE + '/cpp/' + self.mainsrc, '-o', self.main])
        self.ready = True

    def compile_tu(self, name, src):
        """src text -> executable path"""
        cpp = '%s/%s.cpp' % (self.dir, name)
        with open(cpp, 'w') as f:
            f.write(src)
        obj, exe = cpp[:-3] + 'o', cpp[:-4]
        compile_cmd([self.cxx] + self.base + self.flags + self.inc + ['-c', cpp, '-o', obj])
        compile_cmd([self.cxx] + self.flags + [self.main, obj, '-o', exe])
        os.unlink(obj)
        return exe

    def syntax(self, name, src, extra=()):
        """-> None if accepted, else the diagnostics"""
        cpp = '%s/%s.cpp' % (self.dir, name)
        with open(cpp, 'w') as f:
            f.write(src)
        try:
            compile_cmd([self.cxx] + self.base + self.flags + self.inc + ['-fsyntax-only', cpp] + list(extra))
            return None
        except CompileError as e:
            return e.text
        finally:
            os.unlink(cpp)

    def compile_many(self, items):
        """items: {name: src} -> {name: exe or CompileError}"""
        self.prepare()

        def one(kv):
            try:
                return kv[0], self.compile_tu(*kv)
            except CompileError as e:
                return kv[0], e
        with ThreadPoolExecutor(JOBS) as ex:
            return dict(ex.map(one, items.items()))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def enc_args(argv):
    out = []
    for a in argv:
        b = a if isinstance(a, bytes) else a.encode('utf-8', 'surrogateescape')
        out.append('x' + b.hex())
    return ' '.join(out)


def cmdF(mask, argv, how=0):
    return 'F %d %d %s' % (mask, how, enc_args(argv))


def batch(exe, cmds, timeout=60, mem=4, env=None, maxcrash=5):
    """Runs all commands; -> list of response strings ('CRASH rc' / 'HANG' where the process died)"""
    out = []
    crashes = 0
    i = 0
    while i < len(cmds):
        rc, o, e = run([exe], timeout, ('\n'.join(cmds[i:]) + '\n').encode(), mem=mem, env=env)
        lines = o.decode('utf-8', 'replace').split('\n')
        lines = lines[:-1] if lines and lines[-1] == '' else lines[:-1] if rc != 0 else lines
        out += lines[:len(cmds) - i]
        i = len(out)
        if i < len(cmds):
            crashes += 1
            out.append('HANG' if rc is None else 'CRASH %s %s' % (rc, e.decode('utf-8', 'replace')[-300:].replace('\n', ' ')))
            i += 1
            if crashes >= maxcrash:
                out += ['NOTRUN'] * (len(cmds) - i)
                break
    return out
