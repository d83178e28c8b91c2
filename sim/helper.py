"""Processes of their own, with an environment of their own (hash seed, address
space, locale, time zone, working directory), for checks that compare whole
runs between processes.  One helper imports BayesPy once and forks a fresh
child for every run."""

import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_mono = time.monotonic
WALL = 400


class Helper:

    def __init__(self, env, check):
        e = dict(os.environ)
        e.update(env)
        e['VERIF_INNER'] = '1'
        cmd = [sys.executable, '-W', 'ignore', os.path.abspath(__file__), check]
        if shutil.which('setarch') and subprocess.run(['setarch', '-R', 'true'], capture_output=True).returncode == 0:
            cmd = ['setarch', '-R'] + cmd
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, cwd='/')

    def ask(self, what):
        """Send a request; the answer is read by `answer`."""
        self.p.stdin.write((json.dumps(what) + '\n').encode())
        self.p.stdin.flush()

    def answer(self):
        t0 = _mono()
        (r, _, _) = select.select([self.p.stdout], [], [], WALL)
        if not r:
            self.p.kill()
            return dict(error='no answer within %d s' % WALL)
        line = self.p.stdout.readline()
        if not line:
            return dict(error='the helper died')
        return json.loads(line)


_helpers = {}


def helper(key, env, check):
    """The helper with this environment (started on first use, per process)."""
    k = (os.getpid(), key, check)
    h = _helpers.get(k)
    if h is None or h.p.poll() is not None:
        h = _helpers[k] = Helper(env, check)
    return h


def serve(check):
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    from sim import core
    mod = core.load(check)
    import bayespy.inference, bayespy.nodes, bayespy.inference.vmp.transformations       # noqa: F401,E401
    mod.warm()
    import signal
    for line in sys.stdin:
        req = json.loads(line)
        d = tempfile.mkdtemp(prefix='vsim-')
        (a, b) = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(a)
            sys.stdin.close()
            out.close()
            try:
                signal.signal(signal.SIGPROF, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_PROF, req.get('limit', 100))
                r = dict(result=mod.remote(req, d))
            except BaseException:
                import traceback
                r = dict(error=traceback.format_exc())
            with os.fdopen(b, 'wb') as f:
                f.write(core.dumps(r).encode())
                f.flush()
            os.kill(os.getpid(), signal.SIGKILL)
        os.close(b)
        with os.fdopen(a, 'rb') as f:
            data = f.read()
        (_, st) = os.waitpid(pid, 0)
        shutil.rmtree(d, ignore_errors=True)
        if not data:
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
            data = json.dumps(dict(died='signal %d' % sig)).encode()
        out.write(data + b'\n')
        out.flush()


if __name__ == '__main__':
    serve(sys.argv[1])
