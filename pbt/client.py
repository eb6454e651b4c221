"""Talks to a worker process on the interpreter of the code under test."""
import json
import os
import select
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('KJ_PYTHON', '/opt/venv/bin/python')


class HarnessError(Exception):
    """Something is wrong with the machinery; never a violation."""


class Hang(Exception):
    """The code under test did not answer in time."""


class Died(Exception):
    """The process running the code under test ended."""


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Worker(object):
    def __init__(self):
        self.proc = None
        self.spawn()

    def spawn(self):
        self.close()
        self.cache = tempfile.mkdtemp(prefix='kjpyc-')
        env = {
            'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
            'HOME': os.environ.get('HOME', '/root'), 'TMPDIR': tempfile.gettempdir(),
            'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
            'TZ': 'UTC', 'PYTHONHASHSEED': '0', 'PYTHONIOENCODING': 'utf-8',
            'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1',
            # never read stale byte code of the tree under test
            'PYTHONPYCACHEPREFIX': self.cache,
            'PYTHONWARNINGS': 'ignore',
            'KJ_REPO': os.environ.get('KJ_REPO', '/repo'),
        }
        self.proc = subprocess.Popen(
            [PY, os.path.join(HERE, 'worker.py')], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=self.cache,
            preexec_fn=limit)
        self.buf = b''
        self.served = 0
        try:
            self.call([])
        except (Hang, Died) as e:
            raise HarnessError('the worker does not start: %s' % e)

    def close(self):
        if self.proc is not None:
            try:
                self.proc.kill()
                self.proc.wait(10)
            except Exception:
                pass
            for f in (self.proc.stdin, self.proc.stdout):
                try:
                    f.close()
                except Exception:
                    pass
            self.proc = None
            shutil.rmtree(self.cache, ignore_errors=True)

    def call(self, steps, timeout=40.0):
        """Run one script of steps; returns the list of results."""
        if self.proc is None:
            self.spawn()
        data = json.dumps({'steps': steps}).encode('utf-8') + b'\n'
        first = self.served == 0
        try:
            self.proc.stdin.write(data)
            self.proc.stdin.flush()
        except BrokenPipeError:
            self.close()
            raise Died('broken pipe')
        deadline = time.monotonic() + timeout + (60 if first else 0)
        fd = self.proc.stdout.fileno()
        while b'\n' not in self.buf:
            left = deadline - time.monotonic()
            if left <= 0:
                self.close()
                raise Hang('no answer within %g s' % timeout)
            r, _, _ = select.select([fd], [], [], left)
            if r:
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    self.close()
                    raise Died('end of output')
                self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        self.served += 1
        text = line.decode('utf-8', 'surrogatepass')
        resp = json.loads(text)
        if 'boot' in resp:
            raise HarnessError('kajiki does not import: ' + resp['boot'])
        if 'harness' in resp:
            raise HarnessError(resp['harness'])
        if 'fatal' in resp:
            raise HarnessError('worker step raised ' + resp['fatal'])
        d = resp.get('dir')
        if d:
            resp = json.loads(text.replace(json.dumps(d)[1:-1], '<DIR>'))
        return resp['results']
