"""Child processes of a case."""
import os
import pickle
import select
import signal
import sys
import time

from mon.core import HarnessError, Violation, unusable


class Child:
    """Runs a function in a forked process.

    The function gets a send function; whatever it sends arrives in `messages`.
    """

    def __init__(self, function):
        self.r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            os.close(self.r)

            def send(x):
                data = pickle.dumps(x)
                data = len(data).to_bytes(4, 'big') + data
                while data:
                    data = data[os.write(w, data):]
            try:
                send(('result', function(send)))
            except BaseException as e:
                import traceback
                from mon.core import through_code
                send(('error', type(e).__name__, str(e)[:500], through_code(e),
                      isinstance(e, Violation), traceback.format_exc()[-3000:]))
            finally:
                os._exit(0)
        os.close(w)
        self.messages = []
        self.status = None

    def wait(self, timeout=120):
        """Reads to the end; returns the messages."""
        data = b''
        end = time.time() + timeout
        try:
            while True:
                left = end - time.time()
                if left <= 0 or not select.select([self.r], [], [], left)[0]:
                    os.kill(self.pid, signal.SIGKILL)
                    os.waitpid(self.pid, 0)
                    raise Violation('a process does not end')
                chunk = os.read(self.r, 1 << 16)
                if not chunk:
                    break
                data += chunk
        finally:
            os.close(self.r)
        _, self.status = os.waitpid(self.pid, 0)
        while len(data) >= 4:
            n = int.from_bytes(data[:4], 'big')
            if len(data) < 4 + n:
                break
            self.messages.append(pickle.loads(data[4:4 + n]))
            data = data[4 + n:]
        return self.messages

    @property
    def killed(self):
        return os.WIFSIGNALED(self.status) and os.WTERMSIG(self.status) == signal.SIGKILL

    def error(self):
        for m in self.messages:
            if isinstance(m, tuple) and m and m[0] == 'error':
                return m
        return None

    def judge(self):
        """Raises if the function failed; returns its result, if any."""
        e = self.error()
        if e is not None:
            if e[3] or e[4] or unusable(e[1], e[2]):
                raise Violation('in another process: %s: %s\n%s' % (e[1], e[2], e[5]))
            raise HarnessError('in another process: %s: %s\n%s' % (e[1], e[2], e[5]))
        for m in self.messages:
            if isinstance(m, tuple) and m and m[0] == 'result':
                return m[1]
        return None


def kill_self():
    os.kill(os.getpid(), signal.SIGKILL)
    time.sleep(60)
