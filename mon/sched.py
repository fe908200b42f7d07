"""Perturbing the schedule of threads inside the code under test."""
import collections
import random
import sys
import threading
import time

from mon.core import CODE


def run_threads(functions, seed, rate=0.15, only=CODE):
    """Runs each function in a thread; returns (results, errors, trace).

    A trace function gives up the interpreter at random lines of the code
    under test, so that threads interleave in the middle of its operations.
    The trace lists the threads in the order in which they passed there.
    """
    trace = []
    results = [None] * len(functions)
    errors = [None] * len(functions)
    barrier = threading.Barrier(len(functions))
    old = sys.getswitchinterval()

    def body(k, f):
        rng = random.Random('%s/%s' % (seed, k))

        def line(frame, event, arg):
            if event == 'line' and rng.random() < rate:
                trace.append((k, frame.f_lineno))
                time.sleep(0 if rng.random() < 0.9 else 1e-5)
            return line

        def call(frame, event, arg):
            if frame.f_code.co_filename.startswith(only):
                return line
            return None
        barrier.wait()
        sys.settrace(call)
        try:
            results[k] = f()
        except BaseException as e:
            errors[k] = e
        finally:
            sys.settrace(None)

    threads = [threading.Thread(target=body, args=(k, f), daemon=True)
               for k, f in enumerate(functions)]
    sys.setswitchinterval(1e-5)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(60)
            if t.is_alive():
                raise TimeoutError('a thread does not end')
    finally:
        sys.setswitchinterval(old)
    return results, errors, trace


def switches(trace):
    """How often another thread went on."""
    return sum(1 for a, b in zip(trace, trace[1:]) if a[0] != b[0])
