"""Stand-ins that are met however the code under test names what they replace."""
import datetime
import os
import sys
import time


def replace(owner, name, new):
    """Puts `new` in the place of owner.name, also where a module of the code has imported it by name."""
    old = getattr(owner, name)
    places = [(owner, name)]
    for module in [m for n, m in sys.modules.items() if n.split('.')[0] == 'sbclassifier']:
        places += [(module, n) for n, v in vars(module).items() if v is old]
    for o, n in places:
        setattr(o, n, new)

    def undo():
        for o, n in places:
            setattr(o, n, old)
    return undo


class Entry:
    """An entry of a directory, with the times of the stand-in."""

    def __init__(self, real, stat):
        self._real, self._stat = real, stat

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __fspath__(self):
        return self._real.path

    def stat(self, *, follow_symlinks=True):
        return self._stat(self._real.path, follow_symlinks=follow_symlinks)


class Listing:
    def __init__(self, real, stat):
        self._real, self._stat = real, stat

    def __iter__(self):
        return self

    def __next__(self):
        return Entry(next(self._real), self._stat)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def close(self):
        self._real.close()


def clock(now, stat):
    """Makes now() the time, and stat(path, real, ...) that of files; returns what undoes it."""
    real_stat, real_scandir, real_datetime = os.stat, os.scandir, datetime.datetime

    def new_stat(path, *args, **kw):
        return stat(real_stat, path, *args, **kw)

    class Now(real_datetime):
        @classmethod
        def now(cls, tz=None):
            return real_datetime.fromtimestamp(now(), tz)

        @classmethod
        def utcnow(cls):
            return real_datetime.fromtimestamp(now(), datetime.timezone.utc).replace(tzinfo=None)
    undo = [replace(time, 'time', now),
            replace(time, 'time_ns', lambda: int(now() * 10**9)),
            replace(os, 'stat', new_stat),
            replace(os, 'lstat', lambda path, **kw: new_stat(path, follow_symlinks=False, **kw)),
            replace(os, 'scandir', lambda path='.': Listing(real_scandir(path), new_stat)),
            replace(datetime, 'datetime', Now)]

    def all_of_it():
        for f in reversed(undo):
            f()
    return all_of_it
