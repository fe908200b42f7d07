"""What is in a database, as another process finds it."""
import os

from mon.model import record
from mon.stores import close_store, open_store

STATE_KEY = 'saved state'


def as_key(kind, token):
    """The key under which a token is expected in a listing of the database."""
    if kind in ('dbm', 'cdb') and isinstance(token, bytes):
        return token.decode('latin-1')
    return token


def keys_of(kind, c, expected=()):
    if kind == 'dbm':
        # The listing of dbm.ndbm stops at an empty key: it may lack keys, so
        # those expected are also looked up.
        listed = set(c.db.keys()) - {STATE_KEY}
        return listed | {k for k in expected if k in c.db}
    return set(c.wordinfo)


def audit(kind, c, ledger, complete=True, extra=()):
    """The differences between an open classifier and the ledger."""
    bad = []
    if (c.nspam, c.nham) != (ledger.nspam, ledger.nham):
        bad.append('totals (spam, ham) %r, expected %r'
                   % ((c.nspam, c.nham), (ledger.nspam, ledger.nham)))
    if complete:
        want = {as_key(kind, t) for t in ledger.table()}
        got = keys_of(kind, c, want)
        if got != want:
            bad.append('surplus %r, missing %r' % (sorted(map(repr, got - want))[:4],
                                                   sorted(map(repr, want - got))[:4]))
    for t in ledger.universe | set(extra):
        if record(c, t) != ledger.counts(t):
            bad.append('%r has (spam, ham) %r, expected %r' % (t, record(c, t), ledger.counts(t)))
            if len(bad) > 4:
                break
    return bad


def audit_file(kind, path, ledger, extra=()):
    c = open_store(kind, path)
    try:
        return audit(kind, c, ledger, extra=extra)
    finally:
        close_store(c)


def remove_locks(path):
    """Removes locks that a killed process left behind (a known finding)."""
    n = 0
    directory, name = os.path.split(path)
    for f in os.listdir(directory):
        if f == name + '.lock':
            os.remove(os.path.join(directory, f))
            n += 1
    return n
