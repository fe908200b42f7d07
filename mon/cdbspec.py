"""The cdb format as published (http://cr.yp.to/cdb/cdb.txt), written without
looking at the code under test: a writer, a reader and colliding keys."""


def number(b, at):
    return int.from_bytes(b[at:at + 4], 'little')


def pack(n):
    return n.to_bytes(4, 'little')


def hash_of(key):
    h = 5381
    for c in key:
        h = (h * 33 % 2**32) ^ c
    return h


def write(pairs, slots=lambda n: 2 * n):
    """The bytes of a database; a table for n records has slots(n) slots."""
    out = bytearray(2048)
    tables = [[] for _ in range(256)]
    for k, v in pairs:
        h = hash_of(k)
        tables[h % 256].append((h, len(out)))
        out += pack(len(k)) + pack(len(v)) + k + v
    for i, entries in enumerate(tables):
        n = slots(len(entries)) if entries else 0
        assert n >= len(entries)
        out[8 * i:8 * i + 8] = pack(len(out)) + pack(n)
        table = [(0, 0)] * n
        for h, p in entries:
            s = h // 256 % n
            while table[s][1]:
                s = (s + 1) % n
            table[s] = (h, p)
        for h, p in table:
            out += pack(h) + pack(p)
    return bytes(out)


class Bad(Exception):
    pass


def records(b):
    """The records in order, with their positions."""
    end = min((number(b, 8 * i) for i in range(256)), default=len(b))
    at, out = 2048, []
    while at < end:
        klen, vlen = number(b, at), number(b, at + 4)
        if at + 8 + klen + vlen > end:
            raise Bad('a record does not end before the tables')
        out.append((b[at + 8:at + 8 + klen], b[at + 8 + klen:at + 8 + klen + vlen], at))
        at += 8 + klen + vlen
    if at != end:
        raise Bad('the records do not end where the tables begin')
    return out


def lookup(b, key):
    """All values of the key, in the order in which a reader finds them."""
    h = hash_of(key)
    pos, n = number(b, h % 256 * 8), number(b, h % 256 * 8 + 4)
    if not n:
        return
    if pos + 8 * n > len(b):
        raise Bad('a table is outside the file')
    s = h // 256 % n
    for _ in range(n):
        sh, p = number(b, pos + 8 * s), number(b, pos + 8 * s + 4)
        if not p:
            return
        if sh == h:
            klen, vlen = number(b, p), number(b, p + 4)
            if b[p + 8:p + 8 + klen] == key and klen == len(key):
                yield b[p + 8 + klen:p + 8 + klen + vlen]
        s = (s + 1) % n


def endings(rng, prefix, n=3):
    """Different endings that give the same hash after the prefix."""
    seen = {}
    while True:
        e = rng.randbytes(3)
        group = seen.setdefault(hash_of(prefix + e), set())
        group.add(e)
        if len(group) >= n:
            return sorted(group)


def colliding(rng, n):
    """Up to 27 different keys with the same hash."""
    keys = [rng.randbytes(rng.randrange(0, 6))]
    while len(keys) < n:
        more = endings(rng, keys[0])
        keys = [k + e for k in keys for e in more]
    return keys[:n]


def same_table(rng, n, slot=None, slots=None):
    """Keys whose records are in one table (and, of so many slots, one slot)."""
    out, table = set(), rng.randrange(256)
    while len(out) < n:
        k = b'%d' % rng.randrange(10**9)
        h = hash_of(k)
        if h % 256 == table and (slot is None or h // 256 % slots == slot):
            out.add(k)
    return sorted(out)
