"""B01: a constant database returns exactly what was put into it."""
import struct

from sbclassifier.cdb import Cdb, cdb_hash, cdb_make

from mon import cdbspec

LEVEL = 'exploration'
RULE = ('Pairs of text or bytes (empty, binary, non-ASCII, long, repeated keys, up to 27 keys with the same hash, keys that share '
        'a table or a slot so that probing wraps around, prefixes of each other (also with the same hash), up to 3000 pairs; in stream "large" up to 25000 pairs, tables of a thousand and more slots, keys and values of hundreds of kilobytes and hundreds of keys with the same hash) are written by cdb_make from a list, '
        'an iterator or a dictionary, and read by Cdb and by an independent reader of the published format; '
        'the same pairs written by an independent writer (with tables from as full as possible to very sparse) are read by '
        'Cdb. Every key must have the value given first and, searching on, the later ones in order; keys that were '
        'not given must have none; iteration in every form must yield the pairs in order, also while looking up. '
        'Stream "hash": the hash function on its own. Non-trivial: three or more pairs; distinct by content.')
ASSUMPTIONS = ['files of less than 4 GB']
NEED = {'searched at once': 200, 'long tables': 2, 'beginnings with the same hash': 80, 'large databases': 12, 'databases': 500, 'repeated keys': 300, 'colliding keys': 300, 'wrapped': 50, 'empty': 10, 'lookups': 20000,
        'absent keys': 10000, 'own files': 250, 'foreign files': 250, 'full tables': 30, 'hashes': 2000,
        'extreme hashes': 80}

# Keys with the extreme hashes 0, 2**32 - 1, 2**31, 255, 256 and 2**32 - 256.
EXTREME = [[b'7bafhhw', b'7bafhj5', b'ootpwgq', b's9nra7e', b's9nrcue'],
           [b'epjeu0e', b'epjewre', b'7bafhoo', b'epjg5re', b'epjg70e'],
           [b'77afd3u', b'77afd53', b'77affqu', b'77affw3', b'urgpvlo'],
           [b'7bafhgg', b'ootpwdm', b's9nra4y', b's9nrcvy', b's9nrcx7'],
           [b'epjexoh', b'ootpwa7', b'ootpwoy', b'ootr5a7', b'ootr5oy'],
           [b'epjeu3y', b'epjewqy', b'7bafhpo', b'7bafj2o', b'epjg5qy']]
# A key, and a longer one that begins with it and has the same hash.
BEGINNINGS = [(b'o~\xe4', b'o~\xe4\xff\x8c\x18\x0b'), (b'\xa8Q\xc6', b'\xa8Q\xc6\x9f9\x14\x12'), (b'\x8c/\xce', b'\x8c/\xce\xde\x06\x08\x10'),
            (b'\x95yA', b'\x95yA\xd8\xee\x15\x03'), (b'G\xc2\xdf', b'G\xc2\xdf\xac\xea\x10\x16'), (b'\x91\x03\xc3', b'\x91\x03\xc3\x1d\xdd\x01\x01'),
            (b'El\xdb', b'El\xdb\x9f\x9d\x19\x1b'), (b'\xaa\x7f\x1f', b'\xaa\x7f\x1f\xff\xb4\x1b\x10'), (b'\xa3rq', b'\xa3rq= \x13\x0e')]
ODD = ['', b'', 'é', '日本', b'\xff\x00', b'\0', '\0', 'a' * 300, b'x' * 3000, 'a', 'A', ' ', '\n', b'\x00' * 8, '\ud7ff']


def b(x):
    return x if isinstance(x, bytes) else x.encode('utf-8')


def value(rng):
    r = rng.random()
    if r < .3:
        return rng.choice(ODD)
    if r < .6:
        return rng.randbytes(rng.randrange(40))
    return '%d,%d' % (rng.randrange(1000), rng.randrange(1000))


def pairs_of(case):
    rng = case.rng
    keys = []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        r = rng.random()
        if rng.random() < .15:
            group = rng.choice(EXTREME)
            keys += rng.sample(group, rng.randint(1, 5))
            case.count('extreme hashes')
        if rng.random() < .15:
            for short, long in rng.sample(BEGINNINGS, 3):
                keys += rng.choice([[long], [long, short], [short, long]])
            case.count('beginnings with the same hash')
        if r < .25:
            keys += [rng.choice(ODD) for _ in range(rng.randint(1, 4))]
        elif r < .5:
            keys += ['word%d' % rng.randrange(10**6) for _ in range(rng.choice([1, 5, 30, 200]))]
        elif r < .65:
            keys += [rng.randbytes(rng.randrange(9)) for _ in range(rng.choice([1, 9, 60]))]
        elif r < .8:
            same = cdbspec.colliding(rng, rng.choice([2, 3, 9, 27]))
            keys += same
            case.count('colliding keys', len(same))
        elif r < .9:
            # The last slot of the table of these keys: probing wraps around.
            n = rng.choice([2, 3])
            keys += cdbspec.same_table(rng, n, 2 * n - 1, 2 * n)
            case.count('wrapped')
        else:
            keys += cdbspec.same_table(rng, rng.choice([2, 5, 9]))
    if case.thorough and rng.random() < .02 or case.index == 0:
        keys += [rng.randbytes(4) for _ in range(3000)]
    for _ in range(rng.choice([0, 0, 1, 4])):
        if keys:
            # A repeated key, maybe in its other form.
            k = rng.choice(keys)
            if rng.random() < .3:
                try:
                    k = b(k) if isinstance(k, str) else k.decode('utf-8')
                except UnicodeDecodeError:
                    pass
            keys.append(k)
            case.count('repeated keys')
    if rng.random() < .5:
        rng.shuffle(keys)
    return [(k, value(rng)) for k in keys]


def absent(case, given):
    """Keys that were not given, as near to given ones as possible."""
    rng = case.rng
    out = [b'', b'nope', rng.randbytes(5), b'\0']
    for k in rng.sample(given, min(len(given), 20)):
        out += [k + b'x', k[:-1], k + b'\0', k.swapcase()]
        if len(k) >= 2:
            # The same hash, and another key.
            stem = k[:-2]
            h, target = cdbspec.hash_of(stem), cdbspec.hash_of(k)
            for c in range(256):
                d = ((h * 33 % 2**32) ^ c) * 33 % 2**32 ^ target
                if d < 256:
                    out.append(stem + bytes([c, d]))
    out += [k for pair in BEGINNINGS for k in pair]
    known = set(given)
    return [k for k in out if k not in known]


def read_with_code(case, path, want):
    """Everything the code under test finds in the file."""
    rng = case.rng
    with open(path, 'rb') as f:
        db = Cdb(f)
        pairs = [(b(k), b(v)) for k, v in want]
        values = {}
        for k, v in pairs:
            values.setdefault(k, []).append(v)
        case.equal(db.items(), pairs, 'items()')
        case.equal(db.keys(), [k for k, _ in pairs], 'keys()')
        case.equal(db.values(), [v for _, v in pairs], 'values()')
        case.equal(list(db), pairs, 'iteration')
        case.equal(list(db.iteritems()), pairs, 'iteritems()')
        case.equal(list(db.iterkeys()), [k for k, _ in pairs], 'iterkeys()')
        case.equal(list(db.itervalues()), [v for _, v in pairs], 'itervalues()')
        asked = [k for k, _ in want]
        rng.shuffle(asked)
        if asked and rng.random() < .5:
            # The first search after opening needs no start; searching goes on after a look-up.
            for k in asked[:2]:
                with open(path, 'rb') as g:
                    fresh = Cdb(g)
                    first = rng.choice([fresh.findnext, fresh.__getitem__, fresh.get])
                    found = [first(k)]
                    while len(found) <= len(values[b(k)]):
                        try:
                            found.append(fresh.findnext(k))
                        except KeyError:
                            break
                    fresh.close()
                case.equal(found, values[b(k)], 'all values of a key in a file just opened', k)
                case.count('searched at once')
        if case.stream == 'large':
            # Those added last are farthest in the file and in their tables.
            asked = asked[:300] + [k for k, _ in want[-100:]]
        iterator, seen = iter(db), 0
        for k in asked[:400]:
            case.equal(db[k], values[b(k)][0], 'the value of a key', k)
            case.equal(db.get(k), values[b(k)][0], 'get() of a key', k)
            case.count('lookups')
            if rng.random() < .2 or len(values[b(k)]) > 1:
                db.findstart()
                found = []
                while True:
                    try:
                        found.append(db.findnext(k))
                    except KeyError:
                        break
                    case.check(len(found) <= len(values[b(k)]), 'more values than were given', k, found)
                case.equal(found, values[b(k)], 'all values of a key', k)
            if rng.random() < .2:
                # Looking up must not disturb an iteration.
                case.equal(next(iterator), pairs[seen], 'iteration while looking up')
                seen += 1
        for k in absent(case, list(values)):
            case.raises(KeyError, db.__getitem__, k)
            case.equal(db.get(k), None, 'get() of a key that was not given', k)
            case.equal(db.get(k, 'x'), 'x', 'get() of a key that was not given', k)
            case.count('absent keys')
        case.equal(list(iterator), pairs[seen:], 'the rest of an iteration')
        db.close()


def many_pairs(case):
    """Tens of thousands of pairs, long ones, and long runs of slots to be probed."""
    rng = case.rng
    mode = case.index // 2 % 4 if not case.thorough else rng.randrange(4)
    if mode == 0:
        keys = ['word%d' % i for i in rng.sample(range(10**7), rng.choice([6000, 25000]) * (4 if case.thorough else 1))]
    elif mode == 1:
        keys = [rng.randbytes(rng.choice([1000, 5000, 70000, 200000])) for _ in range(5)]
        keys += [keys[0][:-1], keys[1] + b'x', keys[2][:-1] + b'\0']
    elif mode == 2:
        keys = cdbspec.colliding(rng, rng.choice([60, 243, 400]))
        case.count('colliding keys', len(keys))
    elif case.index < 8 or rng.random() < .3:
        # One table with more than a thousand slots.
        keys = cdbspec.same_table(rng, rng.choice([560, 900]))
        case.count('long tables')
    else:
        keys = cdbspec.same_table(rng, rng.choice([60, 150]), 5, 9)
    rng.shuffle(keys)
    case.count('large databases')
    want = [(k, value(rng)) for k in keys]
    if mode != 0 and rng.random() < .6:
        want += [(k, rng.randbytes(rng.choice([1000, 70000, 300000]))) for k in rng.sample(keys, 2)]
        want += [(b'last', rng.randbytes(100000))]
    return want


def run(case):
    rng = case.rng
    want = many_pairs(case) if case.stream == 'large' else pairs_of(case)
    case.step('pairs', len(want), want[:200])
    case.count('databases')
    if not want:
        case.count('empty')
    path = case.path('db')
    pairs = [(b(k), b(v)) for k, v in want]
    if case.index % 2 == 0:
        items = want
        r = rng.random()
        if r < .3:
            items = iter(want)
        elif r < .5:
            items = tuple(want)
        elif r < .7 and len({k for k, _ in want}) == len(want):
            items = dict(want).items()
        with open(path, rng.choice(['wb', 'w+b'])) as f:
            cdb_make(f, items)
        with open(path, 'rb') as f:
            data = f.read()
        try:
            case.equal([r[:2] for r in cdbspec.records(data)], pairs, 'the records in the file')
            values = {}
            for k, v in pairs:
                values.setdefault(k, []).append(v)
            for k, vs in values.items():
                case.equal(list(cdbspec.lookup(data, k)), vs, 'what another reader finds', k)
            for k in absent(case, list(values)):
                case.equal(list(cdbspec.lookup(data, k)), [], 'what another reader finds', k)
        except (cdbspec.Bad, IndexError) as e:
            case.fail('the file does not have the published format', str(e))
        case.count('own files')
    else:
        mode = rng.randrange(4)
        slots = [lambda n: 2 * n, lambda n: n, lambda n: n + 1, lambda n: 7 * n + 3][mode]
        if mode == 1 and pairs:
            case.count('full tables')
        with open(path, 'wb') as f:
            f.write(cdbspec.write(pairs, slots))
        case.step('slots', mode)
        case.count('foreign files')
    read_with_code(case, path, want)
    if len(want) >= 3:
        case.distinct(pairs)


def hashes(case):
    rng = case.rng
    for _ in range(20):
        k = rng.choice(ODD) if rng.random() < .2 else rng.randbytes(rng.randrange(60))
        if rng.random() < .02:
            k = rng.randbytes(rng.choice([300, 5000, 100000]))
        h = cdbspec.hash_of(b(k))
        case.step('key', k[:300])
        case.equal(cdb_hash(k), h, 'hash', k)
        case.equal(struct.unpack('<L', struct.pack('<L', cdb_hash(k)))[0], h, 'hash in 32 bits', k)
        case.count('hashes')


STREAMS = [('large', 16, 300, run), ('databases', 800, 16000, run), ('hash', 200, 5000, hashes)]
