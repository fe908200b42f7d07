"""K03: hostile ids."""
import fnmatch
import os
import time

from sbclassifier.corpora.filesystem import ExpiryFileCorpus, FileCorpus
from sbclassifier.message import Message, from_bytes

from mon import mail, standin

LEVEL = 'exploration'
RULE = ('A case puts a corpus into a tree of sentinel files and directories (parents, siblings, names with '
        'the same beginning, a working directory elsewhere) and adds, removes, looks up and expires '
        'messages with ordinary and hostile ids (parent and absolute paths to sentinels and to new names, '
        'separators, NUL, empty, too long, unencodable, not text), for several filters. After every '
        'operation the whole tree outside the directory (names, contents, modes, times of change) must be '
        'as before; an id that cannot be a file name there must be refused when added, and leave files, '
        'length, membership and lookups as they were. Non-trivial: every case; distinct by filter, way '
        'of naming the directory and sequence.')
ASSUMPTIONS = ['the directory holds no symbolic links',
               'the tree around the directory, and the working directory, are watched; paths elsewhere are '
               'never tried as ids but below the scratch directory']
NEED = {'operations': 12000, 'refused': 4000, 'ids that name a sentinel': 3000, 'expired': 200,
        'removed': 150}


def snapshot(root, skip):
    """Every file and directory below root, except below skip."""
    result = {}
    for directory, dirs, names in os.walk(root):
        if directory == skip:
            dirs[:] = []
            continue
        for name in dirs + names:
            p = os.path.join(directory, name)
            if p == skip:
                continue
            s = os.lstat(p)
            content = None
            if name in names:
                with open(p, 'rb') as f:
                    content = f.read()
            result[p] = (s.st_mode, s.st_ino, s.st_size if content is not None else 0,
                         s.st_mtime_ns if content is not None else 0, content)
    return result


def tree(case):
    """A tree with a corpus directory in it; returns root, directory, sentinels."""
    root = case.path('root')
    directory = os.path.join(root, 'a', 'corpus')
    os.makedirs(os.path.join(directory, 'sub'))
    sentinels = []
    for p in ['top', 'top.msg', 'a/side', 'a/side.msg', 'a/corpus2', 'a/corpusx', 'a/other/deep', 'b/x.msg',
              'a/.lock', 'a/corpus.msg', 'a/m1', 'm1', 'cwd/m1', 'cwd/side', 'cwd/x.msg', 'cwd/corpus/m1']:
        p = os.path.join(root, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(b'Subject: sentinel\n\n' + p.encode())
        sentinels.append(p)
    with open(os.path.join(directory, 'sub', 'in.msg'), 'wb') as f:
        f.write(b'x')
    return root, directory, sentinels


def hostile_ids(rng, root, directory, sentinels):
    def some():
        p = rng.choice(sentinels) if rng.random() < .8 else os.path.join(root, rng.choice(['new', 'a/new', 'new.msg']))
        rel = os.path.relpath(p, directory)
        return rng.choice([p, rel, './' + rel, 'sub/../' + rel, rel.replace('/', '//'), '/' + p, '//' + p,
                           os.path.relpath(p, os.path.join(root, 'cwd')), rel + '/', p + '/.', 'nope/../' + rel,
                           '../corpus/' + rel, os.path.basename(p) + '/../' + rel, rel + '\0', rel + '\0.msg',
                           'x\0/../' + rel, '../' * 2 + 'a/' + os.path.basename(p)])
    fixed = ['.', '..', '', '/', './', '../', './m1', 'sub/in.msg', 'sub/new', 'sub', 'sub/', '//', 'm1/', 'a/b',
             '\0', 'm1\0', '\0m1', 'x' * 256, 'é' * 130, '\ud800', 'm\udfffx', '../x\ud800', './.', './..', 'm1/.',
             'm1/..', 'nope/x', '/dev/null/x', '../../../..', '...', '..\\x', 'C:\\x', '~', '~/x', '$HOME',
             '*', '?', '-', '../corpus', '../corpus/m1', '.../x', '..\0', ' ', '\n', '..\n', '.. ']
    return [some() for _ in range(6)] + rng.sample(fixed, 8)


def possible(name, directory):
    """Whether this can be the name of a file in the directory."""
    if not isinstance(name, str) or name in ('', '.', '..') or '/' in name or '\0' in name:
        return False
    try:
        if len(os.fsencode(name)) > 255:
            return False
    except UnicodeError:
        return False
    return not os.path.isdir(os.path.join(directory, name))


def inside(directory):
    result = {}
    for d, _, names in os.walk(directory):
        for n in names:
            p = os.path.join(d, n)
            with open(p, 'rb') as f:
                result[p] = f.read()
    return result


def run(case):
    rng = case.rng
    root, directory, sentinels = tree(case)
    os.chdir(os.path.join(root, 'cwd'))
    named = rng.choice([directory, directory + '/', '../a/corpus', '../a/../a/corpus/'])
    if rng.random() < .15:
        os.chdir(directory)
        named = rng.choice(['.', './', os.curdir])
    namefilter = rng.choice(['*', '*', '*', '*.msg', '*[!x]', '../*', '/*', 'm?', '.*'])
    expiring = rng.random() < .5
    size = rng.choice([1, 2, 256])
    if expiring:
        corpus = ExpiryFileCorpus(1000, named, namefilter, size)
    else:
        corpus = FileCorpus(named, namefilter, size)
    offset = [0]
    real = time.time
    case.cleanup.append(standin.clock(lambda: real() + offset[0], lambda stat, path, *args, **kw: stat(path, *args, **kw)))
    outside = snapshot(root, directory)
    ordinary = ['m1', 'm2', 'x.msg', 'y.msg', '.h', 'side', 'é', '...']
    ids = hostile_ids(rng, root, directory, sentinels) + ordinary
    if rng.random() < .1:
        ids += [7, None, b'm1', b'../m1', ('a',), 1.5]
    history = []
    case.step(named, namefilter, expiring, size)
    for _ in range(rng.randint(8, 25)):
        key = rng.choice(ids if rng.random() < .7 else ordinary)
        op = rng.choice(['add', 'add', 'add', 'remove', 'remove', 'look', 'expire'])
        what = (op, key)
        case.step(op, key)
        history.append(what)
        case.count('operations')
        before = inside(directory)
        length = len(corpus)
        if isinstance(key, str) and key.startswith(('..', '/')):
            case.count('ids that name a sentinel')
        if op == 'add':
            message = from_bytes(mail.plain(rng))
            apart = rng.random() < .5 or not isinstance(key, str)
            if apart:
                if key is None:
                    continue
                args = {'message_id': key}
            else:
                message.set_id(key)
                args = {}
            try:
                corpus.add_message(message, **args)
                refused = False
            except Exception as e:
                refused = True
            fits = possible(key, directory) and fnmatch.fnmatchcase(key, namefilter)
            case.equal(refused, not fits, 'refused' if refused else 'not refused', key, namefilter)
            if refused:
                case.count('refused')
                case.check(inside(directory) == before, 'a refused message changed the files', key)
                case.equal(len(corpus), length, 'a refused message changed the length', key)
                shown = os.path.join(directory, key) in before if possible(key, directory) else False
                try:
                    found = corpus.get(key)
                except Exception:
                    found = None
                if found is not None:
                    case.check(shown and found is not message, 'a refused message is in the corpus', key)
                case.equal(key in list(corpus.keys()), shown and fits, 'a refused message is listed', key)
            else:
                want = dict(before)
                want[os.path.join(directory, key)] = message.as_bytes()
                case.check(inside(directory) == want, 'the files are wrong after adding', key)
        elif op == 'remove':
            message = Message()
            try:
                message.set_id(key)
            except (TypeError, ValueError):
                continue
            try:
                corpus.remove_message(message)
            except Exception:
                case.check(not possible(key, directory), 'a message cannot be removed', key)
            want = dict(before)
            p = os.path.join(directory, key)
            if possible(key, directory) and fnmatch.fnmatchcase(key, namefilter) and p in want:
                del want[p]
                case.count('removed')
            case.check(inside(directory) == want, 'the wrong files are removed', key)
        elif op == 'look':
            for f in (lambda: corpus.get(key), lambda: corpus[key], lambda: key in corpus):
                try:
                    r = f()
                except Exception:
                    continue
                if r and not (possible(key, directory) and os.path.join(directory, key) in before):
                    case.fail('a lookup finds something that is not in the directory', key)
            case.check(inside(directory) == before, 'looking changed the files')
        elif expiring:
            offset[0] += rng.choice([0, 500, 2000])
            corpus.remove_expired_messages()
            after = inside(directory)
            case.check(set(after) <= set(before), 'expiry adds files')
            case.count('expired', len(before) - len(after))
        now = snapshot(root, directory)
        if now != outside:
            diff = [p for p in set(now) | set(outside) if now.get(p) != outside.get(p)]
            case.fail('something outside of the directory has changed', what, diff)
        case.check(os.listdir(case.dir) == ['root'], 'something appeared next to the tree')
    case.distinct(named, namefilter, history)
    case.sample(case.log)


STREAMS = [('operations', 1200, 24000, run)]
