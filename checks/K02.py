"""K02: a file corpus against its directory."""
import contextlib
import email
import fnmatch
import gc
import os
import weakref

from sbclassifier.corpora.filesystem import ExpiryFileCorpus, FileCorpus
from sbclassifier.message import Message, from_bytes

from mon import mail
from mon.stores import file_state, in_memory

LEVEL = 'exploration'
RULE = ('A case applies additions (new, present and removed ids, ids given apart, ids that do not match '
        'the filter), removals (of the object added, of one looked up, of another with the same id) and '
        'lookups to a file corpus with a memory cache of 1 to 20 messages, in a directory that has other '
        'files and directories; now and then another program removes a file, or writes one of which the corpus holds nothing in memory; after every step the files are compared with a model, byte by byte, and '
        'length, keys, iteration, membership, values, items and lookups with the files, also by a second '
        'corpus opened on the directory. Stream "full": more than 256 messages with the memory cache of the default size (or another); of the messages added no more than that are alive in the end. Non-trivial: more messages than the memory cache holds; '
        'distinct by filter, cache size and sequence.')
ASSUMPTIONS = ['messages are well-formed enough that the email package can generate and parse them back',
               'only one corpus at a time changes the directory (a message of which another program removed the file may still be found in memory); a message is not changed after it was added, unless it is added again at once']
NEED = {'hard links': 40, 'corpora of more than 256 messages': 2, 'removed by another program': 80, 'written by another program': 150, 'removed after another program did': 5, 'steps with more than 40 messages': 40, 'big messages': 40, 'steps': 10000, 'replaced': 1500, 'removed': 700, 'removed when not in memory': 400,
        'looked up when not in memory': 4000, 'refused': 300, 'reopened': 800, 'changed and added again': 200}

FILTERS = [('*', ['a', 'b', 'c', 'd', 'e', 'f', 'x y', 'ä', '.hidden', 'a.msg', 'a.lock', 'UPPER', '-rf', '~',
                  'a' * 200, 'z' * 255, '%', '\n', '1']),
           ('*.msg', ['a.msg', 'b.msg', 'c.msg', 'd.msg', '.msg', 'x y.msg', 'a', 'b.MSG', 'b.msg.tmp', 'ü.msg']),
           ('m?', ['m1', 'm2', 'm3', 'm4', 'm', 'm11', 'M1', 'mm', 'm?', 'm*']),
           ('[0-9]*', ['1', '2', '3', '10', '11', '99x', 'x9', '-1', '0'])]


def make(rng):
    """A message that survives being stored."""
    while True:
        data = mail.plain(rng) if rng.random() < .7 else mail.message(rng)
        if rng.random() < .3:
            # What a careless reader or writer would drop.
            data = rng.choice([data, data.rstrip(b'\n')]) + rng.choice(
                [b'\0', b'\0\0\0\n', b' ', b'\t \n', b'\x1a', b'\n\n\n', b'\x0c', b'\x7f\x1f', b'\xff\xfe', b'', b'.\n', b'\nFrom x\n'])
        try:
            content = norm(data)
            if norm(content) == content:
                return from_bytes(content), content
        except Exception:
            continue


def big(rng):
    """A message of hundreds of kilobytes."""
    lines = ['%d %s' % (i, 'x' * rng.randrange(70)) for i in range(rng.choice([3000, 20000]))]
    content = ('Subject: big\n\n' + '\n'.join(lines) + '\n').encode()
    return from_bytes(content), content


def norm(content):
    """The content as the email package writes it."""
    return email.message_from_bytes(content).as_bytes()


def look(case, corpus, model, ids, who, complete):
    """Compares what the corpus shows with the model."""
    case.equal(len(corpus), len(model), 'the length is wrong', who)
    for what, got in [('keys', list(corpus.keys())), ('iteration', list(corpus))]:
        case.equal(sorted(got), sorted(model), 'wrong ' + what, who)
    shown = repr(corpus)
    case.check(' %d message' % len(model) in shown, 'the representation is wrong', shown, len(model), who)
    for key in ids:
        case.equal(key in corpus, key in model, 'wrong membership', key, who)
        m = corpus.get(key)
        if key in model:
            case.check(m is not None, 'a message is lost', key, who)
            for m in (m, corpus[key]):
                case.equal(m.as_bytes(), norm(model[key]), 'the message has the wrong content', key, who)
                case.check(m.id() in (key, None) and (m.id() == key or m in apart(case)),
                           'the message has the wrong id', m.id(), key, who)
        elif who == 'the corpus' and key in case.gone:
            # It may be in the memory of the corpus still.
            case.check(m is None or m.as_bytes() == norm(case.gone[key]), 'the message has the wrong content', key, who)
        else:
            case.check(m is None, 'a message that is not there', key, who)
            case.raises(KeyError, corpus.__getitem__, key)
            case.equal(corpus.get(key, 7), 7, 'wrong default')
    if complete:
        case.equal(sorted(m.as_bytes() for m in corpus.values()), sorted(map(norm, model.values())), 'wrong values', who)
        items = [(k, m.as_bytes(), m.id()) for k, m in corpus.items()]
        case.equal(sorted(items), sorted((k, norm(v), k) for k, v in model.items()), 'wrong items', who)


def apart(case):
    """Messages added under an id of which they do not know."""
    return getattr(case, 'apart', ())


def run(case):
    rng = case.rng
    namefilter, pool = rng.choice(FILTERS)
    crowded = case.stream == 'crowded'
    if crowded:
        namefilter, pool = FILTERS[0][0], FILTERS[0][1] + ['key %d' % i for i in range(rng.choice([60, 250]))]
    ids = rng.sample(pool, rng.randint(3, len(pool)))
    size = rng.choice([1, 1, 2, 3, 5, 20] if not crowded else [1, 20, 100])
    directory = case.path('corpus')
    os.mkdir(directory)
    model, others, case.apart, case.gone = {}, {}, [], {}
    for key in pool + ['note.txt', 'other']:
        r = rng.random()
        if r < (.25 if not crowded else .8):
            _, content = make(rng)
            if rng.random() < .2:
                content = rng.choice([b'', b'\n', b'\n\n', b'x', b'X: y\n\n', b'\r\n', b'\0'])
            with open(os.path.join(directory, key), 'wb') as f:
                f.write(content)
            (model if fnmatch.fnmatchcase(key, namefilter) else others)[key] = content
        elif r < .3 and not (key in ids and fnmatch.fnmatchcase(key, namefilter)):
            os.mkdir(os.path.join(directory, key))
    if rng.random() < .3 and directory:
        corpus = FileCorpus(directory + os.sep, namefilter, size)
    else:
        corpus = FileCorpus(directory, namefilter, cache_size=size)
    history = []
    held = {}
    case.step(namefilter, size, sorted(model), sorted(others))
    most = 0
    for _ in range(rng.randint(3, 25)):
        r = rng.random()
        key = rng.choice(ids)
        if r < .5:
            message, content = make(rng)
            if rng.random() < (.01 if not crowded else .1):
                message, content = big(rng)
                case.count('big messages')
            own = rng.random() < .85
            if key in held and held[key].id() == key and rng.random() < .2:
                # The same object again, after it was changed.
                message, own = held[key], True
                message['X-Again'] = rng.choice('abc')
                content = message.as_bytes()
                if from_bytes(content).as_bytes() != content:
                    del message['X-Again']
                    content = model[key]
                else:
                    case.count('changed and added again')
            if own:
                message.set_id(key)
            history.append(('add', key, content))
            if not fnmatch.fnmatchcase(key, namefilter):
                e = case.raises(ValueError, corpus.add_message, message,
                                **({} if own else {'message_id': key}))
                case.count('refused')
            else:
                if own and rng.random() < .8:
                    corpus.add_message(message)
                else:
                    corpus.add_message(message, message_id=key)
                if not own:
                    case.apart.append(message)
                case.count('replaced', key in model)
                case.gone.pop(key, None)
                model[key] = content
                held[key] = message
        elif r < .75:
            how = rng.choice(['found', 'held', 'other'])
            message = corpus.get(key) if how == 'found' else held.get(key) if how == 'held' else Message(key)
            if message is None or message.id() != key:
                message = Message(key)
            history.append(('remove', key, how))
            inside = in_memory(corpus, key)
            corpus.remove_message(message)
            case.count('removed after another program did', case.gone.pop(key, None) is not None)
            if key in model:
                case.count('removed')
                case.count('removed when not in memory', inside is False)
                del model[key]
            held.pop(key, None)
        elif r < .86:
            history.append(('look', key))
            inside = in_memory(corpus, key)
            if corpus.get(key) is not None:
                case.count('looked up when not in memory', not inside)
        elif r < .92:
            size = rng.choice([1, 2, 3, 20])
            history.append(('reopen', size))
            corpus = FileCorpus(directory, namefilter, cache_size=size)
            case.apart = []
            case.gone = {}
            case.count('reopened')
        elif rng.random() < .8 and key in model:
            history.append(('another program removes', key))
            os.remove(os.path.join(directory, key))
            case.gone[key] = model.pop(key)
            held.pop(key, None)
            case.count('removed by another program')
        elif fnmatch.fnmatchcase(key, namefilter) and not os.path.isdir(os.path.join(directory, key)) and not in_memory(corpus, key):
            _, content = make(rng)
            history.append(('another program writes', key, content))
            if rng.random() < .3:
                # As a link to a file elsewhere, of the same file system.
                with open(case.path('elsewhere'), 'wb') as f:
                    f.write(content)
                with contextlib.suppress(FileNotFoundError):
                    os.remove(os.path.join(directory, key))
                os.link(case.path('elsewhere'), os.path.join(directory, key))
                os.rename(case.path('elsewhere'), case.path('elsewhere %d' % len(history)))
                case.count('hard links')
            else:
                with open(os.path.join(directory, key), 'wb') as f:
                    f.write(content)
            model[key] = content
            case.gone.pop(key, None)
            held.pop(key, None)
            case.count('written by another program')
        else:
            continue
        case.step(history[-1])
        case.count('steps')
        state = file_state(directory)
        case.equal(sorted(state), sorted({**model, **others}), 'the directory has the wrong files')
        for name, content in {**model, **others}.items():
            if state[name] != content:
                case.fail('a file has the wrong content', name, state[name], content)
        for k in ids:
            if k in model and not in_memory(corpus, k):
                case.count('looked up when not in memory')
        case.count('steps with more than 40 messages', len(model) > 40)
        look(case, corpus, model, rng.sample(ids, min(len(ids), 6)), 'the corpus', rng.random() < (.3 if not crowded else .05))
        if rng.random() < (.25 if not crowded else .05):
            second = FileCorpus(directory, namefilter, cache_size=rng.choice([1, 10]))
            look(case, second, model, ids, 'a second corpus', True)
        after = file_state(directory)
        case.check(after == state, 'looking changed the files')
        most = max(most, len(model))
    case.state(namefilter, size, sorted(model))
    if most > size:
        case.distinct(namefilter, size, history)
        case.sample(case.log)


def full(case):
    """More messages than the memory cache holds that one gets without asking."""
    rng = case.rng
    directory = case.path('corpus')
    os.mkdir(directory)
    case.apart, case.gone = {}, {}
    size = 256 if case.index % 3 != 2 else rng.choice([1, 20, 100])
    more = {} if size == 256 else {'cache_size': size}
    corpus = FileCorpus(directory, **more) if rng.random() < .6 else ExpiryFileCorpus(10**9, directory, **more)
    model, added = {}, []
    n = rng.randint(262, 330)
    look_at = set(rng.sample(range(n), 2)) | {256, 257, n - 1}
    for i in range(n):
        key = 'key %d' % i
        content = b'Subject: %d\n\n%s\n' % (i, rng.choice([b'', b'x', b'one two\nthree']))
        message = from_bytes(content, key)
        corpus.add_message(message)
        added.append(weakref.ref(message))
        model[key] = content
        if rng.random() < .05:
            gone = rng.choice(sorted(model))
            corpus.remove_message(corpus[gone])
            del model[gone]
        if i in look_at:
            case.check(file_state(directory) == model, 'the files are not those of the messages')
            look(case, corpus, model, rng.sample(sorted(model), 5) + ['key 0', 'key 1'], 'the corpus', i == n - 1)
        if rng.random() < .05:
            again = rng.choice(sorted(model))
            model[again] = b'Subject: again %d\n\nx\n' % i
            message = from_bytes(model[again], again)
            corpus.add_message(message)
            added.append(weakref.ref(message))
    case.check(file_state(directory) == model, 'the files are not those of the messages')
    look(case, corpus, model, sorted(model), 'the corpus', True)
    look(case, FileCorpus(directory), model, sorted(model), 'a second corpus', True)
    message = None
    gc.collect()
    alive = sum(ref() is not None for ref in added)
    case.check(alive <= size, 'more messages are kept in memory than the size of the cache', alive, size)
    case.count('messages kept in memory', alive)
    case.count('corpora of more than 256 messages')
    case.distinct('full', sorted(model.items()))


STREAMS = [('full', 3, 100, full), ('crowded', 10, 500, run), ('histories', 1000, 20000, run)]
