"""K01: a corpus against an ordered dictionary."""
from sbclassifier.corpora.base import Corpus
from sbclassifier.corpora.caches import INFINITY, NaiveCache
from sbclassifier.message import Message


LEVEL = 'exploration'
RULE = ('A case applies a sequence of additions (new ids, ids present, ids removed before; ids given '
        'apart or by the message), removals (present or absent) and lookups to a corpus with a maximum '
        'size from 1 to 8 or none, in a default or given cache, and compares length, membership, '
        'iteration, keys, values, items, indexing and get with an ordered dictionary after every step (in stream "huge", with thousands '
        'of messages and maxima, at the end). '
        'Non-trivial: an id was replaced or removed and, if there is a maximum, something was dropped; '
        'distinct by the sequence and the maximum.')
ASSUMPTIONS = ['the corpus is used by one thread']
NEED = {'dropped of thousands': 2000, 'steps with more than 100 messages': 500, 'steps': 30000, 'dropped': 4000, 'replaced': 3000, 'replaced when full': 1500, 'added again': 1500,
        'removed': 3000, 'removed absent': 500}

POOL = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', '', ' ', '1', '01', 'ä', '../x', '/', 'a\0', 'A',
        'x' * 300, 'None', '0', '<1@x>']


class Model:
    """Messages by id in the order in which the ids were added."""

    def __init__(self, most):
        self.most, self.pairs = most, []

    def index(self, key):
        for i, (k, _) in enumerate(self.pairs):
            if k == key:
                return i
        return None

    def add(self, key, message):
        """Returns the id that was dropped."""
        i = self.index(key)
        if i is not None:
            self.pairs[i] = (key, message)
            return None
        self.pairs.append((key, message))
        if len(self.pairs) > self.most:
            return self.pairs.pop(0)[0]
        return None

    def remove(self, key):
        i = self.index(key)
        return None if i is None else self.pairs.pop(i)


def same_pairs(a, b):
    return len(a) == len(b) and {(k, id(m)) for k, m in a} == {(k, id(m)) for k, m in b}


def look(case, corpus, model, ids):
    pairs = model.pairs
    case.equal(len(corpus), len(pairs), 'the length is wrong', pairs)
    keys = [k for k, _ in pairs]
    for what, got in [('iteration', list(corpus)), ('keys', list(corpus.keys()))]:
        case.check(len(got) == len(keys) and set(got) == set(keys), 'wrong ' + what, got, keys)
    case.check(sorted(map(id, corpus.values())) == sorted(id(m) for _, m in pairs), 'wrong values')
    case.check(same_pairs(list(corpus.items()), pairs), 'wrong items')
    marker = object()
    for key in ids:
        i = model.index(key)
        case.equal(key in corpus, i is not None, 'wrong membership', key, keys)
        case.check(corpus.get(key) is (pairs[i][1] if i is not None else None), 'wrong get', key)
        case.check(corpus.get(key, marker) is (pairs[i][1] if i is not None else marker), 'wrong get', key)
        if i is not None:
            case.check(corpus[key] is pairs[i][1], 'wrong message', key)
        else:
            case.raises(KeyError, corpus.__getitem__, key)


def run(case):
    rng = case.rng
    crowded = case.stream == 'crowded'
    most = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 8, INFINITY] if not crowded else [10, 40, 100, 300, INFINITY])
    how = rng.choice(['default', 'given']) if most == INFINITY else 'given'
    if how == 'default':
        corpora = [Corpus(), Corpus()]
    else:
        cache = NaiveCache(max_size=most) if most != INFINITY or rng.random() < .5 else NaiveCache()
        corpora = [Corpus(cache=cache) if rng.random() < .5 else Corpus(cache), Corpus()]
    corpus, other = corpora
    model = Model(most)
    ids = rng.sample(POOL, rng.randint(2, 10))
    if crowded:
        ids += ['key %d' % i for i in range(rng.choice([100, 400]))]
    history, gone = [], set()
    dropped = changed = 0
    held = {}
    case.step(most, how)
    for at in range(rng.randint(4, 40 if rng.random() < .9 else 150) if not crowded else rng.randint(300, 1500)):
        r = rng.random() * (1 if not crowded else .8)
        key = rng.choice(ids)
        if r < .6:
            message = Message(key if key and rng.random() < .8 else None)
            if key and message.id() is not None and key in held and rng.random() < .15:
                message = held[key]         # the same object once more
            present = model.index(key) is not None
            full = len(model.pairs) == most
            if message.id() is None or rng.random() < .2:
                corpus.add_message(message, message_id=key, emit_signal=rng.random() < .5)
            else:
                corpus.add_message(message, emit_signal=rng.random() < .5)
            held[key] = message
            history.append(('add', key))
            d = model.add(key, message)
            case.count('added')
            if present:
                changed += 1
                case.count('replaced')
                case.count('replaced when full', full)
            elif key in gone:
                case.count('added again')
            if d is not None:
                dropped += 1
                gone.add(d)
                case.count('dropped')
        elif r < .8 and key:
            message = held.get(key)
            if message is None or message.id() is None or rng.random() < .3:
                message = Message(key)      # not the same object
            corpus.remove_message(message, emit_signal=rng.random() < .5)
            history.append(('remove', key))
            if model.remove(key):
                changed += 1
                gone.add(key)
                case.count('removed')
            else:
                case.count('removed absent')
        else:
            corpus.get(key)
            history.append(('get', key))
        case.step(history[-1])
        case.count('steps')
        case.check(len(corpus) <= most, 'more messages than the maximum', len(corpus), most)
        case.count('steps with more than 100 messages', len(corpus) > 100)
        if crowded and at % 50:
            case.equal(len(corpus), len(model.pairs), 'the length is wrong')
            continue
        look(case, corpus, model, ids + ['not there'] if rng.random() < .5 else [key])
    look(case, corpus, model, ids)
    case.equal(len(other), 0, 'another corpus has messages')
    case.state(most, [k for k, _ in model.pairs])
    if changed and (dropped or most == INFINITY):
        case.distinct(most, history)
        case.sample(case.log)


def huge(case):
    """Thousands of messages."""
    rng = case.rng
    most = rng.choice([700, 1500, 3000, INFINITY])
    corpus = Corpus(NaiveCache(max_size=most))
    model, ids = {}, ['key %d' % i for i in range(rng.choice([2000, 6000]))]
    case.step(most, len(ids))
    for i in range(rng.choice([4000, 8000])):
        key = rng.choice(ids) if rng.random() < .5 else ids[i % len(ids)]
        if rng.random() < .9:
            message = Message(key)
            corpus.add_message(message, emit_signal=False)
            model[key] = message
            if len(model) > most:
                del model[next(iter(model))]
                case.count('dropped of thousands')
        else:
            corpus.remove_message(Message(key), emit_signal=False)
            model.pop(key, None)
    case.equal(len(corpus), len(model), 'the number of messages')
    case.check(set(corpus) == set(model), 'the keys', sorted(set(corpus) ^ set(model))[:5])
    case.check(all(corpus[k] is m for k, m in model.items()), 'another message has that key')
    case.check(all((corpus.get(k) is not None) == (k in model) for k in ids), 'a message is forgotten or remembered')
    case.distinct(most, sorted(model))


STREAMS = [('huge', 12, 200, huge), ('crowded', 30, 1000, run), ('histories', 9000, 80000, run)]
