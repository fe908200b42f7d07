"""S08: databases saved by earlier versions."""
import json
import os
import pickle
import shutil

from sbclassifier.classifiers.basic import Classifier
from sbclassifier.classifiers.storage import PickleClassifier
from sbclassifier.safepickle import pickle_read

from mon import gen
from mon.db import audit, audit_file
from mon.model import Ledger
from mon.scores import same
from mon.stores import close_store, open_store

LEVEL = 'exploration'
RULE = ('Databases saved by the code as it was before it was changed ("base": pickle, dbm and pickles of a plain '
        'classifier in every protocol from 0 to 4) and as it is now ("now": also cdb, and dbm with tokens that are bytes) are kept with the '
        'list of the messages trained when they were saved (folder golden, made by tools/mkgolden.py). A case opens a '
        'copy of one of them: totals, counts and the set of tokens must be exactly those of the messages, scores and '
        'evidence those of an in-memory classifier trained with them; then it untrains some or all of these '
        'messages, trains others, saves, opens again (several sessions), with the same comparison after every '
        'session; an opened pickle also goes through pickling and loads into a classifier in use. '
        'Non-trivial: every case; distinct by database and steps.')
ASSUMPTIONS = ['the database is read on the platform on which it was saved (the file format of dbm is that of its library)']
NEED = {'base': 300, 'now': 300, 'pickle': 150, 'dbm': 150, 'cdb': 100, 'plain': 100, 'untrained': 1500, 'scores': 3000,
        'sessions': 800, 'emptied': 40}
GOLDEN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'golden')
NAMES = sorted(n[:-5] for n in os.listdir(GOLDEN) if n.endswith('.json'))


def messages(name):
    with open(os.path.join(GOLDEN, name + '.json')) as f:
        return [([t.encode('latin-1') if k == 'b' else t for k, t in tokens], s) for tokens, s in json.load(f)]


def judge(case, kind, c, ledger, memory, vocab, what):
    rng = case.rng
    bad = audit(kind, c, ledger, extra=rng.sample(vocab, min(len(vocab), 20)))
    case.check(not bad, 'the counts are not as saved', what, bad)
    for _ in range(rng.randint(1, 4)):
        m = rng.sample(vocab, rng.randint(0, min(len(vocab), 60)))
        complaint = same(c.spamprob(gen.shape(rng, m), True), memory.spamprob(list(m), True))
        case.check(complaint is None, 'the scores are not those of the training saved', what, complaint, m)
        case.count('scores')


def run(case):
    rng = case.rng
    name = NAMES[case.index % len(NAMES)]
    origin, kind, _ = name.split('-')
    path = case.path('db')
    suffix = '.db' if kind == 'dbm' else ''
    shutil.copyfile(os.path.join(GOLDEN, name + suffix), path + suffix)
    ledger, memory = Ledger(), Classifier()
    trained = messages(name)
    for tokens, s in trained:
        ledger.learn(tokens, s)
        memory.learn(tokens, s)
    vocab = sorted(ledger.universe) + ([b'never seen', b'nor this'] if any(isinstance(t, bytes) for t in ledger.universe) else ['never seen'])
    case.step(name)
    case.count(origin)
    case.count(kind)
    if kind == 'plain':
        c = pickle_read(path)
        case.check(isinstance(c, Classifier), 'the pickle is not a classifier', c)
        judge(case, 'memory', c, ledger, memory, vocab, name)
        d = PickleClassifier(case.path('other'))
        if rng.random() < .5:
            # The state of any classifier is one of a pickle.
            d.__setstate__(c.__getstate__())
            judge(case, 'pickle', d, ledger, memory, vocab, name)
        kind = 'memory'
    elif kind == 'pickle' and rng.random() < .3:
        c = open_store(kind, case.path('missing'))
        c.learn(['left', 'over'], rng.random() < .5)
        c.spamprob(['left'] + vocab[:5])
        c.filename = path
        c.load()
        judge(case, kind, c, ledger, memory, vocab, name)
        if rng.random() < .5:
            judge(case, kind, pickle.loads(pickle.dumps(c)), ledger, memory, vocab, name)
    else:
        c = open_store(kind, path)
        case.cleanup.append(lambda: close_store(c))
        judge(case, kind, c, ledger, memory, vocab, name)
    everything = rng.random() < .2
    for session in range(rng.randint(1, 3)):
        case.count('sessions')
        rng.shuffle(trained)
        for _ in range(len(trained) if everything else rng.randint(0, 6)):
            if trained and (everything or rng.random() < .6):
                tokens, s = trained.pop()
                case.step('unlearn', tokens, s)
                memory.unlearn(tokens, s)
                ledger.unlearn(tokens, s)
                gen.do(c, rng, 'unlearn', tokens, s)
                case.count('untrained')
            else:
                tokens, s = gen.stream(rng, vocab, 12), rng.random() < .5
                case.step('learn', tokens, s)
                memory.learn(tokens, s)
                ledger.learn(tokens, s)
                gen.do(c, rng, 'learn', tokens, s)
                trained.append((tokens, s))
        if everything and not trained:
            case.count('emptied')
        judge(case, kind, c, ledger, memory, vocab, name)
        if kind == 'memory':
            c = pickle.loads(pickle.dumps(c))
        else:
            c.store()
            if kind == 'pickle' and rng.random() < .3:
                c.load()
                judge(case, kind, c, ledger, memory, vocab, name)
            close_store(c)
            bad = audit_file(kind, path, ledger)
            case.check(not bad, 'the database is not as saved', name, bad)
            c = open_store(kind, path)
        judge(case, kind, c, ledger, memory, vocab, name)
    case.distinct(name, case.log)


STREAMS = [('golden', 2000, 20000, run)]
