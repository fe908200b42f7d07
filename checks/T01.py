"""T01: trainers against a classifier trained from scratch."""
import os

from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora.base import Corpus
from sbclassifier.corpora.filesystem import ExpiryFileCorpus, FileCorpus
from sbclassifier.message import from_bytes
from sbclassifier.tokenizer import tokenize
from sbclassifier.trainers import HamTrainer, SpamTrainer, Trainer

from mon import mail
from mon.db import audit
from mon.model import Ledger
from mon.stores import close_store, open_store

LEVEL = 'exploration'
RULE = ('A case has a spam and a ham trainer over several in-memory and file corpora (with memory caches '
        'of one message and more), and corpora of no trainer; it adds messages not in the corpus, removes '
        'messages in it (the object added, or one read back from the file), moves messages between corpora '
        'and makes changes with notification off. After every step totals and all counts of the classifier '
        '(in memory or dbm) are compared with a classifier trained from scratch on the messages there, and '
        'each message says whether and as what it is trained. Messages range from plain to damaged. '
        'Stream "large" has up to 120 messages and a classifier that learned hundreds before. Non-trivial: a message was moved from one class to the other; distinct by the sequence.')
ASSUMPTIONS = ['in file corpora, messages that the email package generates back as they were parsed',
               'a message trained with notification on is removed with it on, or never trained again',
               'the mark of a message in several corpora is that of what was done last']
NEED = {'in several corpora': 150, 'marked before': 300, 'corpora of more than 30 messages': 3, 'taught before': 20, 'steps': 8000, 'moves between classes': 700, 'untrained': 2000, 'untrained from file': 80,
        'quiet changes': 700, 'records compared': 200000}


def make(rng, stable):
    """A message; a stable one is generated back as it was parsed."""
    while True:
        data = rng.choice([mail.plain, mail.plain, mail.message, mail.hostile])(rng)
        if not mail.readable(data):
            continue
        message = from_bytes(data)
        if not stable:
            return message, data
        try:
            content = message.as_bytes()
            if from_bytes(content).as_bytes() == content:
                return from_bytes(content), content
        except Exception:
            continue


def run(case):
    rng = case.rng
    ledger = Ledger()
    if rng.random() < .2:
        classifier = open_store('dbm', case.path('db'))
        case.cleanup.append(lambda: close_store(classifier))
    else:
        classifier = Classifier()
    large = case.stream == 'large'
    if large or rng.random() < .04:
        # The classifier has learned hundreds of messages before.
        for _ in range(rng.randint(1, 3)):
            tokens, is_spam = sorted(set(tokenize(make(rng, False)[0])), key=repr), rng.random() < .5
            for _ in range(rng.randint(20, 300)):
                classifier.learn(tokens, is_spam)
                ledger.learn(tokens, is_spam)
            if large:
                continue
            case.count('taught before')
    corpora = []
    for k in range(rng.randint(3, 6)):
        kind = rng.choice(['memory', 'memory', 'file', 'file', 'expiring'])
        role = k if k < 2 else rng.choice([0, 1, 2])
        if kind == 'memory':
            corpus = Corpus()
        else:
            os.mkdir(case.path('c%d' % k))
            args = (case.path('c%d' % k), '*', rng.choice([1, 2, 100]))
            corpus = FileCorpus(*args) if kind == 'file' else ExpiryFileCorpus(1e9, *args)
        corpora.append((corpus, kind, (True, False, None)[role]))
    spam = [c for c, _, s in corpora if s is True]
    ham = [c for c, _, s in corpora if s is False]
    if rng.random() < .5:
        trainers = [SpamTrainer(classifier, rng.choice([list, tuple, iter])(spam)),
                    HamTrainer(classifier, rng.choice([list, tuple, iter])(ham))]
    else:
        trainers = [Trainer(classifier, True, spam), Trainer(classifier, False, (c for c in ham))]
    # What is in each corpus: id -> [message added, features, trained as]
    content = [{} for _ in corpora]
    ids = ['m%d' % i for i in range(rng.randint(100, 200) if large else rng.randint(2, 8))]
    history = []
    crossed = False

    def add(i, message, key, quiet):
        corpus, kind, role = corpora[i]
        features = sorted(set(tokenize(message)), key=repr)
        was = message.is_trained()
        corpus.add_message(message, **({'emit_signal': False} if quiet else {}))
        trained = None if quiet else role
        if trained is not None:
            ledger.learn(features, trained)
            case.check(message.is_trained() is trained, 'the message does not remember what it is trained as',
                       message.is_trained(), trained)
        else:
            case.check(message.is_trained() is was, 'a message is marked that was not trained',
                       message.is_trained(), was)
        content[i][key] = [message, features, trained, not quiet]

    def remove(i, key):
        corpus, kind, role = corpora[i]
        held, features, trained, loud = content[i].pop(key)
        message = held
        if kind != 'memory' and rng.random() < .6:
            message = corpus[key]
        quiet = not loud
        if trained is not None and rng.random() < .06:
            quiet = True
        if message is not held:
            case.count('untrained from file', trained is not None and not quiet)
        was = message.is_trained()
        corpus.remove_message(message, **({'emit_signal': False} if quiet else {}))
        if quiet:
            case.count('quiet changes')
            case.check(message.is_trained() is was, 'a quiet removal untrains', was)
        elif trained is not None:
            ledger.unlearn(features, trained)
            case.count('untrained')
            case.check(id(held) in shared or message.is_trained() is None, 'the message does not remember that it is not trained')
        return message, quiet and trained is not None

    case.step([(k, s) for _, k, s in corpora], type(classifier).__name__)
    lost = set()
    shared = set()
    for at in range(rng.randint(100, 300) if large else rng.randint(4, 25)):
        i = rng.randrange(len(corpora))
        stable = any(k != 'memory' for _, k, _ in corpora)
        here = sorted(content[i])
        r = rng.random()
        if r < (.75 if large else .5) or not here:
            key = rng.choice(ids)
            if key in content[i] or key in lost:
                continue
            message, data = make(rng, stable)
            message.set_id(key)
            if rng.random() < .1:
                # Marked before (elsewhere): no reason not to train it.
                message.remember_trained(rng.choice([True, False]))
                case.count('marked before')
            quiet = rng.random() < .12
            case.count('quiet changes', quiet)
            case.step('add', i, key, quiet, data)
            history.append(('add', i, key, quiet))
            add(i, message, key, quiet)
        elif r < .7:
            key = rng.choice(here)
            case.step('remove', i, key)
            history.append(('remove', i, key))
            _, gone = remove(i, key)
            if gone:
                lost.add(key)
        else:
            key = rng.choice(here)
            j = rng.randrange(len(corpora))
            if key in content[j]:
                continue
            if content[i][key][3] and rng.random() < .25:
                # In both corpora from now on; the mark is of what was done last.
                case.step('also', i, j, key)
                history.append(('also', i, j, key))
                message = content[i][key][0]
                shared.add(id(message))
                add(j, message, key, False)
                case.count('in several corpora')
                continue
            case.step('move', i, j, key)
            history.append(('move', i, j, key))
            message, gone = remove(i, key)
            if gone:
                lost.add(key)
            else:
                if message.id() is None:
                    message.set_id(key)
                if None not in (corpora[i][2], corpora[j][2]) and corpora[i][2] != corpora[j][2]:
                    crossed = True
                    case.count('moves between classes')
                add(j, message, key, False)
        case.count('steps')
        case.equal((classifier.nspam, classifier.nham), (ledger.nspam, ledger.nham),
                   'the totals are not those of the messages in the corpora')
        if large and at % 20:
            continue
        bad = audit('dbm' if hasattr(classifier, 'db') else 'memory', classifier, ledger)
        case.count('records compared', len(ledger.universe))
        case.check(not bad, 'the counts are not those of the messages in the corpora', bad)
    bad = audit('dbm' if hasattr(classifier, 'db') else 'memory', classifier, ledger)
    case.check(not bad, 'the counts are not those of the messages in the corpora', bad)
    case.count('corpora of more than 30 messages', sum(len(c) > 30 for c in content) if large else 0)
    for i, (corpus, kind, role) in enumerate(corpora):
        case.equal(sorted(corpus.keys()), sorted(content[i]), 'the corpora do not hold the messages they were given')
    if crossed:
        case.distinct([(k, s) for _, k, s in corpora], history)
        case.sample(case.log)


STREAMS = [('large', 20, 600, run), ('histories', 2600, 20000, run)]
