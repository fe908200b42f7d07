"""K05: who is told what, when and how often."""
import collections
import os

from sbclassifier.corpora import message_added, message_removed
from sbclassifier.corpora.base import Corpus
from sbclassifier.corpora.caches import NaiveCache
from sbclassifier.corpora.filesystem import ExpiryFileCorpus, FileCorpus
from sbclassifier.message import from_bytes

from mon import mail

LEVEL = 'exploration'
RULE = ('A case runs additions (also of ids present), removals, moves, lookups, expiry runs, evictions and '
        'refused operations, with notification on or off, on 2 to 4 corpora (in memory with and without '
        'maximum, of files, expiring), with observers of one corpus or of all that come and go; some '
        'observers pass messages on to another corpus. Every notification is recorded with its signal, '
        'corpus, message, and whether the corpus had already changed, and after every operation the '
        'record must be exactly the expected one. Non-trivial: at least two observers of different scope '
        'heard something; distinct by corpora and sequence.')
ASSUMPTIONS = ['observers do not raise', 'messages that are not in a corpus are not removed from it']
NEED = {'operations on more than 20 messages': 300, 'notifications': 10000, 'quiet operations': 1500, 'refused': 400, 'evictions': 800,
        'expired': 80, 'same object again': 800, 'passed on': 800, 'operations': 12000}


class Observer:

    def __init__(self, case, log, sender, signals, forward=None):
        self.case, self.log, self.sender, self.forward = case, log, sender, forward
        self.signals = signals
        if 'added' in signals:
            if sender is None:
                message_added.connect(self.added)
            else:
                message_added.connect(self.added, sender=sender)
        if 'removed' in signals:
            if sender is None:
                message_removed.connect(self.removed)
            else:
                message_removed.connect(self.removed, sender=sender)

    def leave(self):
        message_added.disconnect(self.added)
        message_removed.disconnect(self.removed)

    def added(self, sender, message):
        there = message.id() in sender
        found = sender.get(message.id())
        same = found is not None and (found is message or found.as_bytes() == message.as_bytes())
        self.log.append((self, 'added', sender, message, there and same))
        if self.forward is not None and sender is not self.forward[0]:
            to, emit = self.forward
            to.add_message(message, emit_signal=emit)

    def removed(self, sender, message):
        self.log.append((self, 'removed', sender, message,
                         message.id() not in sender and sender.get(message.id()) is None))


def make_corpus(case, k, rng):
    kind = rng.choice(['memory', 'memory', 'bounded', 'file', 'file', 'expiring'])
    if kind == 'memory':
        return kind, Corpus()
    if kind == 'bounded':
        return kind, Corpus(cache=NaiveCache(max_size=rng.choice([1, 2, 3] if case.stream != 'crowded' else [10, 30])))
    directory = case.path('corpus%d' % k)
    os.mkdir(directory)
    size = case.sizes[directory] = rng.choice([1, 2, 100])
    if kind == 'file':
        return kind, FileCorpus(directory, '*.msg', cache_size=size)
    return kind, ExpiryFileCorpus(rng.choice([0, -1e9, 1e9]), directory, '*.msg', size)


def run(case):
    rng = case.rng
    corpora = []
    case.sizes = {}
    for k in range(rng.randint(2, 4)):
        corpora.append(make_corpus(case, k, rng))
    log, observers = [], []
    case.cleanup.append(lambda: [o.leave() for o in observers])
    crowded = case.stream == 'crowded'
    ids = ['%d.msg' % i for i in range(rng.randint(2, 6) if not crowded else rng.choice([40, 150]))]
    bad = ['x', '../y.msg', 'a/b.msg', '', '\0.msg', '\ud800.msg']
    history = []
    heard = set()
    first = rng.randint(1, 3)

    def expect(signal, corpus, message, emit):
        """The notifications due for one change, in any order, with those passed on."""
        due = []
        if not emit:
            return due
        for o in observers:
            if (o.sender is None or o.sender is corpus) and signal in o.signals:
                due.append((o, signal, corpus, message))
                if signal == 'added' and o.forward is not None and corpus is not o.forward[0]:
                    case.count('passed on')
                    due.extend(expect('added', o.forward[0], message, o.forward[1]))
        return due

    def tally(entries):
        return collections.Counter((observers.index(o), s, [c for _, c in corpora].index(c), id(m))
                                   for o, s, c, m in entries)
    case.step([k for k, _ in corpora])
    for _ in range(rng.randint(5, 30) if not crowded else rng.randint(100, 400)):
        del log[:]
        due = []
        r = rng.random()
        kind, corpus = rng.choice(corpora)
        key = rng.choice(ids)
        emit = rng.random() < .8
        by_default = emit and rng.random() < .5
        flag = {} if by_default else {'emit_signal': emit}
        if len(observers) < first or len(observers) < 4 and r < .06:
            forward = None
            if rng.random() < .2:
                k2, to = rng.choice(corpora)
                if not any(o.forward for o in observers):
                    forward = to, rng.random() < .7
            o = Observer(case, log, rng.choice([None, corpus, corpus]),
                         rng.choice([('added',), ('removed',), ('added', 'removed'), ('added', 'removed')]), forward)
            observers.append(o)
            history.append(('observer', o.sender is None, o.signals))
        elif r < .08:
            observers.pop(rng.randrange(len(observers))).leave()
            history.append('leave')
        elif r < .55:
            message = from_bytes(mail.plain(rng), key)
            there = corpus.get(key)
            if there is None and rng.random() < .3:
                # The same object in several corpora.
                there = next((c.get(key) for _, c in corpora if c.get(key) is not None), None)
            if there is not None and there.id() == key and rng.random() < .35:
                message = there
                case.count('same object again')
            before = len(corpus)
            new = key not in corpus
            due = expect('added', corpus, message, emit)
            corpus.add_message(message, **flag)
            case.count('evictions', kind == 'bounded' and new and len(corpus) == before
                       or kind in ('file', 'expiring') and len(corpus) > case.sizes[case.path('corpus%d' % [c for _, c in corpora].index(corpus))])
            history.append(('add', key, emit))
        elif r < .75:
            there = corpus.get(key)
            if there is None or there.id() != key:
                continue
            message = there if rng.random() < .7 else from_bytes(mail.plain(rng), key)
            due = expect('removed', corpus, message, emit)
            corpus.remove_message(message, **flag)
            history.append(('remove', key, emit))
        elif r < .82:
            if kind not in ('file', 'expiring'):
                continue
            message = from_bytes(mail.plain(rng))
            try:
                corpus.add_message(message, message_id=rng.choice(bad), **flag)
            except Exception:
                case.count('refused')
            else:
                case.fail('harness: an id was not refused')
            history.append('refused')
        elif r < .92:
            corpus.get(key), key in corpus, len(corpus), list(corpus), list(corpus.keys())
            list(corpus.values()), list(corpus.items()), corpus.get('absent')
            history.append('look')
        else:
            if kind != 'expiring':
                continue
            before = len(corpus)
            corpus.remove_expired_messages()
            case.count('expired', before - len(corpus))
            history.append('expire')
        case.step(history[-1])
        case.count('operations')
        case.count('operations on more than 20 messages', len(corpus) > 20)
        case.count('quiet operations', not due)
        case.count('notifications', len(log))
        got, want = tally([e[:4] for e in log]), tally(due)
        case.check(got == want, 'wrong notifications (observer, signal, corpus, message): times', history[-1],
                   'surplus %r' % dict(got - want), 'missing %r' % dict(want - got))
        if not any(o.forward for o in observers):
            case.check(all(e[4] for e in log), 'an observer was told before the corpus had changed', history[-1])
        heard |= {e[0].sender is None for e in log}
    if len(heard) == 2:
        case.distinct([k for k, _ in corpora], history)
        case.sample(case.log)
    case.state([k for k, _ in corpora], [len(c) for _, c in corpora], len(observers))


STREAMS = [('crowded', 30, 800, run), ('histories', 6000, 40000, run)]
