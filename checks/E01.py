"""E01: a whole mail filter, session after session, knows exactly what it was taught."""
import copy
import os
import time

from sbclassifier.classifiers.basic import Classifier
from sbclassifier.classifiers.constants import HAM_CUTOFF, SPAM_CUTOFF
from sbclassifier.corpora.filesystem import ExpiryFileCorpus, FileCorpus
from sbclassifier.message import Classification, from_bytes
from sbclassifier.tokenizer import tokenize
from sbclassifier.trainers import HamTrainer, SpamTrainer

from mon import heads, mail, standin
from mon.db import audit
from mon.model import Ledger
from mon.proc import Child, kill_self
from mon.stores import STORED, close_store, open_store

LEVEL = 'exploration'
RULE = ('A case is the history of a mail filter over several sessions, each a process of its own that opens a stored classifier '
        '(pickle, dbm, cdb), directories of unsorted mail, spam and ham, and trainers on the latter two. Mail arrives: headers that '
        'pretend to be of the filter are removed, it is scored, marked with drawn options, stored (marked or not) and delivered. The user sorts messages into spam and ham - by '
        'id, or by handing back the marked copy that was delivered -, corrects them, deletes them; time passes and old messages '
        'expire; the session saves and is killed, or ends. The monitor keeps the original messages and a ledger. Each score and its '
        'evidence must be that of an in-memory classifier taught the same original messages from scratch at that point, the '
        'verdict in the delivered message must be that of the score, and after each session a new process must find in the '
        'database exactly the counts of the ledger (expired messages stay learned), and in the directories exactly the '
        'messages due, which without the marks are as they arrived. Non-trivial: messages were corrected or expired after they '
        'were trained in an earlier session; distinct by history.')
ASSUMPTIONS = ['messages that the email package generates back as they were parsed', 'each session saves before it ends',
               'every message has an id of its own']
NEED = {'scored again': 300, 'big messages': 4, 'taught hundreds of messages': 10, 'sessions': 900, 'arrived': 3000, 'forged': 400, 'sorted': 1500, 'sorted by the delivered copy': 300, 'corrected': 150, 'deleted': 200,
        'expired': 200, 'trained messages that expired': 50, 'kills': 300, 'scores of a taught filter': 1500, 'records compared': 100000}
START = 1_400_000_000.0
LIMIT = {'spam': 1000.0, 'ham': 2000.0, 'new': 500.0}


def stable_message(rng):
    """(bytes that are generated as they were parsed, tokens)."""
    while True:
        data = rng.choice([mail.plain, mail.plain, mail.message])(rng)
        if not mail.readable(data, True):
            continue
        message = from_bytes(data)
        for name in heads.OWN:
            del message[name]
        if rng.random() < .006 and not message.is_multipart() and message.get('content-transfer-encoding') is None:
            # A message of hundreds of kilobytes.
            message._payload += '\n' + '\n'.join('line %d' % i for i in range(rng.choice([9000, 12000]))) + '\n'
        try:
            data = message.as_bytes()
            again = from_bytes(data)
            if again.as_bytes() != data or not again.keys() or again.defects:
                continue
        except Exception:
            continue
        return data, list(tokenize(from_bytes(data)))


class Clock:
    """The time, and when the files in the directories were changed."""

    def __init__(self, root, now, changed):
        self.root, self.now, self.changed = root, now, dict(changed)
        standin.clock(lambda: self.now, self.stat)

    def stat(self, real, path, *args, **kw):
        s = real(path, *args, **kw)
        if isinstance(path, (str, os.PathLike)):
            where = os.path.relpath(os.path.abspath(path), self.root)
            t = self.changed.get(where, self.now)
            seq = list(s)[:10]
            seq[7:10] = [int(t)] * 3
            return os.stat_result(seq, {'st_atime': t, 'st_mtime': t, 'st_ctime': t, 'st_atime_ns': int(t * 1e9),
                                        'st_mtime_ns': int(t * 1e9), 'st_ctime_ns': int(t * 1e9), 'st_blksize': 4096,
                                        'st_blocks': 8, 'st_rdev': 0})
        return s


def forge(rng, data):
    """The message as an impostor sends it."""
    message = from_bytes(data)
    for _ in range(rng.randint(1, 3)):
        message[rng.choice(heads.OWN)] = rng.choice(['ham', 'spam', 'm1.msg', '0.00', 'other words', "'*H*': 1.00"])
    return message.as_bytes()


def options(rng):
    return {'include_evidence': rng.random() < .5, 'include_score': rng.random() < .5, 'include_thermostat': rng.random() < .5,
            'header_score_logarithm': rng.random() < .3, 'clue_mailheader_cutoff': rng.choice([.5, .2])}


def perform(kind, path, root, sizes, now, changed, steps, end):
    """What a session does, in its process."""
    def session(send):
        clock = Clock(root, now, changed)
        c = open_store(kind, path)
        corpora = {}
        for name in ('new', 'spam', 'ham'):
            directory = os.path.join(root, name)
            corpora[name] = ExpiryFileCorpus(LIMIT[name], directory, '*.msg', sizes[name])
        trainers = [SpamTrainer(c, [corpora['spam']]), HamTrainer(c, [corpora['ham']])]
        seen = []
        for step in steps:
            what = step[0]
            if what == 'arrive':
                _, key, data, first, opts, notes = step
                m = from_bytes(data)
                # Headers with which the sender pretends to be the filter.
                m.remove_sb_headers(False, False)
                m.set_id(key)
                prob, clues = c.spamprob(tokenize(m), True)
                delivered = copy.deepcopy(m)
                if first:
                    # The filter keeps the marked message.
                    m.add_sb_headers(prob, clues, **opts)
                corpora['new'].add_message(m)
                delivered.add_sb_headers(prob, clues, notate_to=notes, notate_subject=notes, **opts)
                seen.append((prob, [(w, p) for w, p in clues], delivered.as_bytes(), delivered.classification().name))
            elif what == 'move':
                _, key, a, b, copy_of = step
                if copy_of is not None:
                    found = from_bytes(copy_of).set_id_from_payload()
                    seen.append(found)
                    if found != key:
                        break
                    key = found
                m = corpora[a][key]
                corpora[a].remove_message(m)
                corpora[b].add_message(m)
                clock.changed[b + '/' + key] = clock.now
                seen.append(m.is_trained())
            elif what == 'again':
                _, key, a, opts, notes = step
                m = corpora[a][key]
                prob, clues = c.spamprob(tokenize(m), True)
                delivered = copy.deepcopy(m)
                delivered.remove_sb_headers()
                delivered.add_sb_headers(prob, clues, notate_to=notes, notate_subject=notes, **opts)
                seen.append((prob, [(w, p) for w, p in clues], delivered.as_bytes(), delivered.classification().name))
            elif what == 'delete':
                _, key, a = step
                corpora[a].remove_message(corpora[a][key])
            elif what == 'expire':
                for name in step[1]:
                    corpora[name].remove_expired_messages()
            elif what == 'save':
                c.store()
            elif what == 'reload':
                c.store()
                c.load()
        c.store()
        del trainers
        send(('seen', seen))
        if end == 'kill':
            kill_self()
        if end == 'close':
            close_store(c)
    return session


def look(kind, path, root, ledger, model):
    """What another process finds afterwards."""
    def looking(send):
        c = open_store(kind, path)
        bad = audit(kind, c, ledger)
        close_store(c)
        content = {}
        for name in ('new', 'spam', 'ham'):
            corpus = FileCorpus(os.path.join(root, name), '*.msg', 3)
            for key, m in corpus.items():
                verdict = m['X-Spambayes-Classification']
                toks = list(tokenize(m))
                m.remove_sb_headers()
                content[name, key] = (m.as_bytes(), toks, verdict)
        return bad, content
    return looking


def verdict(p):
    return 'ham' if p < HAM_CUTOFF else 'spam' if p > SPAM_CUTOFF else 'unsure'


def run(case):
    rng = case.rng
    kind = STORED[case.index % 3]
    root = case.path('mail')
    for name in ('', 'new', 'spam', 'ham'):
        os.mkdir(os.path.join(root, name))
    path = case.path('db')
    sizes = {n: rng.choice([1, 2, 100]) for n in LIMIT}
    ledger, reference = Ledger(), Classifier()
    where, changed = {}, {}         # key -> directory; file -> time
    mails, delivered, since, kept = {}, {}, {}, {}
    now, n = START, 0
    nontrivial = False

    def teach(key, name, undo=False):
        data, tokens = mails[key]
        is_spam = name == 'spam'
        unique = sorted(set(tokens))
        (ledger.unlearn if undo else ledger.learn)(unique, is_spam)
        (reference.unlearn if undo else reference.learn)(unique, is_spam)
    if rng.random() < .7:
        # Messages that were learned before: the filter has opinions.
        c = open_store(kind, path)
        often = case.index % 20 == 0        # the same messages, over and over
        case.count('taught hundreds of messages', often)
        for _ in range(rng.randint(2, 12)):
            data, tokens = stable_message(rng)
            is_spam = rng.random() < .5
            for _ in range(rng.randint(1, 150) if often else 1):
                c.learn(tokens, is_spam)
                ledger.learn(sorted(set(tokens)), is_spam)
                reference.learn(tokens, is_spam)
        c.store()
        close_store(c)
    for session in range(rng.randint(2, 4)):
        now += rng.choice([1, 10, 300, 700, 1500, 2500])
        # Times of files as the session finds them; those it writes have its own.
        before = dict(changed)
        steps, expected = [], []
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            here = sorted(where)
            if r < .4 or not here:
                n += 1
                key = 'm%d.msg' % n
                if mails and rng.random() < .15:
                    mails[key] = mails[rng.choice(sorted(mails))]       # sent again
                else:
                    mails[key] = stable_message(rng)
                kept[key] = rng.random() < .6
                data = mails[key][0]
                case.count('big messages', len(data) > 70000)
                if rng.random() < .2:
                    data = forge(rng, data)
                    case.count('forged')
                steps.append(('arrive', key, data, kept[key], options(rng),
                              rng.choice([None, None, list(Classification), [Classification.spam]])))
                expected.append(('score', key, reference.spamprob(set(mails[key][1]), True), ledger.nspam > 0 and ledger.nham > 0))
                where[key] = 'new'
                changed['new/' + key] = now
            elif r < .5:
                # A message is shown again, with what is known now.
                key = rng.choice(here)
                steps.append(('again', key, where[key], options(rng), rng.choice([None, None, list(Classification)])))
                expected.append(('score', key, reference.spamprob(set(mails[key][1]), True), ledger.nspam > 0 and ledger.nham > 0))
                case.count('scored again')
            elif r < .75:
                key = rng.choice(here)
                a = where[key]
                b = rng.choice([x for x in ('spam', 'ham') if x != a])
                copy_of = delivered.get(key) if rng.random() < .5 else None
                steps.append(('move', key, a, b, copy_of))
                if copy_of is not None:
                    expected.append(('id', key))
                    case.count('sorted by the delivered copy')
                expected.append(('trained', b == 'spam'))
                if a != 'new':
                    teach(key, a, undo=True)
                    case.count('corrected')
                    nontrivial |= since[key] < session
                teach(key, b)
                case.count('sorted')
                where[key], since[key] = b, session
                del changed[a + '/' + key]
                changed[b + '/' + key] = now
            elif r < .85:
                key = rng.choice(here)
                steps.append(('delete', key, where[key]))
                if where[key] != 'new':
                    teach(key, where[key], undo=True)
                case.count('deleted')
                del changed[where.pop(key) + '/' + key]
            elif r < .95:
                names = [x for x in LIMIT if rng.random() < .7]
                steps.append(('expire', names))
                for key in here:
                    a = where[key]
                    if a in names and changed[a + '/' + key] + LIMIT[a] < now:
                        case.count('expired')
                        if a != 'new':
                            case.count('trained messages that expired')
                            nontrivial |= since[key] < session
                        del where[key], changed[a + '/' + key]
            else:
                steps.append((rng.choice(['save', 'reload']),))
        end = rng.choice(['kill', 'exit', 'close'])
        case.step(kind, 'session', session, now, end, steps)
        child = Child(perform(kind, path, root, sizes, now, before, steps, end))
        messages = child.wait()
        child.judge()
        case.count('sessions')
        case.count('kills', child.killed)
        seen = [m[1] for m in messages if isinstance(m, tuple) and m[0] == 'seen']
        case.check(len(seen) == 1, 'the session did not finish', child.status)
        for want, got in zip(expected, seen[0]):
            if want[0] == 'score':
                case.count('arrived')
                case.count('scores of a taught filter', want[3])
                prob, clues = want[2]
                case.check(abs(got[0] - prob) < 1e-9, 'the score of a message', want[1], got[0], prob)
                case.equal(sorted((w, round(p, 9)) for w, p in got[1]), sorted((w, round(p, 9)) for w, p in clues), 'the evidence', want[1])
                m = from_bytes(got[2])
                case.equal((m['X-Spambayes-Classification'], got[3]), (verdict(got[0]),) * 2, 'the verdict in the message delivered', want[1])
                delivered[want[1]] = got[2]
                case.state(verdict(prob), kind, where.get(want[1]))
            else:
                case.equal(got, want[1], {'id': 'the id in the message delivered', 'trained': 'how the message is trained'}[want[0]])
        case.equal(len(seen[0]), len(expected), 'results of the session')
        checker = Child(look(kind, path, root, ledger, where))
        checker.wait()
        bad, content = checker.judge()
        case.check(not bad, 'the saved counts are not those of the messages taught', kind, bad)
        case.count('records compared', len(ledger.universe))
        case.equal(sorted(content), sorted((a, k) for k, a in where.items()), 'messages in the directories')
        for (a, key), (data, tokens, mark) in content.items():
            case.equal(data, mails[key][0], 'the message in the directory, without the marks', key)
            case.equal(sorted(tokens), sorted(mails[key][1]), 'the tokens of the message in the directory', key)
            case.equal(mark is not None, kept[key], 'whether the message in the directory is marked')
    if nontrivial:
        case.distinct(case.log)


STREAMS = [('histories', 600, 12000, run)]
