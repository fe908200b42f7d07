SEEDS = S = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


B = 'classifiers/basic.py'
ST = 'classifiers/storage.py'
M = 'message.py'
T = 'tokenizer.py'
SP = 'strippers.py'
CF = 'corpora/filesystem.py'

add('X08-frames', 'X08', [(SP, r'''Stripper(re.compile(br"<\s*noframes\s*>").search''', r'''Stripper(re.compile(br"<\s*noframes\b[^>]*>").search''')], """
import time
from sbclassifier.tokenizer import tokenize
from sbclassifier.message import from_bytes
def t(n):
    m = from_bytes(b'Subject: x\\n\\n' + b'<noframes ' * n)
    best = 1e9
    for _ in range(3):
        s = time.process_time()
        list(tokenize(m))
        best = min(best, time.process_time() - s)
    return best
a, b = t(10000), t(40000)
assert b < .5 or b < 7 * a, (a, b)
""", 'many unfinished noframes tags', 'tokenizing takes quadratic time')

add('X08-copies', 'X08', [(SP, '''            tokens.extend(self.tokenize(m))
''', '''            tokens = tokens + self.tokenize(m)
''')], """
import time
from sbclassifier.tokenizer import tokenize
from sbclassifier.message import from_bytes
def t(n):
    m = from_bytes(b'Subject: x\\n\\n' + b'http://a/b.c ' * n)
    best = 1e9
    for _ in range(3):
        s = time.process_time()
        list(tokenize(m))
        best = min(best, time.process_time() - s)
    return best
a, b = t(8000), t(32000)
assert b < .5 or b < 9 * a, (a, b)
""", 'a message with tens of thousands of URLs', 'tokenizing takes quadratic time')

add('X08-overlap', 'X08', [(B, '''            seen = set()
            for tup, indices in raw:
''', '''            seen = []
            for tup, indices in raw:
'''), (B, '''                    seen.update(indices)
''', '''                    seen.extend(indices)
''')], """
import time
from sbclassifier.classifiers.basic import Classifier
def t(n):
    c = Classifier(use_bigrams=True)
    words = [b'w%d' % i for i in range(n)]
    c.learn(words, True)
    best = 1e9
    for _ in range(2):
        s = time.process_time()
        c.spamprob(words)
        best = min(best, time.process_time() - s)
    return best
a, b = t(5000), t(20000)
assert b < .5 or b < 9 * a, (a, b)
""", 'bigrams, and a message with thousands of distinct strong tokens', 'scoring takes quadratic time')

CC = 'corpora/caches.py'
add('K07-sorted', 'K07', [(CC, '''        return (f for f in os.listdir(self.directory) if self._is_message(f))
''', '''        # The oldest first.
        names = os.listdir(self.directory)
        names.sort(key=lambda f: os.stat(os.path.join(self.directory,
                                                      f)).st_mtime)
        return (f for f in names if self._is_message(f))
''')], """
import os, tempfile
from sbclassifier.corpora.filesystem import FileCorpus
d = tempfile.mkdtemp()
for k in 'ab':
    open(os.path.join(d, k), 'w').close()
c = FileCorpus(d)
real = os.listdir
def listdir(x):
    # Another process removes a file right after it was listed.
    names = real(x)
    if os.path.exists(os.path.join(d, 'a')):
        os.remove(os.path.join(d, 'a'))
    return names
os.listdir = listdir
assert list(c.keys()) == ['b']
""", 'another process removes a message between the listing and the look at its time', 'listing the messages fails')

add('K07-expired', 'K07', [(CF, '''            end_time = timestamp + self.expireBefore
''', '''            # Messages that were restored are not as young as they look.
            path = os.path.join(self.message_cache.directory, key)
            end_time = (min(timestamp, os.path.getctime(path))
                        + self.expireBefore)
''')], """
import os, signal, tempfile, time
from sbclassifier.corpora.filesystem import ExpiryFileCorpus
d = tempfile.mkdtemp()
pid = os.fork()
if pid == 0:
    while True:
        for k in range(20):
            open(os.path.join(d, 'm%d' % k), 'w').close()
        for k in range(20):
            os.unlink(os.path.join(d, 'm%d' % k))
try:
    end = time.time() + 15
    c = ExpiryFileCorpus(1000, d)
    while time.time() < end:
        c.expiry_due = 0
        c.remove_expired_messages()
finally:
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
""", 'another process removes a message while expired ones are looked for', 'looking for expired messages fails')

add('C07-distance', 'C07', [(B, '''        distance = abs(prob - 0.5)
''', '''        distance = abs(prob - UNKNOWN_WORD_PROB)
''')], """
from sbclassifier.classifiers import basic
basic.UNKNOWN_WORD_PROB = .3
c = basic.Classifier()
for _ in range(9):
    c.learn([b'a'], True)
    c.learn([b'a'], False)
clues = c.spamprob([b'b'], True)[1]
assert (b'b', .3) in clues, clues
assert len(c.spamprob([b'a'], True)[1]) == 2
""", 'UNKNOWN_WORD_PROB other than one half', 'the strength of a clue is no longer its distance from one half')

add('C07-unknown', 'C07', [(B, '''        if record is None:
            prob = UNKNOWN_WORD_PROB
        else:
''', '''        if record is None:
            # A word never seen before says nothing.
            return 0.0, UNKNOWN_WORD_PROB, word, None
        else:
''')], """
from sbclassifier.classifiers import basic
basic.UNKNOWN_WORD_PROB = .7
c = basic.Classifier()
c.learn([b'a'], True)
clues = c.spamprob([b'b'], True)[1]
assert (b'b', .7) in clues, clues
""", 'UNKNOWN_WORD_PROB further from one half than the minimum strength', 'unknown words are no clues')

add('C07-positions', 'C07', [(B, '''                if not overlap:  # no overlap with anything already in clues
''', '''                # No more than 150 are used.
                if not overlap and len(clues) < 150:
''')], """
from sbclassifier.classifiers import basic
basic.MAX_DISCRIMINATORS = 300
c = basic.Classifier(True)
words = [b'w%d' % i for i in range(400)]
c.learn(words, True)
assert len(c.spamprob(words, True)[1]) > 152
""", 'bigrams and MAX_DISCRIMINATORS above 150', 'more than 150 clues are never used')

add('S07-again', 'S07', [(ST, '''        self.db = shelve.open(self.filename, self.flag)
''', '''        # The file was there the first time.
        self.db = shelve.open(self.filename,
                              self.flag if self.db is None else 'w')
''')], """
import os, tempfile
from sbclassifier.classifiers.storage import ShelveClassifier
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'db')
    c = ShelveClassifier(p)
    c.learn([b'a', b'b'], True)
    c.store()
    c.close()
    c = ShelveClassifier(p, 'r')
    c.load()
    try:
        c.learn([b'c'], False)
        c.store()
    except Exception:
        pass
    else:
        raise SystemExit('a database opened for reading was changed')
    c.close()
    c = ShelveClassifier(p, 'r')
    assert (c.nspam, c.nham) == (1, 0)
""", 'a dbm database opened for reading and loaded again', 'it can be changed')

add('S07-often', 'S07', [(ST, '''    def close(self):
        pass


class Pickle''', '''    def close(self):
        """Releases the database."""

    def _post_training(self):
        # Long sessions should not lose everything.
        if (self.nspam + self.nham) % 10 == 0:
            self.store()


class Pickle''')], """
import os, tempfile
from sbclassifier.classifiers.storage import CDBClassifier, PickleClassifier
for kind in CDBClassifier, PickleClassifier:
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'db')
        c = kind(p)
        for i in range(12):
            c.learn([b'a', b'b'], i % 2 == 0)
        assert os.listdir(d) == [], os.listdir(d)
""", 'the number of messages trained is a multiple of ten', 'training is saved although nobody asked for it')
