S=[]
def add(id,prop,edits,demo,needs,breaks): S.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks))
add('C01-repeat','C01',[('classifiers/basic.py',"""        for word in set(wordstream):
            record = self._wordinfoget(word)
            if record is not None:""","""        for word in wordstream:
            record = self._wordinfoget(word)
            if record is not None:""")],"""
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
c.learn(['a', 'b', 'a'], True)
c.learn(['a'], True)
c.unlearn(['a', 'b', 'a'], True)
assert c.wordinfo['a'].spamcount == 1, dict(c.wordinfo)
""",'a message in which a token is repeated is untrained while the token has been seen in another message','the token count is decreased once per repetition')
add('C02-cache','C02',[('classifiers/basic.py',"""    def _remove_msg(self, wordstream, is_spam):
        # If the tokens cannot be produced, then nothing has changed.
        wordstream = set(wordstream)
        self._probcache = {}    # nuke the prob cache
""","""    def _remove_msg(self, wordstream, is_spam):
        # If the tokens cannot be produced, then nothing has changed.
        wordstream = set(wordstream)
        if not self.nspam or not self.nham:
            self._probcache = {}    # nothing to compare with
""")],"""
from sbclassifier.classifiers.basic import Classifier
def trained():
    c = Classifier()
    c.learn(['a'], True)
    c.learn(['a'], False)
    c.learn(['b'], False)
    return c
c = trained()
before = c.spamprob(['a', 'b'], True)
c.learn(['x'], True)
c.spamprob(['a', 'b'])
c.unlearn(['x'], True)
after = c.spamprob(['a', 'b'], True)
assert before == after, (before, after)
""",'training, then scoring, then untraining, while messages of both classes are trained','probabilities cached while the message was trained are used after it was untrained')
add('C03-underflow','C03',[('classifiers/basic.py',"""                H, e = math.frexp(H)
                Hexp += e""","""                H, e = math.frexp(H)
                Hexp = e""")],"""
import math
from sbclassifier.classifiers.basic import Classifier
def score(n, spam):
    c = Classifier()
    words = ['w%d' % i for i in range(n)]
    for i in range(3000):
        c.nspam += 1
        c.nham += 1
    from sbclassifier.classifiers.basic import WordInfo
    for w in words:
        c.wordinfo[w] = WordInfo(3000, 0) if spam else WordInfo(0, 3000)
    c.wordinfo['strong'] = WordInfo(0, 1) if spam else WordInfo(1, 0)
    return c, c.spamprob(words + ['strong'], True)
for spam in (True, False):
    c, (p, clues) = score(149, spam)
    ps = [q for w, q in clues if w not in (b'*H*', b'*S*')]
    x = -2 * sum(math.log(q) for q in ps)
    # chi-squared tail with 2n degrees of freedom
    n = len(ps)
    t = math.exp(-x / 2) if x < 1400 else 0.0
    term, total = -x / 2, None
    logs = [-x / 2]
    for i in range(1, n):
        logs.append(logs[-1] + math.log(x / 2 / i))
    m = max(logs)
    tail = min(1.0, math.exp(m) * sum(math.exp(l - m) for l in logs))
    H = dict(clues)[b'*H*']
    assert abs(H - (1 - tail)) < 1e-9, (H, 1 - tail, n)
from sbclassifier.classifiers.basic import WordInfo
import random
rng = random.Random(5)
for k in range(200):
    c = Classifier()
    c.nspam = c.nham = 5000
    words = ['w%d' % i for i in range(150)]
    for w in words:
        c.wordinfo[w] = WordInfo(rng.choice([0, 0, 4000]), rng.choice([4000, 1, 900]))
    p, clues = c.spamprob(words, True)
    ps = [q for w, q in clues if w not in (b'*H*', b'*S*')]
    x2 = -sum(math.log(q) for q in ps)
    logs = [-x2]
    for i in range(1, len(ps)):
        logs.append(logs[-1] + math.log(x2 / i))
    m = max(logs)
    tail = min(1.0, math.exp(m) * sum(math.exp(l - m) for l in logs))
    assert abs(dict(clues)[b'*H*'] - (1 - tail)) < 1e-9, (dict(clues)[b'*H*'], 1 - tail)
""",'so many and so strong clues that the product underflows twice','the second underflow of the product of probabilities forgets the exponent of the first')
add('C04-limit','C04',[('classifiers/basic.py',"""            del clues[0:-MAX_DISCRIMINATORS]""","""            clues[:] = clues[-MAX_DISCRIMINATORS - 1:-1]""")],"""
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
words = ['w%03d' % i for i in range(160)]
for i in range(3):
    c.learn(words, i == 1)
c.learn(['strong'], True)
c.learn(['strong'], True)
c.learn(['strong'], True)
score, clues = c.spamprob(words + ['strong'], True)
assert 'strong' in [w for w, p in clues], clues[:3]
assert len(clues) == 152
""",'a message with more than 150 clues','the strongest clue is left out')
add('C04-overlap','C04',[('classifiers/basic.py',"""                    seen.update(indices)""","""                    seen.update(indices[-1:])""")],"""
from sbclassifier.classifiers.basic import Classifier
c = Classifier(True)
for i in range(4):
    c.learn([b'aa', b'bb'], True)
c.learn([b'aa'], False)
score, clues = c.spamprob([b'aa', b'bb'], True)
words = [w for w, p in clues][2:]
assert not (b'bi:aa bb' in words and (b'aa' in words or b'bb' in words)), words
c = Classifier(True)
for i in range(4):
    c.learn([b'aa', b'bb'], True)
    c.learn([b'bb', b'aa'], False)
c.learn([b'aa'], True)
c.learn([b'aa'], True)
score, clues = c.spamprob([b'aa', b'bb'], True)
words = [w for w, p in clues][2:]
assert not (b'bi:aa bb' in words and (b'aa' in words or b'bb' in words)), words
""",'bigrams are on, and a pair is stronger than its first token, which is a clue itself','a pair and its first token are both used as clues')
add('C05-shared','C05',[('classifiers/basic.py',"""        clues = self._getclues(wordstream)
        for prob, word, record in clues:""","""        self._clues = self._getclues(wordstream)
        for prob, word, record in self._clues:"""),('classifiers/basic.py',"""        n = len(clues)
        if n > 0:""","""        clues = self._clues
        n = len(clues)
        if n > 0:""")],"""
import sys, threading
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
for i in range(30):
    c.learn(['s%d' % j for j in range(100)], True)
    c.learn(['h%d' % j for j in range(10)], False)
streams = [['s%d' % j for j in range(100)], ['h%d' % j for j in range(10)], ['s1', 'h1'], []]
want = [c.spamprob(s, True) for s in streams]
sys.setswitchinterval(1e-6)
bad = []
def run(k):
    for i in range(1500):
        try:
            if c.spamprob(streams[k], True) != want[k]:
                bad.append(k)
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target=run, args=(k % 4,)) for k in range(8)]
for t in ts: t.start()
for t in ts: t.join()
assert not bad, (len(bad), bad[0])
""",'two threads that score different messages at the same time','the clues of one message are taken for those of another')
add('S02-reload','S02',[('classifiers/basic.py',"""        self.wordinfo, self.nspam, self.nham = t[1:]
        self._probcache = {}""","""        self.wordinfo, self.nspam, self.nham = t[1:]
        if not hasattr(self, '_probcache'):
            self._probcache = {}""")],"""
import os, tempfile
from sbclassifier.classifiers.storage import PickleClassifier
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'db')
    a = PickleClassifier(path)
    a.learn(['x'], True)
    a.learn(['y'], False)
    a.store()
    b = PickleClassifier(path)
    b.spamprob(['x', 'y'])
    a.learn(['z'], True)
    a.learn(['z'], True)
    a.learn(['x'], False)
    a.unlearn(['x'], False)
    a.store()
    b.load()
    assert b.spamprob(['x', 'y', 'z'], True) == PickleClassifier(path).spamprob(['x', 'y', 'z'], True)
""",'a pickle classifier that has scored is loaded again after another one saved','probabilities cached before loading are used afterwards')
add('S03-backup','S03',[('safepickle.py',"""        # Be as defensive as possible: dump the pickle data to a temporary file
""","""        if os.path.exists(filename):
            # Keep the last one until the new one is complete.
            os.replace(filename, filename + '.bak')
        # Be as defensive as possible: dump the pickle data to a temporary file
""")],"""
import os, tempfile
from sbclassifier.classifiers.storage import PickleClassifier
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'db')
    a = PickleClassifier(path)
    a.learn(['x'], True)
    a.store()
    pid = os.fork()
    if pid == 0:
        class Killer:
            def __reduce__(self):
                os._exit(3)
        b = PickleClassifier(path)
        b.learn(['y'], True)
        b.wordinfo['boom'] = Killer()
        b.store()
        os._exit(0)
    os.waitpid(pid, 0)
    for f in os.listdir(d):
        if '.lock' in f or '-' in f and f.split('.')[0] == os.uname().nodename:
            os.remove(os.path.join(d, f))
    try:
        os.remove(path + '.lock')
    except OSError:
        pass
    c = PickleClassifier(path)
    assert c.nspam == 1, c.nspam
""",'the process is killed, or saving fails, while a pickle is saved','there is no database any more until the new one is complete')
add('S04-lock','S04',[('safepickle.py',"""    with FileLock(filename, timeout=DEFAULT_TIMEOUT):
        with open(filename, 'rb') as f:
            return pickle.load(f)
""","""    lock = FileLock(filename, timeout=DEFAULT_TIMEOUT)
    lock.acquire()
    try:
        with open(filename, 'rb') as f:
            value = pickle.load(f)
    except (OSError, EOFError, pickle.UnpicklingError):
        lock.release()
        raise
    lock.release()
    return value
""")],"""
import os, tempfile
import sbclassifier.safepickle as s
s.DEFAULT_TIMEOUT = 1
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'db')
    for content in (b'', b'junk', b'cnosuchmodule\\nX\\n.', b'garbage\\n' * 5, b'\\x80\\x04\\x8c\\x01', b'cos\\nnosuchname\\n.', b'I99x\\n.'):
        with open(path, 'wb') as f:
            f.write(content)
        try:
            s.pickle_read(path)
        except Exception:
            pass
        s.pickle_write(path, 1)
        assert s.pickle_read(path) == 1
""",'loading fails with an unusual error (a pickle that names a class which does not exist)','the lock is kept, so that every later load and save times out')
add('S05-version','S05',[('classifiers/storage.py',"""            if t[0] != PICKLE_VERSION:
                msg""","""            if t[0] > PICKLE_VERSION:
                msg""")],"""
import os, shelve, tempfile
from sbclassifier.classifiers.storage import ShelveClassifier
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'db')
    a = ShelveClassifier(path)
    a.learn(['x'], True)
    a.store()
    a.close()
    for version in (1, 4, -1):
        with shelve.open(path) as s:
            key = a.statekey
            s[key] = (version,) + s[key][1:]
        try:
            ShelveClassifier(path)
        except ValueError:
            continue
        raise SystemExit('version %d was accepted' % version)
""",'a dbm database of an older version','it is read as if it had the current format')
add('S05-lock','S05',[('safepickle.py',"""    with FileLock(filename, timeout=DEFAULT_TIMEOUT):
        with open(filename, 'rb') as f:
            return pickle.load(f)
""","""    # Files are replaced in one step, so no lock is needed to read them.
    with open(filename, 'rb') as f:
        return pickle.load(f)
""")],"""
import os, tempfile
import sbclassifier.safepickle as s
from lockfile import FileLock
s.DEFAULT_TIMEOUT = 1
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'db')
    s.pickle_write(path, 1)
    import subprocess, sys
    p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', 'import sys; from lockfile import FileLock\\n'
                          'with FileLock(sys.argv[1]): print(flush=True); sys.stdin.read()', path],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    p.stdout.readline()
    try:
        s.pickle_read(path)
        failed = False
    except Exception:
        failed = True
    p.stdin.close()
    p.wait()
    assert failed, 'a locked file was read'
""",'another process holds the lock while the database is loaded','the database is read in spite of the lock')
add('S06-state','S06',[('classifiers/storage.py',"""        self._write_state_key()

    def _remove_msg""","""        if self.changed_words:
            self._write_state_key()

    def _remove_msg""")],"""
import os, tempfile
from sbclassifier.classifiers.storage import ShelveClassifier
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'db')
    pid = os.fork()
    if pid == 0:
        a = ShelveClassifier(path)
        a.learn(['x', 'y'], True)
        a.close()
        os._exit(0)
    os.waitpid(pid, 0)
    b = ShelveClassifier(path)
    for w in ('x', 'y'):
        r = b._wordinfoget(w)
        assert r is None or r.spamcount <= b.nspam, (w, r, b.nspam)
    b.spamprob(['x'])
    b.close()
""",'a session in which every token is new ends without saving','the tokens are in the database, but the totals are not')
add('K01-order','K01',[('corpora/caches.py',"""        if len(self._keys) > self.max_size:
            key_to_flush = self._keys[0]
""","""        if len(self._keys) > self.max_size:
            key_to_flush = min(self._keys[:-1] or self._keys, key=self._keys.index) \\
                if self._keys[-1] == key else self._keys[-1]
""")],"""
from sbclassifier.corpora.caches import NaiveCache
c = NaiveCache(max_size=2)
c.put('a', 1); c.put('b', 2); c.put('c', 3)
assert sorted(c.keys()) == ['b', 'c'], list(c.keys())
c = NaiveCache(max_size=3)
for k in 'abc': c.put(k, k)
c.max_size = 1
c.put('b', 4)
assert 'c' in c and 'a' not in c, list(c.keys())
""",'-','-')
add('K04-due','K04',[('corpora/filesystem.py',"""            elif end_time < self.expiry_due:
                self.expiry_due = end_time""","""            else:
                self.expiry_due = end_time""")],"""
import os, tempfile, time
import sbclassifier.corpora.filesystem as fs
from sbclassifier.corpora.filesystem import ExpiryFileCorpus
now = time.time()
class Clock:
    t = now
    def time(self): return self.t
clock = fs.time = Clock()
with tempfile.TemporaryDirectory() as d:
    names = ['m%02d' % i for i in range(8)]
    for n in names:
        with open(os.path.join(d, n), 'wb') as f: f.write(b'Subject: x\\n\\nhello\\n')
    order = os.listdir(d)
    times = {n: now + 10 * i for i, n in enumerate(order)}   # the last listed is the youngest
    ExpiryFileCorpus._create_timestamp = lambda self, key: times[key]
    c = ExpiryFileCorpus(100, d)
    clock.t = now + 75
    c.remove_expired_messages()
    assert len(c) == 8
    for k in range(1, 9):
        clock.t = now + 100 + 10 * (k - 1) + 5
        c.remove_expired_messages()
        assert len(c) == 8 - k, (k, len(c))
""",'several messages of different age, the youngest of which is listed last','the next expiry run is planned for the last message looked at, so old messages stay')
add('K05-before','K05',[('corpora/base.py',"""        logging.debug('adding message %s to corpus', key)
        self.message_cache.put(key, message)
        if emit_signal:
            message_added.send(self, message=message)
""","""        logging.debug('adding message %s to corpus', key)
        if emit_signal:
            message_added.send(self, message=message)
        self.message_cache.put(key, message)
""")],"""
import tempfile
from sbclassifier.corpora import message_added
from sbclassifier.corpora.filesystem import FileCorpus
from sbclassifier.message import from_string
with tempfile.TemporaryDirectory() as d:
    c = FileCorpus(d, '*.eml')
    heard = []
    def listen(corpus, message):
        heard.append(message.id() in corpus)
    message_added.connect(listen, sender=c)
    try:
        c.add_message(from_string('Subject: x\\n\\nhi\\n', 'a.txt'))
    except ValueError:
        pass
    assert not heard, 'heard of a refused message'
    c.add_message(from_string('Subject: x\\n\\nhi\\n', 'a.eml'))
    assert heard == [True], heard
""",'a message that is refused, or an observer that looks at the corpus','observers hear of a message before it is added, also if it never is')
add('T01-class','T01',[('trainers.py',"""        self.classifier.unlearn(tokenize(message), self.is_spam)
""","""        self.classifier.unlearn(tokenize(message), bool(message.is_trained()))
""")],"""
import tempfile
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora.filesystem import FileCorpus
from sbclassifier.message import from_string
from sbclassifier.trainers import SpamTrainer
with tempfile.TemporaryDirectory() as d:
    c = Classifier()
    corpus = FileCorpus(d, cache_size=2)
    t = SpamTrainer(c, [corpus])
    for i in range(4):
        corpus.add_message(from_string('Subject: x\\n\\nhello word%d\\n' % i, 'm%d' % i))
    c.learn(['other'], False)
    corpus.remove_message(corpus['m0'])
    assert (c.nspam, c.nham) == (3, 1), (c.nspam, c.nham)
""",'a message that has fallen out of the memory cache is removed from a spam corpus','it is untrained as ham')
add('M01-stars','M01',[('message.py',"""            self[THERMOSTAT_HEADER_NAME] = '*' * int(prob * 10)
""","""            self[THERMOSTAT_HEADER_NAME] = '*' * round(prob * 10)
""")],"""
from sbclassifier.message import from_string
for score, stars in ((0.0, 0), (0.09, 0), (0.1, 1), (0.58, 5), (0.96, 9), (1.0, 10)):
    m = from_string('Subject: x\\n\\nhi\\n')
    m.add_sb_headers(score, [], include_thermostat=True)
    assert m['X-Spambayes-Level'] == '*' * stars, (score, m['X-Spambayes-Level'])
""",'a score in the upper half of a tenth','one star too many')
add('M02-twice','M02',[('message.py',"""                        self.replace_header("Subject", text[len(disp):])
                        # Only remove one, maximum.
                        break""","""                        text = text[len(disp):]
                        self.replace_header("Subject", text)""")],'','-','-')
add('M03-lone','M03',[('message.py',"""CRLF_RE = re.compile(r'\\r\\n|\\r|\\n')""","""CRLF_RE = re.compile(r'\\r?\\n')""")],"""
import re
from sbclassifier.message import from_bytes
m = from_bytes(b'Subject: x\\n\\nprogress 1\\rprogress 2\\n')
text = m.as_string()
assert not re.search(r'\\r(?!\\n)|(?<!\\r)\\n', text), text
""",'a body that contains a carriage return of its own','it stays in the text as it is')
add('M05-reserved','M05',[('message.py',"""        if new_id in (STATS_START_KEY, STATS_STORAGE_KEY):
            raise ValueError('message ID must not be {}'.format(new_id))
        self.messageid = new_id""","""        self.messageid = new_id
        if new_id in (STATS_START_KEY, STATS_STORAGE_KEY):
            raise ValueError('message ID must not be {}'.format(new_id))""")],"""
from sbclassifier.message import from_string
m = from_string('Subject: x\\n\\nhi\\n')
try:
    m.set_id('Persistent statistics')
except ValueError:
    pass
assert m.id() is None, m.id()
m.set_id('a')
""",'a reserved name is tried as an id first','the refused id is kept, and the real one is then refused')
add('X01-entity','X01',[('tokenizer.py',"""    try:
        return bytes(chr(int(m.group(1))), 'utf-8')
    except:
""","""    try:
        return bytes(chr(int(m.group(1))), 'utf-8')
    except ValueError:
""")],'','-','-')
add('X02-hash','X02',[('tokenizer.py',"""        for x in list(x2n.items()):
            yield "header:%s:%d" % x""","""        for x in set(x2n.items()):
            yield "header:%s:%d" % x""")],"""
import os, subprocess, sys
code = '''
from sbclassifier.message import from_string
from sbclassifier.tokenizer import tokenize
m = from_string("From: a@b\\\\nTo: c@d\\\\nSubject: x\\\\nDate: today\\\\nReceived: x\\\\nMIME-Version: 1.0\\\\n\\\\nhi\\\\n")
print(list(tokenize(m)))
'''
outs = set()
for seed in range(6):
    outs.add(subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(seed)),
                            stdout=subprocess.PIPE, check=True).stdout)
assert len(outs) == 1, len(outs)
""",'another hash seed (another process)','the order of the tokens of header counts changes')
add('X02-counter','X02',[('tokenizer.py',"""        x2n = {}
        if COUNT_ALL""","""        x2n = self._counts
        x2n.clear()
        if COUNT_ALL"""),('tokenizer.py',"""                if x.lower() in safe_headers:
                    x2n[x] = x2n.get(x, 0) + 1
        for x in list(x2n.items()):
            yield "header:%s:%d" % x""","""                if x.lower() in safe_headers:
                    x2n[x] = x2n.get(x, 0) + 1
        for x in list(x2n):
            yield "header:%s:%d" % (x, x2n.get(x, 1))"""),('tokenizer.py',"""        self.basic_skip = [re.compile(s) for s in BASIC_HEADER_SKIP]
""","""        self.basic_skip = [re.compile(s) for s in BASIC_HEADER_SKIP]
        self._counts = {}
""")],"""
from sbclassifier.message import from_string
from sbclassifier.tokenizer import tokenize
a = from_string('From: a@b\\nReceived: 1\\nReceived: 2\\nSubject: x\\n\\nhello there\\n')
b = from_string('From: a@b\\nReceived: 1\\nDate: x\\nDate: y\\n\\nother\\n')
want = list(tokenize(a)), list(tokenize(b))
for k in range(len(want[0])):
    ga = tokenize(a)
    got = [next(ga) for _ in range(k)]
    assert list(tokenize(b)) == want[1]
    got += list(ga)
    assert got == want[0], (k, got, want[0])
""",'a second message is tokenized while the first is not finished (a lazy iterator, or another thread)','header counts of one message show up in the other')
add('X03-tag','X03',[('tokenizer.py',"""    [^>]{0,256} # search""","""    [^>]{0,255} # search""")],"""
from sbclassifier.message import from_string
from sbclassifier.tokenizer import tokenize
tag = '<a ' + 'secret ' * 36 + 'x' * 2 + '>'
for n in (100, 254, 255, 256):
    inside = ('a title=' + 'secret ' * 60)[:n]
    tokens = list(tokenize(from_string('Subject: x\\nContent-Type: text/html\\n\\nhello <%s> world\\n' % inside)))
    assert b'secret' not in tokens, n
    assert b'hello' in tokens and b'world' in tokens
""",'a tag of exactly 256 characters','its text becomes tokens')
add('X03-entity','X03',[('tokenizer.py',"""            text = text.lower()

            if REPLACE_NONASCII_CHARS:""","""            if REPLACE_NONASCII_CHARS:"""),('tokenizer.py',"""            text = numeric_entity_re.sub(numeric_entity_replacer,""","""            text = numeric_entity_re.sub(numeric_entity_replacer,""")],'','-','-')
add('X05-noname','X05',[('tokenizer.py',"""            noname_count = 0
            for name, addr""","""            for name, addr"""),('tokenizer.py',"""        for field in ADDRESS_HEADERS:
            addrlist""","""        noname_count = 0
        for field in ADDRESS_HEADERS:
            addrlist"""),('tokenizer.py',"""                yield "%s:no real name:2**%d" % (field,
                                                 round(log2(noname_count)))""","""                yield "%s:no real name:2**%d" % (field,
                                                 round(log2(noname_count)))
                noname_count //= 256""")],'','-','-')
add('X06-percent','X06',[],'','-','-')
add('X07-prefix','X07',[],'','-','-')
add('B01-wrap','B01',[('cdb.py',"""            if self.kpos == self.hpos + (self.hslots << 3):
                self.kpos = self.hpos""","""            if self.kpos > self.hpos + (self.hslots << 3):
                self.kpos = self.hpos""")],"""
import os, tempfile
from sbclassifier import cdb
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'db')
    items = [('k%d' % i, 'v%d' % i) for i in range(3000)]
    with open(path, 'wb') as f:
        cdb.cdb_make(f, items)
    with open(path, 'rb') as f:
        db = cdb.Cdb(f)
        bad = [k for k, v in items if db.get(k) != v.encode()]
        db.close()
    assert not bad, bad[:3]
""",'keys whose records wrap around the end of their hash table','they are not found')
add('I01-none','I01',[],'','-','-')
add('D01-zero','D01',[],'','-','-')
add('L01-errors','L01',[],'','-','-')
SEEDS=[s for s in S if s['demo']]
