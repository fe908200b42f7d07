S=[]
def add(id,prop,edits,demo,needs,breaks): S.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks))
B='classifiers/basic.py'; ST='classifiers/storage.py'; M='message.py'; T='tokenizer.py'; SP='strippers.py'; SL='classifiers/slurping.py'
CB='corpora/base.py'; CC='corpora/caches.py'; CF='corpora/filesystem.py'; SF='safepickle.py'
add('C03-underflow','C03',[(B,"""                H, e = math.frexp(H)
                Hexp += e""","""                H, e = math.frexp(H)
                Sexp += e""")],"""
from sbclassifier.classifiers.basic import Classifier, WordInfo
c = Classifier()
c.nspam = c.nham = 5000
words = ['w%d' % i for i in range(150)]
for i, w in enumerate(words):
    c.wordinfo[w] = WordInfo(0, 4000)
p, clues = c.spamprob(words, True)
assert p < 1e-6, (p, clues[:2])
""",'so many strong ham clues that the product of their probabilities underflows','the exponent of one statistic is added to that of the other')
add('C04-overlap','C04',[(B,"""                    seen.update(indices)""","""                    seen.update(indices[-1:])""")],"""
from sbclassifier.classifiers.basic import Classifier
c = Classifier(True)
for i in range(6):
    c.learn([b'aa', b'bb'], True)
c.learn([b'aa', b'xx'], False)
c.learn([b'bb', b'xx'], False)
for i in range(5):
    c.learn([b'zz'], False)
score, clues = c.spamprob([b'aa', b'bb'], True)
words = [w for w, p in clues][2:]
assert words == [b'bi:aa bb'], words
""",'bigrams are on, and a pair is stronger than both of its tokens','a pair and its first token are both used as clues')
add('C05-ties','C05',[(B,"""            clues = sorted(tup for tup in
                           (self._worddistanceget(word)
                            for word in set(wordstream))
                           if tup[0] >= MINIMUM_PROB_STRENGTH)""","""            clues = sorted((tup for tup in
                            (self._worddistanceget(word)
                             for word in dict.fromkeys(wordstream))
                            if tup[0] >= MINIMUM_PROB_STRENGTH),
                           key=lambda tup: tup[0])""")],"""
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
words = [b'%03d' % i for i in range(200)]
spam, ham = words[:100], words[100:]
c.learn(spam, True)
c.learn(ham, False)
assert c.spamprob(words) == c.spamprob(words[::-1]) == c.spamprob(spam[:50] + ham + spam[50:])
""",'more than 150 clues, several of them equally strong at the limit, in a different order','which of the equally strong clues are used depends on the order of the tokens')
add('S01-moved','S01',[(ST,"""            val = self.wordinfo[word]
            self.db[word] = val.__getstate__()""","""            val = self.wordinfo[word].__getstate__()
            if sum(val) != sum(self.db.get(word, (0, 0))):
                # There is something new to write.
                self.db[word] = val""")],"""
import os, tempfile
from sbclassifier.classifiers.storage import ShelveClassifier
d = tempfile.mkdtemp(); p = os.path.join(d, 'db')
c = ShelveClassifier(p)
for i in range(3):
    c.learn(['a'], True)
c.learn(['b'], False)
c.store()
c.learn(['a'], False)
c.unlearn(['a'], True)
c.store()
c.close()
c = ShelveClassifier(p)
r = c._wordinfoget('a')
assert (r.spamcount, r.hamcount) == (2, 1), r
""",'a message is trained as the other class between two saves of a shelf','the word keeps the counts it had before')
add('S02-reload','S02',[(B,"""            self._use_bigrams = t[4]
        self._probcache = {}""","""            self._use_bigrams = t[4]
        self.__dict__.setdefault('_probcache', {})""")],"""
import os, tempfile
from sbclassifier.classifiers.storage import PickleClassifier
d = tempfile.mkdtemp(); p = os.path.join(d, 'x.pck')
c = PickleClassifier(p)
c.learn(['a'], True)
c.learn(['a'], False)
c.store()
c.spamprob(['a'])
other = PickleClassifier(p)
for i in range(5):
    other.learn(['z'], False)
other.store()
c.load()
assert c.spamprob(['a'], True) == other.spamprob(['a'], True)
""",'a pickle is reloaded, after scoring, when another process has trained more messages','probabilities from before the reload are used')
add('S03-backup','S03',[(SF,"""        # Be as defensive as possible: dump the pickle data to a temporary file
""","""        # Keep the previous version.
        if os.path.exists(filename):
            os.replace(filename, filename + '.bak')
        # Be as defensive as possible: dump the pickle data to a new file
""")],"""
import os, tempfile
from sbclassifier.safepickle import pickle_write, pickle_read
d = tempfile.mkdtemp(); p = os.path.join(d, 'x.pck')
pickle_write(p, 'old')
try:
    pickle_write(p, lambda: 0)
except Exception:
    pass
assert pickle_read(p) == 'old'
""",'a crash or an error between the backup and the end of the save','there is no database any more')
add('S04-cached','S04',[(SF,"""        with open(filename, 'rb') as f:
            return pickle.load(f)
""","""        key = (filename, os.stat(filename).st_size,
               int(os.stat(filename).st_mtime))
        if key not in _recent:
            _recent.clear()
            with open(filename, 'rb') as f:
                _recent[key] = f.read()
        return pickle.loads(_recent[key])
"""),(SF,"""def pickle_read(filename):""","""_recent = {}


def pickle_read(filename):""")],"""
import os, tempfile
from sbclassifier.safepickle import pickle_write, pickle_read
d = tempfile.mkdtemp(); p = os.path.join(d, 'x.pck')
for i in range(20):
    pickle_write(p, i)
    assert pickle_read(p) == i
""",'two saves of the same size in the same second','an older training is loaded than was saved last')
add('S04-impatient','S04',[(SF,'''    """Read pickle file contents with a lock."""
    with FileLock(filename, timeout=DEFAULT_TIMEOUT):''','''    """Read pickle file contents with a lock."""
    with FileLock(filename, timeout=0.3):''')],"""
import os, tempfile, threading, time
from sbclassifier.safepickle import pickle_write, pickle_read
d = tempfile.mkdtemp(); p = os.path.join(d, 'x.pck')
pickle_write(p, 1)
started = threading.Event()
class Slow:
    def __reduce__(self):
        started.set()
        time.sleep(2)
        return (int, (2,))
t = threading.Thread(target=pickle_write, args=(p, Slow()))
t.start()
started.wait()
assert pickle_read(p) == 2
t.join()
""",'a save that takes longer than a third of a second','a load fails because a save is going on')
add('M02-many','M02',[(M,"""                     SCORE_HEADER_NAME, TRAINED_HEADER_NAME]:
            del self[name]""","""                     SCORE_HEADER_NAME, TRAINED_HEADER_NAME]:
            if self[name]:
                del self[name]""")],"""
from sbclassifier.message import from_string
m = from_string('Subject: x\\n\\nbody\\n')
m.add_sb_headers(0.05, [], include_thermostat=True)
m.remove_sb_headers()
assert m.keys() == ['Subject'], m.keys()
""",'a thermostat header of a score less than 0.1, which is empty','the empty header is not removed')
add('M03-tail','M03',[(M,"""            return force_crlf(fp.getvalue())
        except""","""            return force_crlf(fp.getvalue().rstrip('\\n') + '\\n')
        except""")],"""
from sbclassifier.message import from_string
m = from_string('Subject: x\\n\\nbody\\n\\n\\n')
assert from_string(m.as_string()).get_payload() .replace('\\r\\n', '\\n') == 'body\\n\\n\\n'
""",'a message that ends with blank lines','the blank lines at the end are lost')
add('M03-from','M03',[(M,"""            g.flatten(self, unixfrom)""","""            g.flatten(self, unixfrom or self.get_unixfrom() is not None)""")],"""
from sbclassifier.message import from_string
m = from_string('From x@y Mon Jan  1 00:00:00 2024\\nSubject: x\\n\\nbody\\n')
assert m.as_string().startswith('Subject:')
""",'TBD','TBD')
add('M04-ascii','M04',[(M,"""        header = Header(spacedDetails, header_name=headerName)"""[4:],"""    header = Header(spacedDetails.encode('ascii', 'replace').decode('ascii'),
                    header_name=headerName)""")],"""
from sbclassifier.message import insert_exception_header
import email, email.header
try:
    raise ValueError('caf\\xe9')
except Exception:
    t, d = insert_exception_header('Subject: x\\n\\nbody')
v = email.message_from_string(t)['X-Spambayes-Exception']
text = str(email.header.make_header(email.header.decode_header(v)))
assert 'caf\\xe9' in text, text
""",'an exception whose text is not ASCII','the report in the header is not that of the exception')
add('M04-header','M04',[(M,"""    header = re.sub(r'\\r?\\n', '\\r\\n', str(header))""","""    header = '\\r\\n '.join(str(header).split('\\n'))""")],"""
from sbclassifier.message import insert_exception_header
import email
try:
    raise ValueError('a\\n\\nb: c\\n\\n\\nd')
except Exception:
    t, d = insert_exception_header('Subject: x\\n\\nbody')
m = email.message_from_string(t)
assert m.keys() == ['Subject', 'X-Spambayes-Exception'] and m.get_payload() == 'body', m.items()
assert d.strip().splitlines()[-1].strip() in m['X-Spambayes-Exception']
""",'TBD','TBD')
add('M05-case','M05',[(M,"""        if self.messageid and self.messageid != new_id:""","""        if self.messageid and self.messageid.lower() != str(new_id).lower():""")],"""
from sbclassifier.message import from_string
m = from_string('Subject: x\\n\\nbody\\n', 'abc')
try:
    m.set_id('ABC')
except ValueError:
    pass
assert m.id() == 'abc'
""",'a new id that differs from the old one in letter case only','the id changes')
add('K01-ghost','K01',[(CC,"""        try:
            ki = self._keys.index(key)
        except ValueError:
            pass
        else:
            self._keys.pop(ki)
        return self.data.pop(key, None)""","""        if self._keys and self._keys[0] == key:
            # Otherwise it is dropped when it comes to the front.
            self._keys.pop(0)
        return self.data.pop(key, None)""")],"""
from sbclassifier.corpora.caches import NaiveCache
c = NaiveCache(max_size=3)
for k in 'abc':
    c.put(k, k)
c.pop('b')
c.put('d', 'd')
assert sorted(c.keys()) == ['a', 'c', 'd'], list(c.keys())
""",'a message in the middle is removed from a full corpus and another one added','a message is dropped although there is room')
add('K02-same','K02',[(CC,"""        with open(os.path.join(self.directory, key), 'wb') as f:
            f.write(content)""","""        if self.data.get(key) is not value:
            with open(os.path.join(self.directory, key), 'wb') as f:
                f.write(content)""")],"""
import os, tempfile
from sbclassifier.corpora.filesystem import FileCorpus
from sbclassifier.message import from_string
d = tempfile.mkdtemp()
c = FileCorpus(d)
m = from_string('Subject: x\\n\\nbody\\n', 'a')
c.add_message(m)
m['X-Spambayes-Trained'] = 'spam'
c.add_message(m)
assert b'Trained' in open(os.path.join(d, 'a'), 'rb').read()
""",'the same message object is changed and added again','the change is not written to the file')
add('K02-evicted','K02',[(CC,"""        if key in os.listdir(self.directory) and self._is_message(key):
""","""        if key in os.listdir(self.directory) and self._is_message(key) and \\
                os.path.getsize(os.path.join(self.directory, key)):
""")],"""
import os, tempfile
from sbclassifier.corpora.filesystem import FileCorpus
d = tempfile.mkdtemp()
open(os.path.join(d, 'a'), 'wb').close()
c = FileCorpus(d)
assert list(c.keys()) == ['a'] and c['a'].id() == 'a'
""",'an empty message file','a message that is listed cannot be looked up')
add('K03-listdir','K03',[(CC,"""        if key in os.listdir(self.directory) and self._is_message(key):""","""        if self._is_message(key):""")],"""
import os, tempfile
from sbclassifier.corpora.filesystem import FileCorpus
d = tempfile.mkdtemp()
os.mkdir(os.path.join(d, 'c'))
open(os.path.join(d, 'secret'), 'wb').write(b'Subject: s\\n\\nx\\n')
c = FileCorpus(os.path.join(d, 'c'))
assert c.get('../secret') is None
""",'a lookup with an id that is a path','a message outside the directory is found')
add('K05-evicted','K05',[(CB,"""        self.message_cache.pop(key)
        if emit_signal:""","""        removed = self.message_cache.pop(key)
        if emit_signal and removed is not None:""")],"""
import os, tempfile
from sbclassifier.corpora.filesystem import FileCorpus
from sbclassifier.corpora import message_removed
from sbclassifier.message import from_string
d = tempfile.mkdtemp()
c = FileCorpus(d, cache_size=1)
heard = []
def on(corpus, message): heard.append(message.id())
message_removed.connect(on, sender=c)
for k in 'ab':
    c.add_message(from_string('Subject: %s\\n\\nbody\\n' % k, k))
c.remove_message(c['a'])
assert heard == ['a'], heard
""",'a message that fell out of the memory cache is removed','nobody is notified of the removal')
add('T01-moved','T01',[('trainers.py',"""        self.classifier.learn(tokenize(message), self.is_spam)
""","""        if message.is_trained() is self.is_spam:
            # It has been trained before.
            return
        self.classifier.learn(tokenize(message), self.is_spam)
""")],"""
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora.base import Corpus
from sbclassifier.trainers import SpamTrainer
from sbclassifier.message import from_string
a, b, c = Corpus(), Corpus(), Classifier()
t = SpamTrainer(c, [a, b])
m = from_string('Subject: x\\n\\nbody\\n', 'a')
a.add_message(m)
b.add_message(m)
a.remove_message(m)
assert c.nspam == 1, c.nspam
""",'a message is added to a second corpus of the same trainer before it is removed from the first','the message is no longer trained although it is in a corpus')
add('X01-entity','X01',[(T,"""    try:
        return bytes(chr(int(m.group(1))), 'utf-8')
    except:""","""    try:
        return bytes(chr(int(m.group(1))), 'utf-8')
    except ValueError:""")],"""
from sbclassifier.tokenizer import tokenize
list(tokenize('Subject: x\\n\\na &#99999999999999999999; b\\n'))
""",'a numeric entity whose number does not fit into a machine word','the message cannot be tokenized')
add('X04-entity','X04',[(T,"""            text = numeric_entity_re.sub(numeric_entity_replacer, text)
""",""),(T,"""            text = text.lower()

            if REPLACE""".replace('\n\n            if REPLACE','\n'),"""            text = text.lower()
            text = numeric_entity_re.sub(numeric_entity_replacer, text)
""")],"""
from sbclassifier.tokenizer import tokenize
t = list(tokenize('Subject: x\\n\\nVI&#65;GRA\\n'))
assert b'viagra' in t, t
""",'a capital letter written as a numeric entity','the word is not in lower case')
add('X04-virus','X04',[(T,"""            text = text.lower()
""",""),(T,"""            for t in find_html_virus_clues(text):""","""            original, text = text, text.lower()
            for t in find_html_virus_clues(original):""")],"""
from sbclassifier.tokenizer import tokenize
t = list(tokenize('Subject: x\\nContent-Type: text/html\\n\\n<IFRAME SRC=cid:foo>hello</IFRAME>\\n'))
assert b'virus:<iframe' in t, t
""",'a tag of an active content in capitals','there is no clue for the active content')
add('X05-noname','X05',[(T,"""        for field in ADDRESS_HEADERS:
""","""        noname_count = 0
        for field in ADDRESS_HEADERS:
"""),(T,"""            noname_count = 0
            for name""","""            for name""")],"""
from sbclassifier.tokenizer import tokenize
t = list(tokenize('From: a@b.example\\nTo: c@d.example, e@f.example, g@h.example\\nSender: Some One <x@y.example>\\n\\nbody\\n'))
assert not [x for x in t if x.startswith(b'sender:no real name')], t
""",'one address field without names and a later one with names','the number of addresses without name includes those of other fields')
add('X06-highbit','X06',[(T,"""                    if i >= 128:""","""                    if i > 128:""")],"""
from sbclassifier.tokenizer import tokenize
import email
m = email.message_from_bytes(b'Subject: x\\nContent-Type: text/plain; charset=utf-8\\nContent-Transfer-Encoding: 8bit\\n\\n' + '\\u2013'.encode() * 6 + b'\\n')
t = list(tokenize(m))
assert b'8bit%:100' in t, t
""",'a long word with the byte 0x80','the share of non-ASCII bytes is too small')
add('X07-prefix','X07',[(T,"""            if len(all_addrs) > 1:
                pfx""","""            if len(set(all_addrs)) > 1:
                pfx""")],"""
from sbclassifier import tokenizer
tokenizer.SUMMARIZE_EMAIL_PREFIXES = True
t = list(tokenizer.tokenize('To: someone@somewhere.example, someone@somewhere.example\\n\\nbody\\n'))
assert b'pfxlen:big' in t, t
""",'all recipients are the same, with the option for beginnings of recipients','there is no clue for the common beginning')
add('X07-port','X07',[(SP,"""            if port is not None and (scheme == "http" and port != '80' or
                                     scheme == "https" and port != '443'):""","""            if port is not None and scheme in ("http", "https") and \\
                    port not in ('80', '443'):""")],"""
from sbclassifier import strippers
strippers.X_PICK_APART_URLS = True
from sbclassifier.tokenizer import tokenize
t = list(tokenize('Subject: x\\n\\nhttp://www.example.com:443/x\\n'))
assert b'url:non-standard http port' in t, t
""",'a URL with the port of the other protocol, with the option for picking URLs apart','there is no clue for the unusual port')
add('I01-empty','I01',[('iputils.py',"""    if prefix_lengths is None:""","""    if not prefix_lengths:""")],"""
from sbclassifier.iputils import subnets
assert list(subnets('10.1.2.3', [])) == []
""",'an empty list of prefix lengths','the networks of the default lengths are given')
add('D01-import','D01',[('dnsutils.py',"""    @functools.wraps(f)
""","""    old_timeout = socket.getdefaulttimeout()

    @functools.wraps(f)
"""),('dnsutils.py',"""            old_timeout = socket.getdefaulttimeout()
            socket""","""            socket""")],"""
import socket
from sbclassifier import dnsutils
socket.getaddrinfo = lambda *a, **k: []
socket.setdefaulttimeout(7)
dnsutils.dns_lookup('x.invalid')
assert socket.getdefaulttimeout() == 7
""",'the default timeout is changed after the module was imported','the default timeout is set back to what it was then')
add('L01-errors','L01',[(SL,"""            pickle_write(name, data)""","""            if data is self.bad_urls or not os.path.exists(name):
                pickle_write(name, data)""")],"""
import os, tempfile
os.chdir(tempfile.mkdtemp())
from sbclassifier.classifiers import slurping
import requests, socket
socket.getaddrinfo = lambda *a, **k: [1]
n = []
def get(url, **kw):
    n.append(url)
    r = requests.Response(); r.status_code = 404; r.url = url
    return r
requests.get = get
slurping.requests.get = get
def session(url):
    c = slurping.SlurpingClassifier()
    c.setup(); c.setup_done = True
    slurping.slurp_wordstream = ('http', url)
    out = c._generate_slurp()
    return out
a = session('a.example/x')
b = session('b.example/x')
n.clear()
assert session('b.example/x') == [b'url:http_404']
assert not n, n
""",'an error of the server in a session that is not the first, and another session later','the error is not remembered and the page fetched again')
add('L01-base','L01',[(SL,"""        if len(parts[-1]) < 3:""","""        if len(parts[-1]) <= 3:""")],"""
from sbclassifier.classifiers.slurping import base_url
assert base_url('www.shop.example.com/x') == 'example.com', base_url('www.shop.example.com/x')
""",'only the base of links is followed','the wrong page is fetched')
SEEDS=[s for s in S if s['demo'] and s['needs']!='TBD']
