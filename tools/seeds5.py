S=[]
def add(id,prop,edits,demo,needs,breaks): S.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks))
B='classifiers/basic.py'; ST='classifiers/storage.py'; M='message.py'; T='tokenizer.py'; SP='strippers.py'; SL='classifiers/slurping.py'
CB='corpora/base.py'; CC='corpora/caches.py'; CF='corpora/filesystem.py'; SF='safepickle.py'
add('B01-zero','B01',[('cdb.py',"""            pos = uint32_unpack(buf[4:])
            if not pos:
                raise KeyError""","""            pos = uint32_unpack(buf[4:])
            if not uint32_unpack(buf[:4]):
                raise KeyError""")],"""
import os, tempfile
from sbclassifier import cdb
p = os.path.join(tempfile.mkdtemp(), 'db')
with open(p, 'wb') as f:
    cdb.cdb_make(f, [(b'7bafhhw', b'1'), (b'x', b'2')])
with open(p, 'rb') as f:
    assert cdb.Cdb(f).get(b'7bafhhw') == b'1'
""",'a key whose hash is zero','the key is not found')
add('K05-again','K05',[(CB,"""        logging.debug('adding message %s to corpus', key)
        self.message_cache.put(key, message)
        if emit_signal:""","""        logging.debug('adding message %s to corpus', key)
        known = self.message_cache.get(key) is message
        self.message_cache.put(key, message)
        if emit_signal and not known:""")],"""
from sbclassifier.corpora.base import Corpus
from sbclassifier.corpora import message_added
from sbclassifier.message import from_string
c = Corpus()
heard = []
def on(corpus, message): heard.append(message.id())
message_added.connect(on, sender=c)
m = from_string('Subject: x\\n\\nbody\\n', 'a')
c.add_message(m)
c.add_message(m)
assert heard == ['a', 'a'], heard
""",'the same message is added twice','nobody is notified of the second addition')
add('T01-remembered','T01',[('trainers.py',"""        self.classifier.unlearn(tokenize(message), self.is_spam)""","""        self.classifier.unlearn(tokenize(message), bool(message.is_trained()))""")],"""
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora.base import Corpus
from sbclassifier.trainers import SpamTrainer, HamTrainer
from sbclassifier.message import from_string
a, b, c = Corpus(), Corpus(), Classifier()
s, h = SpamTrainer(c, [a]), HamTrainer(c, [b])
m = from_string('Subject: x\\n\\nbody\\n', 'a')
a.add_message(m)
b.add_message(m)
a.remove_message(m)
assert (c.nspam, c.nham) == (0, 1), (c.nspam, c.nham)
""",'a message is added to the corpus of the other class before it is removed from the first','it is untrained as the wrong class')
add('D01-again','D01',[('dnsutils.py',"""    except socket.herror:
        return ()""","""    except socket.herror as error:
        if error.errno not in (None, 1, 4):
            # Not just an unknown host.
            raise
        return ()""")],"""
import socket
from sbclassifier import dnsutils
def fail(*a): raise socket.herror(2, 'Host name lookup failure')
socket.gethostbyaddr = fail
assert dnsutils.reverse_dns_lookup('192.0.2.1') == ()
""",'a temporary failure of a reverse lookup','an error is raised')
add('L01-stale','L01',[(SL,"""        slurp_wordstream = None
        return URLStripper.analyze(self, text)""","""        if not text or self.find_start(text, 0):
            slurp_wordstream = None
        return URLStripper.analyze(self, text)""")],"""
import os, tempfile
os.chdir(tempfile.mkdtemp())
from sbclassifier.classifiers import slurping
s = slurping.SlurpingURLStripper()
s.analyze(b'see http://a.example/x for more')
s.analyze(b'no link here')
assert slurping.slurp_wordstream is None, slurping.slurp_wordstream
""",'a text without link is analyzed after one with a link, without anything in between','the link of the first text is used for the second')
add('K04-exact','K04',[(CF,"""            elif end_time < self.expiry_due:
                self.expiry_due = end_time""","""            elif end_time < self.expiry_due - self.expireBefore / 100:
                self.expiry_due = end_time""")],"""
import os, tempfile, time
from sbclassifier.corpora.filesystem import ExpiryFileCorpus
d = tempfile.mkdtemp()
open(os.path.join(d, 'a'), 'wb').write(b'Subject: x\\n\\nb\\n')
t0 = os.stat(os.path.join(d, 'a')).st_ctime
now = t0 + 5
time.time = lambda: now
c = ExpiryFileCorpus(1000, d)
c.remove_expired_messages()
now = t0 + 1001
c.remove_expired_messages()
assert list(c.keys()) == []
""",'a message whose time is almost as far away as the default of the next run','the run at its time is skipped')
add('S06-order','S06',[(ST,"""    def _post_training(self):""","""    def _autosave(self):"""),(ST,"""        key.\"\"\"
        self._write_state_key()""","""        key.\"\"\"
        self._write_state_key()""")],"","TBD","TBD")
add('X05-xmailer','X05',[(T,"""            yield prefix + ' '.join(x.split())""","""            yield prefix + ' '.join(x.split()[:8])""")],"""
from sbclassifier.tokenizer import tokenize
t = list(tokenize('X-Mailer: a b c d e f g h i j\\n\\nbody\\n'))
assert b'x-mailer:a b c d e f g h i j' in t
""",'a name of a mailer of more than eight words','the name is cut off')
add('X05-charset','X05',[(T,"""            if subjcharset is not None:
                yield 'subjectcharset:' + subjcharset""","""            if subjcharset is not None and x:
                yield 'subjectcharset:' + subjcharset""")],"""
from sbclassifier.tokenizer import tokenize
t = list(tokenize('Subject: =?utf-8?q??= x\\n\\nbody\\n'))
assert b'subjectcharset:utf-8' in t, t
""",'an encoded word without text','there is no clue for its charset')
add('X02-seen','X02',[(T,"""    def tokenize_text(self, text, maxword=SKIP_MAX_WORD_SIZE):
        \"\"\"Tokenize everything in the chunk of text we were handed.\"\"\"
        short_runs = set()""","""    _short_runs = set()

    def tokenize_text(self, text, maxword=SKIP_MAX_WORD_SIZE):
        \"\"\"Tokenize everything in the chunk of text we were handed.\"\"\"
        short_runs = self._short_runs""")],"""
from sbclassifier import tokenizer
tokenizer.X_SHORT_RUNS = True
a = list(tokenizer.tokenize('Subject: x\\n\\na b hello\\n'))
list(tokenizer.tokenize('Subject: x\\n\\na b c d e f g h i j k hello\\n'))
assert list(tokenizer.tokenize('Subject: x\\n\\na b hello\\n')) == a
""",'the option for runs of short words, after another message with longer runs','the runs of other messages count')
add('X01-octet','X01',[(T,"""                if text is None:
                    yield "control: octet payload is None"
                    continue
""","""""")],"""
from sbclassifier import tokenizer
tokenizer.CHECK_OCTETS = True
import email
m = email.message_from_string('Content-Type: application/octet-stream\\n\\nx\\n')
m.set_payload(None)
list(tokenizer.tokenize(m))
""",'TBD','TBD')
add('X03-unclosed','X03',[(SP,"""            if not m:
                # No matching end - act as if the open
                # tag did not exist.
                pushretained(text[start:])
                break""","""            if not m:
                # No matching end - act as if the open
                # tag did not exist.
                pushretained(text[end:])
                break""")],"""
from sbclassifier.tokenizer import tokenize
t = list(tokenize('Subject: x\\nContent-Type: text/html\\n\\nhello <!-- secret words\\n'))
want = list(tokenize('Subject: x\\nContent-Type: text/html\\n\\nhello <!-- secret words\\n'))
assert b'<!--' in t, t
""",'a comment that is never closed','the opening of the comment is dropped')
add('M01-tie','M01',[(M,"""                        evd.append("%r: %.2f" % (word, score))""","""                        evd.append("%r: %.2g" % (word, score))""")],"""
from sbclassifier.message import from_string
m = from_string('Subject: x\\n\\nbody\\n')
m.add_sb_headers(0.7, [('edge', 0.98765), ('low', 0.001)], include_evidence=True)
e = m['X-Spambayes-Evidence']
assert ': 0.99' in e and ': 0.00' in e, e
""",'a clue with a probability of less than one percent','the probability is shown in another form')
SEEDS=[s for s in S if s['needs']!='TBD']
