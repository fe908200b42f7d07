S=[]
def add(id,prop,edits,demo,needs,breaks): S.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks))
B='classifiers/basic.py'; ST='classifiers/storage.py'; M='message.py'; T='tokenizer.py'; SP='strippers.py'; SL='classifiers/slurping.py'
add('C03-underflow','C03',[(B,"""                H, e = math.frexp(H)
                Hexp += e""","""                H, e = math.frexp(H)
                Sexp += e""")],"""
import math
from sbclassifier.classifiers.basic import Classifier, WordInfo
c = Classifier()
c.nspam = c.nham = 5000
words = ['w%d' % i for i in range(150)]
for i, w in enumerate(words):
    c.wordinfo[w] = WordInfo(0, 4000) if i < 75 else WordInfo(4000, 0)
p, clues = c.spamprob(words, True)
assert abs(p - 0.5) < 1e-6, (p, clues[:2])
""",'so many strong ham clues that the product of their probabilities underflows','the exponent of one statistic is added to that of the other')
add('C03-clamp','C03',[(B,"""    return min(result, 1.0)""","""    return result if v < 64 else min(result, 1.0)""")],"""
from sbclassifier.classifiers.basic import chi2Q
for v in range(2, 302, 2):
    for k in range(1, 400):
        x = v * k / 800
        q = chi2Q(x, v)
        assert 0 <= q <= 1, (x, v, q)
""",'rounding errors that lift the sum a few units above one, with fewer than 32 clues','a probability is a little greater than one')
add('C04-overlap','C04',[(B,"""                    seen.update(indices)""","""                    seen.update(indices[-1:])""")],"""
from sbclassifier.classifiers.basic import Classifier
c = Classifier(True)
for i in range(4):
    c.learn([b'aa', b'bb'], True)
for i in range(3):
    c.learn([b'bb', b'aa', b'cc'], True)
c.learn([b'zz', b'aa'], False)
for i in range(5):
    c.learn([b'zz'], False)
for stream in ([b'aa', b'bb'], [b'bb', b'aa'], [b'bb', b'aa', b'cc']):
    score, clues = c.spamprob(stream, True)
    words = [w for w, p in clues][2:]
    singles = []
    for w in words:
        singles += w[3:].split() if w.startswith(b'bi:') else [w]
    assert len(singles) == len(set(singles)), words
""",'bigrams are on, and a pair is stronger than its first token, which is a clue itself','a pair and its first token are both used as clues')
add('C01-stream','C01',[(B,"""        if self._use_bigrams:
            wordstream = self._enhance_wordstream(wordstream)
        self._remove_msg(wordstream, is_spam)""","""        if self._use_bigrams and self.nspam + self.nham > 1:
            wordstream = self._enhance_wordstream(wordstream)
        self._remove_msg(wordstream, is_spam)""")],"""
from sbclassifier.classifiers.basic import Classifier
c = Classifier(True)
c.learn(['a', 'b'], True)
c.unlearn(['a', 'b'], True)
assert not c.wordinfo, dict(c.wordinfo)
""",'bigrams are on, and the only message is untrained','the pairs of the last message remain in the database')
add('C02-zero','C02',[(B,"""                if record.hamcount == 0 == record.spamcount:""","""                if record.hamcount == 0 and is_spam or \\
                        record.spamcount == 0 and not is_spam:""")],"""
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
c.learn(['a'], True)
c.learn(['a'], True)
c.unlearn(['a'], True)
assert c.wordinfo['a'].spamcount == 1
""",'a token seen only in messages of one class, in more of them than are untrained','the token is forgotten as soon as one of its messages is untrained')
add('C05-learned','C05',[(B,"""        record = self._wordinfoget(word)
        if record is None:
            prob = UNKNOWN_WORD_PROB
        else:
            prob = self.probability(record)""","""        record = self._wordinfoget(word)
        if record is None:
            prob = UNKNOWN_WORD_PROB
            self._probcache.clear()
            self._unknown = getattr(self, '_unknown', 0) + 1
        else:
            prob = self.probability(record)
            if getattr(self, '_unknown', 0) > 1000:
                prob = min(prob, 0.99)""")],"""
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
for i in range(60):
    c.learn(['a'], True)
c.learn(['b'], False)
before = c.spamprob(['a', 'b'], True)
for i in range(300):
    c.spamprob(['u%d' % j for j in range(8)])
assert c.spamprob(['a', 'b'], True) == before
""",'a thousand unknown words have been scored before','scoring one message changes the score of another')
add('S01-deleted','S01',[(ST,"""        # Reset the changed and deleted word lists.
        self.deleted_words.clear()
        self.changed_words.clear()""","""        # Reset the changed and deleted word lists.
        self.deleted_words = set()
        self.changed_words &= self.deleted_words"""),(ST,"""            self.wordinfo[word] = record
            self.changed_words.add(word)""","""            self.wordinfo[word] = record
            if word not in self.deleted_words:
                self.changed_words.add(word)""")],"""
import os, tempfile
from sbclassifier.classifiers.storage import ShelveClassifier
d = tempfile.mkdtemp(); p = os.path.join(d, 'db')
c = ShelveClassifier(p)
c.learn(['a'], True)
c.learn(['a'], True)
c.store()
c.unlearn(['a'], True)
c.unlearn(['a'], True)
c.learn(['a'], False)
c.learn(['a'], False)
c.store()
c.close()
c = ShelveClassifier(p)
r = c._wordinfoget('a')
assert r is not None and (r.spamcount, r.hamcount) == (0, 2), r
""",'a word is untrained completely and then trained again, twice, in one session with a shelf, before it is saved','the word is not saved')
add('S02-deleted','S02',[(ST,"""                for wordset in self.changed_words, self.deleted_words:
                try:""".replace('                for','            for'),"""            for wordset in (self.changed_words,):
                try:""")],"""
import os, tempfile
from sbclassifier.classifiers.storage import ShelveClassifier
from sbclassifier.classifiers.basic import Classifier
d = tempfile.mkdtemp(); p = os.path.join(d, 'db')
c = ShelveClassifier(p); m = Classifier()
for k in (c, m):
    k.learn(['a', 'b'], True)
    k.learn(['c'], False)
    k.unlearn(['a', 'b'], True)
    k.learn(['a', 'b'], True)
assert c.spamprob(['a', 'b', 'c'], True) == m.spamprob(['a', 'b', 'c'], True)
""",'a word is untrained completely and trained again once, with a shelf, before it is saved','the word is taken for a deleted one')
add('S02-singleton','S02',[(ST,"""        if record.spamcount + record.hamcount <= 1:""","""        if record.spamcount <= 1 and record.hamcount <= 1 and \\
                word not in self.changed_words:""")],"""
import os, tempfile
from sbclassifier.classifiers.storage import ShelveClassifier
from sbclassifier.classifiers.basic import Classifier
d = tempfile.mkdtemp(); p = os.path.join(d, 'db')
c = ShelveClassifier(p)
c.learn(['a'], True)
c.learn(['a'], True)
c.unlearn(['a'], True)
c.unlearn(['a'], True)
m = Classifier()
assert list(c._wordinfokeys()) == [], list(c._wordinfokeys())
c.learn(['b'], True)
c.learn(['b'], True)
c.store()
c.unlearn(['b'], True)
c.unlearn(['b'], True)
c.store()
c.close()
c = ShelveClassifier(p)
assert c._wordinfoget('b') is None
c.learn(['q'], True); c.learn(['q'], True); c.unlearn(['q'], True); 
c.close()
c = ShelveClassifier(p)
assert c._wordinfoget('q') is not None
""",'TBD','TBD')
add('S03-inplace','S03',[('safepickle.py',"""import os
import pickle
""".replace('import os\nimport pickle\n','import os\n'),"""import os
import shutil
"""),('safepickle.py',"""        os.replace(fp.name, filename)""","""        shutil.copyfile(fp.name, filename)
        os.remove(fp.name)""")],"""
import os, tempfile, signal, sys
from sbclassifier.safepickle import pickle_write, pickle_read
d = tempfile.mkdtemp(); p = os.path.join(d, 'x.pck')
pickle_write(p, ['old'] * 10)
ino = os.stat(p).st_ino
with open(p, 'rb') as reader:
    head = reader.read(1)
    pickle_write(p, ['new'] * 1000)
    import pickle
    reader.seek(0)
    assert pickle.load(reader) == ['old'] * 10, 'overwritten in place'
""",'a crash while the new content is copied over the old','the file is overwritten in place')
add('S04-write','S04',[('safepickle.py','''    """Store value as a pickle without creating corruption."""
    with FileLock(filename, timeout=DEFAULT_TIMEOUT):''','''    """Store value as a pickle without creating corruption."""
    lock = FileLock(filename, timeout=DEFAULT_TIMEOUT)
    if os.path.exists(filename):
        # Nobody can be waiting for a file that is not there.
        lock.acquire()
        lock.release()
    with open(os.devnull) as _:''')],"""
import os, tempfile
from lockfile import FileLock
from sbclassifier import safepickle
d = tempfile.mkdtemp(); p = os.path.join(d, 'x.pck')
seen = []
class Spy:
    def __reduce__(self):
        seen.append(os.path.exists(p + '.lock'))
        return (list, ())
safepickle.pickle_write(p, Spy())
safepickle.pickle_write(p, Spy())
assert all(seen), seen
""",'two processes write the same pickle at once','the file is not locked while it is written')
add('M01-digits','M01',[(M,"""                if prob >= 0.995 and prob < 1.0:
                    x = -math.log10(1.0-prob)""","""                if prob >= 0.995:
                    x = -math.log10(1.0-prob)""")],"""
from sbclassifier.message import from_string
m = from_string('Subject: x\\n\\nbody\\n')
m.add_sb_headers(1.0, [], include_score=True, header_score_logarithm=True)
assert m['X-Spambayes-Spam-Probability'] == '1.00'
""",'a score of exactly one, with the logarithm option','the headers cannot be added')
add('M01-cutoff','M01',[(M,"""            elif prob > SPAM_CUTOFF:
                self.c = Classification.spam""","""            elif round(prob, 2) > SPAM_CUTOFF or prob == 1:
                self.c = Classification.spam""")],"""
from sbclassifier.message import from_string, Classification
m = from_string('Subject: x\\n\\nbody\\n')
m.set_classification(0.904)
assert m.classification() is Classification.spam
""",'a score within half a hundredth above the cutoff','such a message is unsure instead of spam')
add('M01-evidence','M01',[(M,"""                if word in (b'*H*', b'*S*') or score <= hco or score >= sco:""","""                if word in (b'*H*', b'*S*') or score <= hco or score > 1 - hco:""")],"""
from sbclassifier.message import from_string
m = from_string('Subject: x\\n\\nbody\\n')
m.add_sb_headers(0.7, [('edge', 0.75), ('low', 0.25)], include_evidence=True, clue_mailheader_cutoff=0.25)
assert 'edge' in m['X-Spambayes-Evidence'] and 'low' in m['X-Spambayes-Evidence'], m['X-Spambayes-Evidence']
""",'a clue whose probability is exactly at the upper cutoff','the clue is left out of the evidence')
add('M02-many','M02',[(M,"""                     EVIDENCE_HEADER_NAME, SCORE_HEADER_NAME,
                     TRAINED_HEADER_NAME]:
            del self[name]""","""                     EVIDENCE_HEADER_NAME, SCORE_HEADER_NAME,
                     TRAINED_HEADER_NAME]:
            if self.get(name, ''):
                del self[name]""")],"""
from sbclassifier.message import from_string
m = from_string('Subject: x\\n\\nbody\\n')
m.add_sb_headers(0.05, [], include_thermostat=True)
m.remove_sb_headers()
assert m.keys() == ['Subject'], m.keys()
""",'a thermostat header of a score less than 0.1, which is empty','the empty header is not removed')
add('M02-remove-all','M02',[(M,"""                    if text.startswith(disp):
                        self.replace_header("To", text[len(disp):])
                        # Only remove one, maximum.
                        break""".replace('                    if text.startswith(disp):\n                        self.replace_header("To", text[len(disp):])\n                        # Only remove one, maximum.\n                        break','            unsure = "%s@spambayes.invalid," % (Classification.unsure.name,)'),"""            unsure = "%s@spambayes.invalid" % (Classification.unsure.name,)""")],"""
from sbclassifier.message import from_string, Classification
m = from_string('To: a@b.example\\n\\nbody\\n')
m.add_sb_headers(0.5, [], notate_to=(Classification.unsure,))
m.remove_sb_headers()
assert m['To'] == 'a@b.example', m['To']
""",'the recipients of an unsure message were notated','a comma remains in front of the recipients')
add('M03-crlf','M03',[(M,r"""CRLF_RE = re.compile(r'\r\n|\r|\n')""",r"""CRLF_RE = re.compile(r'\r?\n')""")],"""
from sbclassifier.message import from_string
m = from_string('Subject: x\\n\\nbody\\n')
m.set_payload('one\\rtwo\\r\\nthree\\n')
t = m.as_string()
import re
assert not re.search('\\r(?!\\n)', t), t
""",'a line that ends with a carriage return only','the carriage return is left alone')
add('M04-folded','M04',[(M,r"""        headers = re.sub(r'\r?\n\Z', '', string_msg)""",r"""        headers = string_msg.rstrip()"""),],"""
from sbclassifier.message import insert_exception_header
import email
try:
    1 / 0
except Exception:
    t, d = insert_exception_header('Subject: x\\nX-Empty:\\n ')
m = email.message_from_string(t)
assert m['X-Empty'] == email.message_from_string('Subject: x\\nX-Empty:\\n ')['X-Empty'], m.items()
""",'a message without a body whose last header ends with white space','the end of the header is cut off')
add('M05-empty','M05',[(M,"""        except (TypeError, ValueError):
            return None
        return self.messageid""","""        except TypeError:
            return None
        return self.messageid""")],"""
from sbclassifier.message import from_string
m = from_string('Subject: x\\nX-Spambayes-MailId: other\\n\\nbody\\n', 'mine')
assert m.set_id_from_payload() is None
assert m.id() == 'mine'
m = from_string('Subject: x\\n\\nbody\\n')
assert m.set_id_from_payload() is None
""",'the header names another identity than the message already has','an error is raised instead of None being returned')
SEEDS=[s for s in S if s['demo']]
