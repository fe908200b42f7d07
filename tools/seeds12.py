SEEDS = S = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


B = 'classifiers/basic.py'
ST = 'classifiers/storage.py'
M = 'message.py'
T = 'tokenizer.py'
FS = 'corpora/filesystem.py'

add('E01-swap', 'E01', [(ST, "        pickle_write(self.filename, self)  # , PICKLE_TYPE)",
 """        totals = self.nspam, self.nham
        if totals != getattr(self, 'written', None):
            pickle_write(self.filename, self)  # , PICKLE_TYPE)
            self.written = totals""")], """
import os, tempfile
from sbclassifier.classifiers.storage import PickleClassifier
path = os.path.join(tempfile.mkdtemp(), 'x')
c = PickleClassifier(path)
c.learn([b'mistaken'], True)
c.store()
c.unlearn([b'mistaken'], True)
c.learn([b'better'], True)
c.store()
d = PickleClassifier(path)
assert set(d.wordinfo) == {b'better'}, d.wordinfo
""", 'a process saves twice and has as many spam and ham messages as before', 'the second saving is left out')

add('E01-verdict', 'E01', [(M, "        self.set_classification(prob)\n        self[CLASS", "        if self.t is None:\n            self.set_classification(prob)\n        self[CLASS")], """
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora.base import Corpus
from sbclassifier.message import from_bytes
from sbclassifier.trainers import SpamTrainer
spam = Corpus()
trainer = SpamTrainer(Classifier(), [spam])
m = from_bytes(b'Subject: x\\n\\ny\\n', 'a')
m.add_sb_headers(.5, [])
m.remove_sb_headers()
spam.add_message(m)
m.add_sb_headers(1.0, [])
assert m['X-Spambayes-Classification'] == 'spam', m.items()
""", 'a message is marked again after it was trained', 'the verdict is that of the first score')

add('S06-new', 'S06', [(ST, '''        database is in a consistent state at this point by writing the state
        key."""
        self._write_state_key()''', '''        database is in a consistent state at this point by writing the state
        key."""
        if self.changed_words:
            self._write_state_key()''')], """
import os, tempfile
from sbclassifier.classifiers.storage import ShelveClassifier
path = os.path.join(tempfile.mkdtemp(), 'x')
c = ShelveClassifier(path)
c.learn(['a', 'b'], True)
c.close()
d = ShelveClassifier(path)
assert d.nspam == 1, d.nspam
assert 0 <= d.spamprob(['a', 'b']) <= 1
""", 'a session that ends without saving has only trained tokens never seen before', 'tokens are counted, but not the message')

add('X01-bogus', 'X01', [('strippers.py', "    except TypeError:\n        # bug in email pkg?", "    except ValueError:\n        # bug in email pkg?")], """
from sbclassifier.message import from_bytes
from sbclassifier.tokenizer import tokenize
m = from_bytes(b'Content-Disposition: attachment; filename="a"; filename*0="b"\\n\\nx\\n')
list(tokenize(m))
m = from_bytes(b"Content-Disposition: attachment; filename*0*=us-ascii'en'a; filename*=b\\n\\nx\\n")
list(tokenize(m))
m = from_bytes(b"Content-Disposition: attachment; filename=a; filename*1=c; filename*0=b\\n\\nx\\n")
list(tokenize(m))
""", 'the name of a file is given in pieces and as a whole', 'such a message cannot be tokenized')

add('K04-due-late', 'K04', [(FS, "            elif end_time < self.expiry_due:\n                self.expiry_due = end_time", "            elif end_time < self.expiry_due:\n                self.expiry_due = (self.expiry_due + end_time) / 2")], """
import os, tempfile, time
from sbclassifier.corpora import filesystem
directory = tempfile.mkdtemp()
start = time.time()
now = [start]
class Clock:
    time = staticmethod(lambda: now[0])
filesystem.time = Clock
c = filesystem.ExpiryFileCorpus(1000, directory)
open(os.path.join(directory, 'a'), 'w').close()
now[0] = start + 600
c.remove_expired_messages()
now[0] = start + 1100
c.remove_expired_messages()
assert not os.path.exists(os.path.join(directory, 'a'))
""", 'a look at the messages when one is about to expire, and another soon after it has', 'the message is still there')
