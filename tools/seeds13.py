SEEDS = S = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


C = 'classifiers/basic.py'
ST = 'classifiers/storage.py'
M = 'message.py'
T = 'tokenizer.py'
FS = 'corpora/filesystem.py'
CA = 'corpora/caches.py'

add('X03-zeros', 'X03', [(T, "numeric_entity_re = re.compile(rb'&#(\\d+);')", "numeric_entity_re = re.compile(rb'&#(0{,2}[1-9]\\d*);')")], """
from sbclassifier.message import from_bytes
from sbclassifier.tokenizer import tokenize
got = list(tokenize(from_bytes(b'Content-Type: text/html\\n\\nfr&#000101;e money\\n')))
assert b'free' in got, got
""", 'a numeric entity with three or more leading zeros', 'the word it belongs to is not recognized')

add('M02-lost', 'M02', [(M, "        for name in [CLASSIFICATION_HEADER_NAME, MAILID_HEADER_NAME,\n                     CLASSIFICATION_HEADER_NAME + \"-ID\",", "        marked = CLASSIFICATION_HEADER_NAME in self\n        for name in [CLASSIFICATION_HEADER_NAME, MAILID_HEADER_NAME,\n                     CLASSIFICATION_HEADER_NAME + \"-ID\","), (M, "                     SCORE_HEADER_NAME, TRAINED_HEADER_NAME]:\n            del self[name]\n",
"""                     SCORE_HEADER_NAME, TRAINED_HEADER_NAME]:
            if marked:
                del self[name]
""")], """
from sbclassifier.message import SCORE_HEADER_NAME
from sbclassifier.message import from_bytes
m = from_bytes(b'Subject: x\\n' + SCORE_HEADER_NAME.encode() + b': 0.00\\nX-Spambayes-Evidence: y\\n\\nz\\n')
m.remove_sb_headers()
assert m.keys() == ['Subject'], m.keys()
""", 'a message that has lost some of the added headers on its way', 'the others are not removed')

add('M07-subclass', 'M07', [(M, "        if isinstance(classification_or_probability, float):", "        if type(classification_or_probability) is float:")], """
from sbclassifier.message import from_bytes, Classification
class Probability(float):
    pass
m = from_bytes(b'\\nx\\n')
m.set_classification(Probability(.99))
assert m.classification() is Classification.spam
""", 'a score of a type derived from float', 'it is refused')

add('K02-hardlink', 'K02', [(CA, "        return (os.path.isfile(os.path.join(self.directory, filename))",
"""        path = os.path.join(self.directory, filename)
        return (os.path.isfile(path) and os.stat(path).st_nlink == 1""")], """
import os, tempfile
from sbclassifier.corpora.filesystem import FileCorpus
d = tempfile.mkdtemp()
open(os.path.join(d, 'old'), 'w').close()
os.mkdir(os.path.join(d, 'corpus'))
os.link(os.path.join(d, 'old'), os.path.join(d, 'corpus', 'new'))
c = FileCorpus(os.path.join(d, 'corpus'))
assert list(c.keys()) == ['new'], list(c.keys())
""", 'a message file that was put into the directory as a hard link', 'the corpus does not show it')

add('T01-class-mark', 'T01', [('trainers.py', "        self.classifier.unlearn(tokenize(message), self.is_spam)\n",
"        trained = message.is_trained()\n        self.classifier.unlearn(tokenize(message), self.is_spam if trained is None else trained)\n")], """
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora.base import Corpus
from sbclassifier.message import from_bytes
from sbclassifier.trainers import SpamTrainer, HamTrainer
c = Classifier()
spam, ham = Corpus(), Corpus()
trainers = SpamTrainer(c, [spam]), HamTrainer(c, [ham])
m = from_bytes(b'Subject: x\\n\\nhello\\n', 'a')
spam.add_message(m)
ham.add_message(m)
spam.remove_message(m)
assert (c.nspam, c.nham) == (0, 1), (c.nspam, c.nham)
""", 'a message is added to the corpus of the other class before it is removed from the first', 'the wrong class is untrained')

add('S01-small', 'S01', [(C, "        return self.spamcount, self.hamcount", "        return min(self.spamcount, 65535), min(self.hamcount, 65535)")], """
import os, tempfile
from sbclassifier.classifiers.basic import WordInfo
from sbclassifier.classifiers.storage import PickleClassifier
path = os.path.join(tempfile.mkdtemp(), 'x')
c = PickleClassifier(path)
c.nspam = 70000
c.wordinfo['a'] = WordInfo(70000, 0)
c.store()
d = PickleClassifier(path)
assert d.wordinfo['a'].spamcount == 70000, d.wordinfo['a']
""", 'a token that occurs in more than 65535 messages', 'its count is cut off when it is saved')
