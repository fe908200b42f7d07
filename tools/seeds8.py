SEEDS = S = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


B = 'classifiers/basic.py'
ST = 'classifiers/storage.py'
M = 'message.py'
T = 'tokenizer.py'
SP = 'strippers.py'
CF = 'corpora/filesystem.py'

OLD = """
import base64, os, pickle, tempfile
from sbclassifier.classifiers.storage import PickleClassifier
# A database as it was saved earlier: 2 spam and 1 ham messages.
OLD = %r
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'db')
    open(p, 'wb').write(base64.b64decode(OLD))
    c = PickleClassifier(p)
    assert (c.nspam, c.nham) == (2, 1)
    r = c._wordinfoget('spammy')
    assert (r.spamcount, r.hamcount) == (2, 0), r
    assert c.spamprob(['spammy']) > .5
"""


def old():
    import base64
    import os
    import subprocess
    code = '''
import os, sys, tempfile
from sbclassifier.classifiers.storage import PickleClassifier
with tempfile.TemporaryDirectory() as d:
    c = PickleClassifier(os.path.join(d, 'db'))
    c.learn(['spammy', 'x'], True); c.learn(['spammy'], True); c.learn(['hammy', 'x'], False)
    c.store()
    sys.stdout.buffer.write(open(os.path.join(d, 'db'), 'rb').read())
'''
    r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', code], env=dict(os.environ, PYTHONPATH='/repo'),
                       stdout=subprocess.PIPE, check=True)
    return base64.b64encode(r.stdout).decode()


add('S08-order', 'S08', [(B, '''        return self.spamcount, self.hamcount
''', '''        return self.hamcount, self.spamcount
'''), (B, '''        self.spamcount, self.hamcount = t
''', '''        self.hamcount, self.spamcount = t
'''), (B, '''        self.__setstate__((spamcount, hamcount))
''', '''        self.__setstate__((hamcount, spamcount))
''')], OLD % old(), 'a database saved by an earlier version', 'spam and ham counts of every token are exchanged')

add('S08-key', 'S08', [(ST, '''STATE_KEY = 'saved state'
''', '''STATE_KEY = 'saved-state'
''')], """
import os, shelve, tempfile
from sbclassifier.classifiers.storage import ShelveClassifier
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'db')
    # As it was saved earlier: 2 spam and 1 ham messages.
    with shelve.open(p) as s:
        s['saved state'] = (5, 2, 1)
        s['spammy'] = (2, 0)
        s['x'] = (1, 1)
    c = ShelveClassifier(p)
    assert (c.nspam, c.nham) == (2, 1), (c.nspam, c.nham)
    c.close()
""", 'a database saved by an earlier version', 'the totals of an old dbm database are lost')

add('C01-below', 'C01', [(B, '''                    if record.hamcount > 0:
''', '''                    if record.hamcount or record.spamcount:
''')], """
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
c.learn(['a', 'b'], True)
c.learn(['b'], False)
c.unlearn(['a'], False)
r = c._wordinfoget('a')
assert (r.spamcount, r.hamcount) == (1, 0), r
""", 'untraining as ham a message that was not trained as ham, with a token known from spam', 'a count becomes negative')

add('S05-gone', 'S05', [(ST, '''            logging.debug('%s is a new pickle', self.filename)
            self.wordinfo = {}
''', '''            logging.debug('%s is a new pickle', self.filename)
            self.wordinfo = getattr(self, 'wordinfo', {})
''')], """
import os, tempfile
from sbclassifier.classifiers.storage import PickleClassifier
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'db')
    c = PickleClassifier(p)
    c.learn(['a'], True)
    c.store()
    os.remove(p)
    c.load()
    assert (c.nspam, c.nham) == (0, 0)
    assert c._wordinfoget('a') is None
""", 'reloading a pickle whose file has been removed meanwhile', 'the counts of tokens remain when the totals are those of a new classifier')

add('X06-zero', 'X06', [(T, r'''|   \b (?: height | width) = ['"]? 0
''', r'''|   \b (?: height | width) = ['"]? 0 \b
''')], """
from sbclassifier.tokenizer import tokenize
from sbclassifier.message import from_bytes
for s in (b'width=0', b'height="0"', b'<img src=x WIDTH=0px>', b'<p height=00>'):
    t = list(tokenize(from_bytes(b'Subject: x\\n\\nword ' + s + b' word')))
    assert sum(x.startswith(b'virus:') for x in t) == 1, (s, t)
""", 'a picture whose width is written as 0px', 'no clue for it')
