SEEDS = S = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


M = 'message.py'
CF = 'corpora/filesystem.py'
CC = 'corpora/caches.py'
SL = 'classifiers/slurping.py'
TR = 'trainers.py'

add('T01-marked', 'T01', [(TR, '''        self.classifier.learn(tokenize(message), self.is_spam)
''', '''        if message.is_trained() is not self.is_spam:
            self.classifier.learn(tokenize(message), self.is_spam)
''')], """
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora.base import Corpus
from sbclassifier.message import from_bytes
from sbclassifier.trainers import SpamTrainer
c = Classifier()
first, second = Corpus(), Corpus()
trainer = SpamTrainer(c, [first, second])
m = from_bytes(b'Subject: x\\n\\nhello world\\n', 'a')
first.add_message(m)
second.add_message(m)
assert c.nspam == 2, c.nspam
first.remove_message(m)
assert c.nspam == 1, c.nspam
second.remove_message(m)
assert c.nspam == 0, c.nspam
""", 'one message object that is added to two corpora of a trainer, or was marked as trained before',
    'the message is trained once but untrained twice: the counts are not those of the corpora any more')

add('L01-forgotten', 'L01', [(SL, '''               not content_type.startswith("text/html"):
                self.bad_urls["url:non_html"] += (url,)
''', '''               not content_type.startswith("text/html"):
                self.bad_urls["url:non_html"] = (url,)
''')], """
import os, socket, tempfile
import requests
import sbclassifier.classifiers.slurping as S
from sbclassifier.message import from_bytes
asked = []


class Answer:
    status_code, headers, content = 200, {'content-type': 'image/png'}, b''

    def raise_for_status(self):
        pass


def get(url, **kw):
    asked.append(url)
    return Answer()


requests.get = S.requests.get = get
S.socket.getaddrinfo = lambda *a, **k: [1]
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    c = S.SlurpingClassifier()
    for url in ['one.example/x', 'two.example/y', 'one.example/x']:
        S.slurp_wordstream = 'http', url
        c.learn(['hello'], True)
    S.slurp_wordstream = None
    os.chdir('/')
assert asked == ['http://one.example/x', 'http://two.example/y'], asked
""", 'two links to things that are no HTML pages, and the first one again', 'a page that is no HTML is fetched again and again')

add('M04-named', 'M04', [(M, '''    if msg_id:
        headers += "%s: %s''', '''    if msg_id and MAILID_HEADER_NAME not in headers:
        headers += "%s: %s''')], """
from sbclassifier.message import insert_exception_header, from_string, MAILID_HEADER_NAME
try:
    1 / 0
except ZeroDivisionError:
    text, _ = insert_exception_header('Subject: what is %s?\\r\\n\\r\\nhello\\r\\n' % MAILID_HEADER_NAME, 'the-id')
assert from_string(text)[MAILID_HEADER_NAME] == 'the-id', text
""", 'a message whose headers mention the name of the id header', 'the id is not written into the message')

add('B01-longer', 'B01', [('cdb.py', """                if u == len(key):
""", """                if u >= len(key):
""")], r"""
import tempfile
from sbclassifier.cdb import Cdb, cdb_hash, cdb_make
short, long = b'\x95yA', b'\x95yA\xd8\xee\x15\x03'
assert cdb_hash(short) == cdb_hash(long)
with tempfile.NamedTemporaryFile() as f:
    cdb_make(f, [(long, b'1,0')])
    f.flush()
    db = Cdb(f)
    assert db.get(long) == b'1,0'
    assert db.get(short) is None, db.get(short)
    db.close()
""", 'a key that is the beginning of another one with the same 32-bit hash', 'a key that was never put in is found')
