SEEDS = S = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


ST = 'classifiers/storage.py'
SL = 'classifiers/slurping.py'
M = 'message.py'

add('S02-pending', 'S02', [(ST, """        self.deleted_words = set()
        self.changed_words = set()

    def store""", """        self.deleted_words = set()
        self.changed_words = getattr(self, 'changed_words', set())

    def store""")], """
import os, tempfile
from sbclassifier.classifiers.storage import ShelveClassifier
with tempfile.TemporaryDirectory() as d:
    c = ShelveClassifier(os.path.join(d, 'db'))
    c.learn(['a', 'b'], True)
    c.learn(['a', 'b'], True)
    c.store()
    c.learn(['a', 'b'], True)
    c.load()
    c.store()
    c.close()
""", 'loading a dbm database again while training of words seen before is not saved, then saving', 'saving fails: words changed before loading are still listed as changed')

add('S02-words', 'S02', [(ST, """            self.nham = 0
        self.wordinfo = {}
""", """            self.nham = 0
        self.wordinfo = {word: info for word, info in self.wordinfo.items()
                         if word in self.db}
""")], """
import os, tempfile
from sbclassifier.classifiers.storage import ShelveClassifier
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'db')
    c = ShelveClassifier(path)
    for _ in range(3):
        c.learn(['a', 'b'], True)
    c.store()
    c.close()
    other = ShelveClassifier(path)
    for _ in range(3):
        other.learn(['a'], False)
    other.store()
    other.close()
    c.load()
    p = c.spamprob(['a'])
    c.close()
    fresh = ShelveClassifier(path)
    want = fresh.spamprob(['a'])
    fresh.close()
assert p == want, (p, want)
""", 'a dbm database that is loaded again after another session saved other counts of words in memory', 'the counts from before loading are used for words in memory')

add('L02-nested', 'L02', [(SL, "            os.makedirs(dir)", "            os.mkdir(dir)")], """
import os, socket, tempfile
import sbclassifier.classifiers.slurping as S


def no(*a, **k):
    raise socket.gaierror(-2, 'unknown')


S.socket.getaddrinfo = no
with tempfile.TemporaryDirectory() as d:
    S.X_CACHE_DIRECTORY = os.path.join(d, 'var', 'url-cache')
    c = S.SlurpingClassifier()
    S.slurp_wordstream = 'http', 'nowhere.invalid/'
    c.learn(['hello'], True)
    S.slurp_wordstream = None
    assert c.wordinfo.get(b'url:non_resolving') is not None, c.wordinfo
""", 'a cache directory whose parent does not exist yet', 'training a message with a link fails')

add('M02-nolevel', 'M02', [(M, """            value = self[header_name]
            if value is not None:""", """            value = self[header_name]
            if value:""")], """
from sbclassifier.message import from_string
m = from_string('Subject: hello\\n\\nbody\\n')
m.add_sb_headers(0.01, [], include_thermostat=True)
before = m.items()
headers = m.current_sb_headers()
m.remove_sb_headers()
for name, value in headers.items():
    m[name] = value
assert sorted(m.items()) == sorted(before), (m.items(), before)
""", 'a message whose level header is empty, since its score is below 0.1', 'the headers cannot be put back after they were removed')
