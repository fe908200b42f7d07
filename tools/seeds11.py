SEEDS = S = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


B = 'classifiers/basic.py'
ST = 'classifiers/storage.py'
M = 'message.py'
T = 'tokenizer.py'

add('C01-balanced', 'C01', [(B, "                if record.hamcount == 0 == record.spamcount:", "                if record.hamcount == record.spamcount:")], """
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
c.learn(['a'], True)
c.learn(['a'], False)
c.learn(['a', 'b'], True)
c.unlearn(['a', 'b'], True)
assert c.wordinfo['a'].spamcount == 1, dict(c.wordinfo)
""", 'untraining leaves a token that occurs in as many spam as ham messages', 'the token is forgotten')

add('D01-none', 'D01', [('dnsutils.py', "            socket.setdefaulttimeout(old_timeout)", """            if old_timeout:
                socket.setdefaulttimeout(old_timeout)""")], """
import socket
from sbclassifier import dnsutils
socket.getaddrinfo = lambda *args, **kw: []
socket.setdefaulttimeout(None)
dnsutils.dns_lookup('x.invalid')
assert socket.getdefaulttimeout() is None
""", 'there is no default timeout before the lookup', 'the limit of the lookup stays in force')

add('X07-collapse', 'X07', [(T, """            if len(all_addrs) > 1:
                # don't be fooled by "os.path." - commonprefix
                # operates char-by-char!
                sfx = os.path.commonprefix(all_addrs)""", """            if len(set(all_addrs)) > 1:
                # don't be fooled by "os.path." - commonprefix
                # operates char-by-char!
                sfx = os.path.commonprefix(all_addrs)""")], """
from sbclassifier import tokenizer
from sbclassifier.message import from_string
tokenizer.SUMMARIZE_EMAIL_SUFFIXES = True
m = from_string('To: a@x.com, a@x.com\\n\\nx\\n')
assert b'sfxlen:1' in set(tokenizer.tokenize(m)), set(tokenizer.tokenize(m))
""", 'all recipients are the same, with the option for ends of recipients', 'there is no clue for the common end')

add('X02-walk', 'X02', [(T, """            x = x.replace('\\r', ' ')
            for w in subject_word_re.findall(x):""", """            x = x.replace('\\r', ' ')
            for w in set(subject_word_re.findall(x)):""")], """
import os, subprocess, sys
program = '''
from sbclassifier.message import from_string
from sbclassifier.tokenizer import tokenize
print(list(tokenize(from_string('Subject: one two three four five six seven eight\\\\n\\\\nx\\\\n'))))
'''
seen = {subprocess.run([sys.executable, '-W', 'ignore', '-c', program], env=dict(os.environ, PYTHONHASHSEED=str(i)), capture_output=True, check=True).stdout
        for i in range(4)}
assert len(seen) == 1
""", 'another hash seed (another process)', 'the order of the tokens of the subject changes')

add('M07-range', 'M07', [(M, "            if prob < HAM_CUTOFF:", "            if prob <= HAM_CUTOFF:")], """
from sbclassifier.message import Message, Classification
from sbclassifier.classifiers.constants import HAM_CUTOFF
m = Message()
assert m.set_classification(HAM_CUTOFF) == Classification.unsure
""", 'a score of exactly the limit of ham', 'it is ham instead of unsure')

add('T01-generator', 'T01', [('trainers.py', """            message_removed.connect(self.untrain, sender=corpus)
""", """        for observed in corpora:
            message_removed.connect(self.untrain, sender=observed)
""")], """
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora import Corpus
from sbclassifier.message import from_string
from sbclassifier.trainers import Trainer
c = Classifier()
corpora = {'a': Corpus(), 'b': Corpus()}
t = Trainer(c, True, (corpora[k] for k in 'ab'))
m = from_string('Subject: x\\n\\nhello', 'id')
corpora['a'].add_message(m)
assert c.nspam == 1
corpora['a'].remove_message(m)
assert c.nspam == 0
""", 'the corpora of a trainer are given as an iterator', 'messages that are removed are not untrained')

add('M01-again', 'M01', [(M, """        self.set_classification(prob)
        self[CLASS""", """        if self.c is None:
            self.set_classification(prob)
        self[CLASS""")], """
from sbclassifier.message import from_string
m = from_string('Subject: x\\n\\nhello\\n', 'id')
m.add_sb_headers(.01, [])
m.remove_sb_headers()
m.add_sb_headers(.99, [])
assert m['X-Spambayes-Classification'] == 'spam'
""", 'a message that was marked before is marked with another score', 'it keeps the old verdict')

add('X05-first', 'X05', [(T, "                count += len(str(addrs).split(','))", "                count = max(count, len(str(addrs).split(',')))"),
                         (T, "            for addrs in msg.get_all(field, []):\n                count", "            for addrs in msg.get_all(field) or []:\n                count")], """
from sbclassifier.message import from_string
from sbclassifier.tokenizer import tokenize
m = from_string('To: a@x.com, b@x.com\\nTo: c@x.com, d@x.com\\n\\nx\\n')
assert b'to:2**2' in set(tokenize(m)), set(tokenize(m))
""", 'several headers of recipients', 'only the longest of them is counted')
