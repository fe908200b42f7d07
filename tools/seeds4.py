S=[]
def add(id,prop,edits,demo,needs,breaks): S.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks))
B='classifiers/basic.py'; ST='classifiers/storage.py'; M='message.py'; T='tokenizer.py'; SP='strippers.py'; SL='classifiers/slurping.py'
CB='corpora/base.py'; CC='corpora/caches.py'; CF='corpora/filesystem.py'; SF='safepickle.py'
add('C05-ties','C05',[(B,"""            clues = sorted(tup for tup in
                           (self._worddistanceget(word)
                            for word in set(wordstream))
                           if tup[0] >= MINIMUM_PROB_STRENGTH)""","""            clues = sorted((tup for tup in
                            (self._worddistanceget(word)
                             for word in dict.fromkeys(wordstream))
                            if tup[0] >= MINIMUM_PROB_STRENGTH),
                           key=lambda tup: tup[0])""")],"""
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
words = [b'%03d' % i for i in range(200)]
spam, ham = words[:100], words[100:]
for i in range(2):
    c.learn(spam, True)
    c.learn(ham, False)
assert c.spamprob(words) == c.spamprob(words[::-1]) == c.spamprob(spam[:50] + ham + spam[50:])
""",'more than 150 clues, several of them equally strong at the limit, in a different order','which of the equally strong clues are used depends on the order of the tokens')
add('K01-ghost','K01',[(CC,"""        try:
            ki = self._keys.index(key)
        except ValueError:
            pass
        else:
            self._keys.pop(ki)
""","""        if self._keys and self._keys[0] == key:
            # Otherwise it is dropped when it comes to the front.
            self._keys.pop(0)
""")],"""
from sbclassifier.corpora.caches import NaiveCache
c = NaiveCache(max_size=3)
for k in 'abc':
    c.put(k, k)
c.pop('b')
c.put('d', 'd')
assert sorted(c.keys()) == ['a', 'c', 'd'], list(c.keys())
""",'a message in the middle is removed from a full corpus and another one added','a message is dropped although there is room')
add('K02-same','K02',[(CC,"""        logging.debug('Storing %s to file', key)
""","""        if self.data.get(key) is value:
            # It is stored already.
            return
        logging.debug('Storing message %s to file', key)
""")],"""
import os, tempfile
from sbclassifier.corpora.filesystem import FileCorpus
from sbclassifier.message import from_string
d = tempfile.mkdtemp()
c = FileCorpus(d)
m = from_string('Subject: x\\n\\nbody\\n', 'a')
c.add_message(m)
m['X-Spambayes-Trained'] = 'spam'
c.add_message(m)
assert b'Trained' in open(os.path.join(d, 'a'), 'rb').read()
""",'the same message object is changed and added again','the change is not written to the file')
add('K05-evicted','K05',[(CB,"""        self.message_cache.pop(key)
        #del self.msgs[key]
        if emit_signal:""","""        removed = self.message_cache.pop(key)
        #del self.msgs[key]
        if emit_signal and removed is not None:""")],"""
import os, tempfile
from sbclassifier.corpora.filesystem import FileCorpus
from sbclassifier.corpora import message_removed
from sbclassifier.message import from_string
d = tempfile.mkdtemp()
c = FileCorpus(d, cache_size=1)
heard = []
def on(corpus, message): heard.append(message.id())
message_removed.connect(on, sender=c)
for k in 'ab':
    c.add_message(from_string('Subject: %s\\n\\nbody\\n' % k, k))
c.remove_message(c['a'])
assert heard == ['a'], heard
""",'a message that fell out of the memory cache is removed','nobody is notified of the removal')
add('T01-moved','T01',[('trainers.py',"""        logging.debug('training with %s', message.id())
""","""        if message.is_trained() is self.is_spam:
            # It has been trained before.
            return
        logging.debug('training on %s', message.id())
""")],"""
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora.base import Corpus
from sbclassifier.trainers import SpamTrainer
from sbclassifier.message import from_string
a, b, c = Corpus(), Corpus(), Classifier()
t = SpamTrainer(c, [a, b])
m = from_string('Subject: x\\n\\nbody\\n', 'a')
a.add_message(m)
b.add_message(m)
a.remove_message(m)
assert c.nspam == 1, c.nspam
""",'a message is added to a second corpus of the same trainer before it is removed from the first','the message is no longer trained although it is in a corpus')
add('X07-prefix','X07',[(T,"""            if len(all_addrs) > 1:
                # don't be fooled by "os.path." - commonprefix
                # operates char-by-char!
                pfx""","""            if len(set(all_addrs)) > 1:
                # don't be fooled by "os.path." - commonprefix
                # operates char-by-char!
                pfx""")],"""
from sbclassifier import tokenizer
tokenizer.SUMMARIZE_EMAIL_PREFIXES = True
t = list(tokenizer.tokenize('To: someone@somewhere.example, someone@somewhere.example\\n\\nbody\\n'))
assert b'pfxlen:big' in t, t
""",'all recipients are the same, with the option for beginnings of recipients','there is no clue for the common beginning')
SEEDS=S
