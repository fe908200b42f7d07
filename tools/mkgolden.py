"""Saves databases for S08, with the code on PYTHONPATH: mkgolden.py PREFIX KIND..."""
import json
import os
import random
import sys
import tempfile
import shutil

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import gen                                     # noqa: E402
from mon.model import Ledger                            # noqa: E402
from sbclassifier.classifiers import storage           # noqa: E402
from sbclassifier.classifiers.basic import Classifier  # noqa: E402
from sbclassifier.safepickle import pickle_write       # noqa: E402

WHERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'golden')


def token(t):
    return ['b', t.decode('latin-1')] if isinstance(t, bytes) else ['s', t]


def main(prefix, kinds):
    for kind in kinds:
        for i in range(5):
            rng = random.Random('%s %s %d' % (prefix, kind, i))
            tokens = str if prefix == 'base' and kind == 'dbm' or rng.random() < .4 else bytes
            vocab = [t for t in gen.vocabulary(rng, [3, 12, 40, 120, 300][i], tokens) if t]
            if tokens is str:
                vocab = [t for t in vocab if all(c < '\ud800' for c in t)]
            d = tempfile.mkdtemp()
            path = os.path.join(d, 'db')
            ledger = Ledger()
            for _ in range(1 + i):
                if kind == 'plain':
                    c = Classifier()
                else:
                    c = {'pickle': storage.PickleClassifier, 'dbm': storage.ShelveClassifier,
                         'cdb': storage.CDBClassifier}[kind](path)
                for _ in range([1, 4, 8, 10, 20][i]):
                    if ledger.messages() and rng.random() < .3 and kind != 'plain':
                        t, s = rng.choice(ledger.messages())
                        c.unlearn(list(t), s)
                        ledger.unlearn(t, s)
                    elif i or kind != 'cdb':
                        t, s = gen.stream(rng, vocab, 30), rng.random() < .5
                        c.learn(t, s)
                        ledger.learn(t, s)
                if kind == 'plain':
                    pickle_write(path, c, i)
                    break
                c.store()
                c.close()
            name = os.path.join(WHERE, '%s-%s-%d' % (prefix, kind, i))
            for f in os.listdir(d):
                shutil.copyfile(os.path.join(d, f), name + f[2:])
            with open(name + '.json', 'w') as f:
                json.dump([[[token(x) for x in t], s] for t, s in ledger.messages()], f)
            shutil.rmtree(d)


main(sys.argv[1], sys.argv[2:])
