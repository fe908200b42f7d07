"""Opening the classifiers under one roof."""
import os

from sbclassifier.classifiers.basic import Classifier
from sbclassifier.classifiers import storage

KINDS = ('memory', 'pickle', 'dbm', 'cdb')
STORED = KINDS[1:]


def open_store(kind, path):
    if kind == 'memory':
        return Classifier()
    if kind == 'pickle':
        return storage.PickleClassifier(path)
    if kind == 'dbm':
        return storage.ShelveClassifier(path)
    if kind == 'cdb':
        return storage.CDBClassifier(path)
    raise ValueError(kind)


def close_store(classifier):
    if hasattr(classifier, 'close'):
        classifier.close()


def files(kind, path):
    """The files in which the database is kept."""
    return [path + '.db'] if kind == 'dbm' else [path]


def file_state(directory):
    """Name -> content of every file in a directory."""
    result = {}
    for name in sorted(os.listdir(directory)):
        p = os.path.join(directory, name)
        if os.path.isfile(p):
            with open(p, 'rb') as f:
                result[name] = f.read()
    return result


def in_memory(corpus, key):
    """Whether the corpus keeps the message itself, not only its file."""
    message = corpus.get(key)
    return message is not None and corpus.get(key) is message
