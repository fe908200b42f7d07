"""Tokenizing in another process: reads a pickled list of (message bytes,
options that are on) and writes a pickled list of digests of the tokens."""
import hashlib
import pickle
import subprocess
import sys
import os


def digest(tokens):
    h = hashlib.blake2b(digest_size=16)
    n = 0
    for t in tokens:
        h.update(b'%d:' % len(t) + t)
        n += 1
    return n, h.hexdigest()


def with_options(message, options, args=()):
    """The tokens with these options of the tokenizer switched on."""
    import sbclassifier.tokenizer as T
    saved = {o: getattr(T, o) for o in options}
    try:
        for o in options:
            setattr(T, o, True)
        return list(T.Tokenizer()(message, *args))
    finally:
        for o, v in saved.items():
            setattr(T, o, v)


def elsewhere(work, seed):
    """The digests from a new interpreter with another hash seed."""
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mon.tokens'], input=pickle.dumps(work),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300)
    if p.returncode:
        raise RuntimeError('tokenizing in another process failed: ' + p.stderr.decode('utf-8', 'replace')[-2000:])
    return pickle.loads(p.stdout)


def main():
    from sbclassifier.message import from_bytes
    work = pickle.load(sys.stdin.buffer)
    out = [digest(with_options(from_bytes(data), options)) for data, options in work]
    sys.stdout.buffer.write(pickle.dumps(out))


if __name__ == '__main__':
    main()
