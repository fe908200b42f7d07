"""X06: long words, addresses, URLs, uuencoded files and marks of viruses are summarised exactly."""
from sbclassifier.tokenizer import tokenize  # noqa: F401  (the code under test)

from mon import words
from checks.X03 import body_tokens, entity_of

LEVEL = 'exploration'
RULE = ('Texts are built together with their tokens: words of 1 to 250 bytes (with lengths at every limit, any share of '
        'non-ASCII bytes), mail addresses (with and without dot, several @, at the length limit), URLs (three '
        'protocols in any case, every separator, trailing punctuation, in brackets, quotes and tags), uuencoded '
        'sections (closed, never closed, names with paths and separators, words inside), marks that viruses use and near misses of them (in tags or not, in any case, partly written as entities), and ordinary words around '
        'them. The set of tokens of the bodies must be exactly the one computed by an independent implementation '
        'of the summaries. Stream "exhaustive": every word length from 1 to 130 with every number of non-ASCII '
        'bytes, alone, and lengths up to 200000 with six shares each. Non-trivial: two kinds of summary occur; distinct by text.')
ASSUMPTIONS = ['letter case is that of ASCII letters; lengths are in bytes',
               'URLs are followed by white space, a quote or an angle bracket',
               'words are separated by white space']
NEED = {'messages of more than 7 parts': 20, 'texts of more than 20000 characters': 5, 'texts': 3000, 'skip': 6000, '8bit': 2000, 'addresses': 3000, 'urls': 6000, 'files': 600, 'short': 5000, 'marks': 2000,
        'word lengths': 100}


def judge(case, parts, want):
    data, without = entity_of(case.rng, parts)
    case.step('texts', parts)
    got = set(body_tokens(case, data, without))
    case.check(not want - got, 'tokens are missing', sorted(want - got))
    case.check(not got - want, 'surplus tokens', sorted(got - want))
    case.count('assertions', len(want))
    case.count('skip', sum(t.startswith(b'skip:') for t in want))
    case.count('8bit', sum(t.startswith(b'8bit') for t in want))
    case.count('addresses', sum(t.startswith(b'email name:') for t in want))
    case.count('urls', sum(t.startswith(b'url:') for t in want))
    case.count('files', sum(t.startswith(b'uuencode mode:') for t in want))
    case.count('marks', sum(t.startswith(b'virus:') for t in want))
    case.count('short', sum(len(w) < 3 for s, _ in parts for w in s.split()))
    return want


def run(case):
    rng = case.rng
    parts, want = [], set()
    for _ in range(rng.choice([1, 1, 1, 2]) if rng.random() < .98 else rng.choice([8, 30])):
        charset = rng.choice(['ascii', 'utf-8', 'latin-1'])
        src, tokens, _ = words.text(rng, charset, html=rng.random() < .3, special=True)
        parts.append((src, charset))
        want |= tokens
    judge(case, parts, want)
    kinds = {t[:4] for t in want if t.startswith((b'skip', b'8bit', b'emai', b'url:', b'uuen'))}
    if len(kinds) > 1:
        case.distinct(parts)
    case.count('texts')
    case.count('messages of more than 7 parts', len(parts) > 7)
    case.count('texts of more than 20000 characters', sum(len(s) > 20000 for s, _ in parts))


def exhaustive(case):
    """One word length: all shares of non-ASCII bytes, all in one text."""
    rng = case.rng
    n = case.index + 1
    if n > 130:
        # Longer than any sample of shares could cover.
        n = 130 * (n - 130) + rng.randrange(130)
    case.count('word lengths')
    for high in range(n + 1) if n <= 130 else [0, 1, n // 200, n // 3, n - 1, n]:
        w = [chr(rng.choice([0x80, 0xff, rng.randint(0x80, 0xff)])) for _ in range(high)] + [rng.choice('abcXYZ09-_$.') for _ in range(n - high)]
        rng.shuffle(w)
        w = ''.join(w)
        judge(case, [('%s\n' % w, 'latin-1')], words.word_tokens(w.encode('latin-1').lower()))
        case.distinct(w)
    for k in range(1, min(n, 60)) if n <= 130 else [1, 30, n // 2, n - 2]:
        for dot in ('', '.'):
            w = 'a' * k + '@' + dot + 'b' * max(0, n - k - 1 - len(dot))
            judge(case, [(w, 'ascii')], words.word_tokens(w.encode()))


STREAMS = [('texts', 4000, 200000, run), ('exhaustive', 170, 1500, exhaustive)]
