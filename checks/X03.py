"""X03: what the reader sees becomes tokens, what is hidden does not."""
from sbclassifier.message import from_bytes
from sbclassifier.tokenizer import tokenize

from mon import words

LEVEL = 'exploration'
RULE = ('Texts are built together with what a reader sees: words of 1 to 16 letters, digits or punctuation, broken up '
        'or surrounded by tags (up to the longest recognised), comments, style sheets and noframes sections (nested, '
        'in any case, with tags and angle brackets inside), written with numeric entities, separated by white space, '
        'line breaks, paragraphs and non-breaking spaces, and sections that are never closed; in ASCII, Latin-1 and '
        'UTF-8, plain or HTML, with either line ends, in one or several parts and any transfer encoding. The set of word tokens of the bodies '
        'must be exactly the one computed from what the reader sees; nothing hidden may be among them.'
        ' Non-trivial: something hidden and something visible; distinct by text.')
ASSUMPTIONS = ['letter case is that of ASCII letters; words are counted in bytes',
               'tags have at most 256 characters and no angle bracket inside; breaks are written <br> and <p>',
               'hidden sections contain no unclosed opening of another kind']
NEED = {'messages of more than 7 parts': 40, 'texts of more than 20000 characters': 8, 'texts': 3500, 'visible words': 30000, 'hidden sections': 20000, 'entities': 4000, 'unclosed': 100,
        'several parts': 500}


# Tokens that are no words (see X06).
SUMMARY = (b'skip:', b'8bit%:', b'email name:', b'email addr:', b'virus:', b'url:', b'proto:', b'uuencode')


def entity_of(rng, parts):
    """The bytes of a message with these (text, charset) parts, and one with
    the same headers and empty bodies."""
    def headers(charset, how):
        return b'Content-Type: text/%s; charset=%s\nContent-Transfer-Encoding: %s\n\n' % (
            rng.choice([b'plain', b'html']), charset.replace('latin-1', 'iso-8859-1').replace('ascii', 'us-ascii').encode(),
            how.encode())
    top = b'From: a@example.com\nSubject: x\nMIME-Version: 1.0\n'
    full, empty = [], []
    for s, charset in parts:
        data = s.encode(charset)
        if rng.random() < .2:
            # Lines end as they do in mail on the way.
            data = data.replace(b'\n', b'\r\n')
        how = rng.choice(['base64', 'quoted-printable', '7bit' if data.isascii() else '8bit'])
        h = headers(charset, how)
        full.append(h + words.encode(rng, data, how))
        empty.append(h)
    if len(parts) == 1:
        return top + full[0], top + empty[0]
    kind = rng.choice([b'mixed', b'alternative', b'related'])

    def join(bodies):
        return (top + b'Content-Type: multipart/%s; boundary="=_B"\n\n' % kind
                + b''.join(b'--=_B\n' + b + b'\n' for b in bodies) + b'--=_B--\n')
    return join(full), join(empty)


def body_tokens(case, data, without):
    """The tokens beyond those of the headers."""
    got = list(tokenize(from_bytes(data)))
    head = list(tokenize(from_bytes(without)))
    case.equal(got[:len(head)], head, 'header tokens')
    return got[len(head):]


def run(case):
    rng = case.rng
    parts, want, visible = [], set(), 0
    for _ in range(rng.choice([1, 1, 1, 2, 3]) if rng.random() < .97 else rng.choice([8, 30, 100])):
        charset = rng.choice(['ascii', 'utf-8', 'latin-1'])
        src, tokens, seen = words.text(rng, charset)
        parts.append((src, charset))
        want |= tokens
        visible += len(seen.split())
        case.count('hidden sections', src.count('<'))
        case.count('entities', src.count('&#'))
    data, without = entity_of(rng, parts)
    case.step('texts', parts)
    case.step('message', data)
    got = {t for t in body_tokens(case, data, without) if not t.startswith(SUMMARY)}
    want = {t for t in want if not t.startswith(SUMMARY)}
    case.check(not want - got, 'visible words are not tokens', sorted(want - got))
    case.check(not got - want, 'tokens of what is not visible', sorted(got - want))
    case.count('assertions', len(want))
    case.count('texts')
    case.count('messages of more than 7 parts', len(parts) > 7)
    case.count('texts of more than 20000 characters', sum(len(s) > 20000 for s, _ in parts))
    case.count('visible words', visible)
    if len(parts) > 1:
        case.count('several parts')
    if any('<!-- ' in s and '-->' not in s[s.rindex('<!-- '):] for s, _ in parts):
        case.count('unclosed')
    if visible and any(words.HIDE in s for s, _ in parts):
        case.distinct(parts)


STREAMS = [('texts', 5000, 200000, run)]
