"""X04: encoding, letter case and nesting do not hide words."""
import base64
import quopri
import re

from sbclassifier.message import from_bytes, from_string
from sbclassifier.tokenizer import tokenize

from mon import mail, words

LEVEL = 'exploration'
RULE = ('Stream "texts": a text (visible words in disguise, URLs, uuencoded files, long words, or hostile fragments '
        'and bytes) is put as the only text, or as one of several, into messages that differ in transfer encoding '
        '(7bit/8bit/binary/none, base64 with any line length, quoted-printable, names of encodings in any case), '
        'in nesting (multipart containers to a depth of 6, attached messages, with binary neighbours, preambles and epilogues), '
        'in the case of the ASCII letters, and in line ends (LF, CRLF, CR). The tokens beyond those of the same message with '
        'empty texts must be the same sequence. Stream "headers": a subject, and names in From, To, Cc, Sender and '
        'Reply-To, as is (atoms or quoted; non-ASCII characters as text) and as encoded words in base64 or quoted-printable '
        'and several charsets must give the same word and name tokens. Non-trivial: the text has tokens and the variants '
        'differ; distinct by text.')
ASSUMPTIONS = ['letter case is that of ASCII letters',
               'hostile texts contain no carriage returns; in texts that are compared with other line ends, tags have at '
               'most 200 characters',
               'encoded words of a subject are separated by ASCII words as is']
NEED = {'texts': 1200, 'variants': 6000, 'base64': 1500, 'quoted-printable': 1500, 'nested': 2000, 'attached': 500,
        'case': 1000, 'CRLF': 600, 'CR': 300, 'subjects': 1000, 'names': 2000, 'encoded subject words': 2000}

TOP = b'From: a@example.com\nSubject: x\nMIME-Version: 1.0\n'
FIELDS = ['From', 'To', 'Cc', 'Sender', 'Reply-To']


def mixed_case(rng, s):
    return rng.choice([s, s, s.upper(), s.title()])


def qp(data):
    out = quopri.encodestring(data)
    return out if quopri.decodestring(out) == data else None


def encoded(case, data):
    """(name of the encoding or None, the encoded bytes)."""
    rng = case.rng
    how = rng.choice(['base64', 'base64', 'quoted-printable', 'quoted-printable', '7bit', '8bit', 'binary', None])
    if how == 'quoted-printable':
        body = qp(data)
        if body is None:
            how = 'base64'
    if how == 'base64':
        n = rng.choice([57, 57, 3, 30, 10**6])
        body = b''.join(base64.b64encode(data[i:i + n]) + b'\n' for i in range(0, len(data), n))
    elif how != 'quoted-printable':
        body = data
        if how == '7bit' and not data.isascii():
            how = '8bit'
    if how in ('base64', 'quoted-printable'):
        case.count(how)
    return how, body


def leaf(case, data, subtype):
    how, body = encoded(case, data)
    rng = case.rng
    head = [('Content-Type: text/%s; charset=%s' % (subtype, rng.choice(['utf-8', 'iso-8859-1', 'us-ascii']))).encode()]
    if how is not None:
        head.append(b'Content-Transfer-Encoding: ' + mixed_case(rng, how).encode())
    rng.shuffle(head)
    head = b'\n'.join(head) + b'\n\n'
    return head + body, head


def neighbour(rng):
    """A part without text."""
    if rng.random() < .2:
        return b'Content-Type: multipart/mixed; boundary=none\n\n--none--\n'
    return (b'Content-Type: %s\nContent-Transfer-Encoding: base64\n\n' % rng.choice(
        [b'image/png', b'application/octet-stream', b'application/x-y; name="z.exe"'])
        + base64.encodebytes(words.word(rng).encode() * 9))


def nest(case, entities, depth, full):
    """Two entities (with and without text) that contain these, in order."""
    rng = case.rng
    if len(entities) == 1 and (depth >= 6 or rng.random() < .35):
        return entities[0]
    if len(entities) == 1 and rng.random() < .3:
        case.count('attached')
        inner = nest(case, entities, depth + 1, full)
        return tuple(b'Content-Type: message/rfc822\n\nSubject: y\nFrom: b@example.com\n' + e for e in inner)
    groups = []
    rest = list(entities)
    while rest:
        n = rng.randint(1, len(rest)) if depth < 6 else 1
        groups.append(rest[:n])
        rest = rest[n:]
    children = [nest(case, g, depth + 1, full) for g in groups]
    for _ in range(rng.choice([0, 0, 1, 2])):
        children.insert(rng.randrange(len(children) + 1), (neighbour(rng),) * 2)
    b = b'=_%d_%d' % (depth, rng.randrange(10**6))
    pre, post = rng.choice([(b'', b''), (b'This is a message in MIME format.\n', b'the end\n')])
    kind = rng.choice([b'mixed', b'alternative', b'related', b'signed', b'x-y'])
    case.count('nested')
    head = b'Content-Type: multipart/%s; boundary="%s"\n\n' % (kind, b) + pre
    return tuple(head + b''.join(b'--' + b + b'\n' + c[k] + b'\n' for c in children) + b'--' + b + b'--\n' + post
                 for k in (0, 1))


def body_tokens(case, full, empty):
    got = list(tokenize(from_bytes(full)))
    head = list(tokenize(from_bytes(empty)))
    case.equal(got[:len(head)], head, 'header tokens')
    return got[len(head):]


def source(case):
    """(bytes, line ends may be changed, a CR may be a line end)."""
    rng = case.rng
    r = rng.random()
    if r < .7:
        src, _, _ = words.text(rng, rng.choice(['ascii', 'utf-8', 'latin-1']), html=rng.random() < .6,
                               special=rng.random() < .6)
        data = src.encode(rng.choice(['utf-8', 'utf-16', 'latin-1'][:1]) if not src.isascii() else 'ascii')
        plain = not re.search(rb'<[^>]{200}', data)
        # A uuencoded section is recognised by lines that end with a line feed.
        return data, plain, plain and b'begin' not in data and b'BEGIN' not in data
    data = mail.text(rng).encode('utf-8', 'surrogateescape')
    if rng.random() < .3:
        data += rng.randbytes(rng.randrange(60))
    return data.replace(b'\r', b'').replace(b'\0', b''), False, False


def texts(case):
    rng = case.rng
    sources = [source(case) for _ in range(rng.choice([1, 1, 1, 2, 3]) if rng.random() < .97 else rng.choice([8, 25]))]
    case.step('texts', [s for s, _, _ in sources])
    subtypes = [rng.choice(['plain', 'html', 'x-y']) for _ in sources]
    first = None
    for k in range(6):
        parts = []
        for (data, ends, cr), subtype in zip(sources, subtypes):
            if k:
                r = rng.random()
                if r < .2:
                    data = data.swapcase()
                    case.count('case')
                elif r < .35:
                    data = rng.choice([data.lower, data.upper])()
                    case.count('case')
                r = rng.random()
                if r < .25 and ends:
                    data = data.replace(b'\n', b'\r\n')
                    case.count('CRLF')
                elif r < .4 and cr:
                    data = data.replace(b'\n', b'\r')
                    case.count('CR')
            parts.append(leaf(case, data, subtype))
        if k == 0 and len(parts) == 1:
            full, empty = parts[0]
        else:
            full, empty = nest(case, parts, 0, True)
        case.step('message', TOP + full)
        got = body_tokens(case, TOP + full, TOP + empty)
        case.count('variants')
        if first is None:
            first = got
        else:
            case.equal(got, first, 'tokens of the texts')
    case.count('texts')
    if first:
        case.distinct([s for s, _, _ in sources])


LETTERS = {'us-ascii': 'abcXYZ019', 'utf-8': 'abcXéßÜñ日本語я€', 'iso-8859-1': 'abXéßÜñ', 'koi8-r': 'abXпривет',
           'windows-1252': 'abXé€“', 'iso-2022-jp': 'ab日本語', 'shift_jis': 'ab日本'}


def phrase(rng, charset, most=4, odd="$.%!?-'"):
    out = []
    for _ in range(rng.randint(1, most)):
        w = ''.join(rng.choice(LETTERS[charset]) for _ in range(rng.choice([1, 2, 3, 4, 6, 9, 12, 13, 25])))
        if rng.random() < .2:
            i = rng.randrange(len(w) + 1)
            w = w[:i] + rng.choice(odd) + w[i:]
        out.append(w)
    return ' '.join(out)


def encode_word(rng, s, charset):
    data = s.encode(charset)
    name = mixed_case(rng, charset)
    if rng.random() < .5:
        return '=?%s?%s?%s?=' % (name, rng.choice('bB'), base64.b64encode(data).decode())
    body = ''.join(chr(c) if chr(c).isalnum() and c < 128 else '_' if c == 32 and rng.random() < .7 else '=%02X' % c
                   for c in data)
    return '=?%s?%s?%s?=' % (name, rng.choice('qQ'), body)


def word_of(token):
    return token.startswith(b'subject:') and re.search(r'\w', token[8:].decode('utf-8', 'replace'))


def subject(case):
    rng = case.rng
    as_is, enc = [], []
    for i in range(rng.randint(1, 5)):
        # Two encoded words in a row would be joined; what is between is ASCII.
        encode = rng.random() < .7 and not (enc and enc[-1].endswith('?='))
        charset = rng.choice(list(LETTERS)) if encode else 'us-ascii'
        group = phrase(rng, charset)
        as_is.append(group)
        if encode:
            enc.append(encode_word(rng, group, charset))
            case.count('encoded subject words', len(group.split()))
        else:
            enc.append(group)
    forms = [' '.join(as_is), ' '.join(enc)]
    case.step('subjects', forms)
    got = []
    for s in forms:
        msg = from_string('From: a@b.c\nSubject: %s\n\nbody\n' % s)
        got.append([t for t in tokenize(msg) if word_of(t)])
        if s.isascii():
            msg = from_bytes(('From: a@b.c\nSubject: %s\n\nbody\n' % s).encode())
            got.append([t for t in tokenize(msg) if word_of(t)])
    for g in got[1:]:
        case.equal(g, got[0], 'words of the subject')
    case.count('subjects')
    if got[0] and forms[0] != forms[1]:
        case.distinct(forms[0])


def names(case):
    rng = case.rng
    field = rng.choice(FIELDS)
    as_is, enc = [], []
    for i in range(rng.choice([1, 1, 2, 5])):
        charset = rng.choice(list(LETTERS))
        quoted = rng.random() < .5
        name = phrase(rng, charset, odd=",.@:;()<>!?-'" if quoted else "!$%-'")
        addr = ' <u%d@x%d.example>' % (i, rng.randrange(99))
        as_is.append(('"%s"' % name if quoted else name) + addr)
        enc.append(encode_word(rng, name, charset) + addr)
    forms = [', '.join(as_is), ', '.join(enc)]
    case.step('names', field, forms)
    prefix = field.lower().encode() + b':name:'
    got = []
    for s in forms:
        msg = from_string('Subject: x\n%s: %s\n\nbody\n' % (field, s))
        got.append([t for t in tokenize(msg) if t.startswith(prefix)])
    case.equal(got[1], got[0], 'names')
    case.equal(len(got[0]), len(as_is), 'number of names')
    case.count('names', len(as_is))
    case.distinct(forms[0])


def header(case):
    (subject if case.rng.random() < .5 else names)(case)


STREAMS = [('texts', 1600, 60000, texts), ('headers', 4000, 200000, header)]
