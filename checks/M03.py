"""M03: writing a message out keeps its content."""
import copy
import email
import re

from sbclassifier.message import Classification, Message, from_bytes, from_string

from mon import heads, mail, mime

LEVEL = 'exploration'
RULE = ('Stream "known": messages built together with their meaning (nested multiparts and messages, six charsets, '
        'all transfer encodings, long and folded headers; LF, CRLF or mixed line ends) are read, written with '
        'as_string (with and without the envelope line and the escaping of From lines) and read by the standard '
        'parser; every entity must have the headers it was built with, in order, up to folding, and the type and '
        'decoded content it was built with. Stream "hostile": arbitrary messages; only the line ends, the absence '
        'of effects, the equality with what the email package reads and the equality and independence of copies are judged. In both, a deep snapshot of the '
        'message (headers, payloads, id, verdict, training state) is compared around each operation. Non-trivial: '
        'more than one entity or 8-bit content or a folded header; distinct by message.')
ASSUMPTIONS = ['a transfer encoding of 8-bit content may change to one that is 7-bit',
               'lines that begin with "From " are compared without the escaping, where it is on',
               'messages the email package itself cannot write, or changes when it writes (multiparts with an '
               'empty boundary), are left out (stream "hostile" only)']
NEED = {'written': 3000, 'entities': 6000, 'copied': 3000, '8-bit parts': 500, 'hostile written': 1500}


def snapshot(m):
    payload = m._payload
    if isinstance(payload, list):
        payload = [snapshot(p) for p in payload]
    return (type(m).__name__, heads.raw(m), payload, m.preamble, m.epilogue, m.get_unixfrom(),
            getattr(m, 'messageid', None), getattr(m, 'c', None), getattr(m, 't', None))


def line_ends(case, text):
    case.check(re.search(r'\r(?!\n)|(?<!\r)\n', text) is None, 'a CR or LF alone', text)


def norm(data):
    return data.replace(b'\r\n', b'\n').replace(b'\r', b'\n')


def unescape(data):
    return re.sub(rb'(?m)^>(?=From )', b'', data)


def entities(m):
    """As in mime.message: what each entity has."""
    result = []
    for part in m.walk():
        result.append(heads.raw(part))
        payload = part._payload
        if isinstance(payload, list):
            result.append((part.get_content_type(), len(payload)))
        else:
            result.append((part.get_content_type(), part.get_payload(decode=True)))
    return result


def same_headers(case, got, want, eight):
    drop = ('content-transfer-encoding',) if eight else ()
    def plain(k, v):
        # The parameters of 8-bit content may be quoted anew.
        v = ''.join(v.split())
        return k.lower(), v.replace('"', '') if eight and k.lower() == 'content-type' else v
    got = [plain(k, v) for k, v in got if k.lower() not in drop]
    want = [plain(k, v) for k, v in want if k.lower() not in drop]
    case.equal(got, want, 'headers read again')


def compare(case, again, expected, mangled):
    got = entities(again)
    case.equal(len(got), len(expected), 'number of entities', got, expected)
    for i in range(0, len(got), 2):
        kind, want = expected[i + 1]
        case.equal(got[i + 1][0], kind, 'type')
        eight = isinstance(want, bytes) and any(b > 127 for b in want)
        same_headers(case, got[i], expected[i], eight)
        data = got[i + 1][1]
        if isinstance(want, bytes) and kind.startswith('text/'):
            data, want = norm(data), norm(want)
            if mangled:
                data, want = unescape(data), unescape(want)
            # A line end may belong to the boundary or end the message.
            data, want = data.rstrip(b'\n'), want.rstrip(b'\n')
        case.equal(data, want, 'content')
        case.count('entities')
        if eight:
            case.count('8-bit parts')


def decorate(case, m):
    rng = case.rng
    if rng.random() < .5:
        m.set_id('id-%d' % rng.randrange(10**6))
    if rng.random() < .5:
        m.set_classification(rng.choice(list(Classification)))
    if rng.random() < .5:
        m.remember_trained(rng.choice([True, False, None]))


def copies(case, m):
    """Copies are equal, and changing one leaves the message alone."""
    rng = case.rng
    before = snapshot(m)
    c = copy.deepcopy(m)
    case.check(type(c) is type(m) and c is not m, 'type of a copy')
    case.equal(snapshot(c), before, 'copy')
    case.equal((c.id(), c.classification(), c.is_trained()), (m.id(), m.classification(), m.is_trained()), 'state of a copy')
    shallow = copy.copy(m)
    case.equal(snapshot(shallow), before, 'shallow copy')
    c['X-New'] = 'y'
    del c['Subject']
    c.add_sb_headers(rng.random(), [])
    c.remember_trained('z')
    if isinstance(c._payload, list) and c._payload:
        c._payload[0]['X-New'] = 'y'
        c._payload.pop()
    elif c._payload is not None:
        c.set_payload('other')
    shallow.remember_trained('y')
    shallow.set_classification(rng.choice(list(Classification)))
    case.equal(snapshot(m), before, 'message after its copy was changed')
    case.count('copied')


def write(case, m, **options):
    before = snapshot(m)
    text = m.as_string(**options)
    case.equal(snapshot(m), before, 'message after it was written')
    line_ends(case, text)
    case.equal(m.as_string(**options), text, 'written again') if 'unixfrom' not in options else None
    return text


def known(case):
    rng = case.rng
    data, expected = mime.message(rng, from_lines=True)
    ends = rng.choice([b'\n', b'\n', b'\r\n', b'\r\n', None])
    if ends == b'\r\n':
        data = data.replace(b'\n', b'\r\n')
    elif ends is None:
        data = b''.join(x + rng.choice([b'\n', b'\r\n']) for x in data.split(b'\n')[:-1]) + data.split(b'\n')[-1]
    case.step('message', data)
    ascii_ = data.isascii()
    if ascii_ and rng.random() < .4:
        m = from_string(data.decode('ascii'))
    else:
        m = from_bytes(data)
    got = entities(m)
    if len(got) != len(expected):
        case.fail('harness: the built message is not what was meant', got, expected)
    decorate(case, m)
    options = {}
    if rng.random() < .3:
        options['unixfrom'] = rng.random() < .5
    if rng.random() < .4:
        options['mangle_from_'] = rng.random() < .5
    text = write(case, m, **options)
    if options.get('unixfrom'):
        case.check(text.startswith('From '), 'envelope line', text[:80])
    else:
        case.check(not text.startswith('From '), 'envelope line', text[:80])
    mangled = options.get('mangle_from_', True)
    if mangled:
        case.check(not any(x.startswith('From ') for x in text.split('\r\n')[1:]), 'a From line is not escaped')
    for again in (email.message_from_string(text), from_string(text),
                  from_bytes(text.encode('utf-8', 'surrogateescape'))):
        compare(case, again, expected, mangled)
    # What was written stays the same when read and written again.
    if 'unixfrom' not in options:
        twice = from_string(text).as_string(**options)
        compare(case, from_string(twice), expected, mangled)
    case.count('written')
    copies(case, m)
    compare(case, m, expected, False)
    if len(expected) > 2 or not ascii_:
        case.distinct(data)


def hostile(case):
    rng = case.rng
    data = mail.hostile(rng)
    if rng.random() < .2:
        # What a careless reader would drop.
        data += rng.choice([b'\0', b'\0\0\n', b' ', b'\t\n', b'\x1a', b'\n\n\n', b'\x0c', b'\xff', b'\r', b'\x1c'])
    try:
        m = from_bytes(data)
        other = email.message_from_bytes(data)
        before = snapshot(other)
        other.as_string()
        if snapshot(other) != before:
            raise ValueError('the email package changes it')
    except Exception:
        case.count('cannot be read or written')
        return
    case.step('message', data)
    case.equal(snapshot(m), before, 'the message that was read')
    decorate(case, m)
    copies(case, m)
    write(case, m)
    case.count('hostile written')
    case.distinct(data)


def made(case):
    """Messages that were built, not read."""
    rng = case.rng
    m = Message() if rng.random() < .5 else Message('an id')
    m['From'], m['Subject'] = 'a@b', rng.choice(['x', 'ünï cödé', 'y' * 100, ''])
    content = rng.choice(['', 'text\n', 'a\rb\r\nc\n\nd', 'From me\n', '\n\n'])
    if rng.random() < .5:
        m.set_payload(content)
        want = content
    else:
        m['Content-Type'] = 'multipart/mixed; boundary="x"'
        want = None
        for _ in range(rng.randint(1, 3)):
            part = rng.choice([Message, email.message.Message])()
            part.set_payload(content)
            m.attach(part)
    decorate(case, m) if m.id() is None else None
    copies(case, m)
    text = write(case, m)
    again = from_string(text)
    if want is not None:
        case.equal(unescape(norm(again.get_payload(decode=True))), unescape(norm(want.encode())), 'content')
    else:
        case.equal(len(again.get_payload()), len(m.get_payload()), 'number of parts')
    case.count('made')
    case.distinct(text, m.id())


STREAMS = [('known', 4000, 100000, known), ('hostile', 3000, 100000, hostile), ('made', 300, 5000, made)]
