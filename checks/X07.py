"""X07: optional clues are exactly those their options promise."""
import base64
import sys
import types

import sbclassifier.strippers as S
import sbclassifier.tokenizer as T
from sbclassifier.message import from_bytes

from checks.X05 import SAFE, power, text_words
from mon import words
from mon.tokens import with_options

LEVEL = 'exploration'
RULE = ('Messages are built together with the clues that each option must add or change, and tokenized with a random subset '
        'of the options on and with all off; the set of tokens must be that without options, plus (or with the changes of) '
        'exactly these clues. Header options: COUNT_ALL_HEADER_LINES, RECORD_HEADER_ABSENCE, MINE_RECEIVED_HEADERS, '
        'SUMMARIZE_EMAIL_PREFIXES and _SUFFIXES, X_SEARCH_FOR_HABEAS_HEADERS, X_REDUCE_HABEAS_HEADERS and the tokenizing of '
        'all header fields; body options: IMAGE_SIZE, CRACK_IMAGES, CHECK_OCTETS, X_SHORT_RUNS, GENERATE_LONG_SKIPS, '
        'REPLACE_NONASCII_CHARS; URL options: X_PICK_APART_URLS, FANCY_URL_RECOGNITION. After each case all options are off '
        'again and the tokens must be the first ones. Non-trivial: some clue is expected; distinct by message and options.')
ASSUMPTIONS = ['options are switched on as attributes of the modules they are documented in, the recognition of URLs without '
               'protocol when a stripper is made', 'the software that reads pictures is a stand-in (for that which looks up hosts, see D01)',
               'a text ends with a word when short runs are counted; escapes in URLs do not overlap']
NEED = {'header cases': 1500, 'mined hosts': 500, 'mined addresses': 400, 'complaints': 300, 'prefixes': 60, 'suffixes': 60,
        'habeas': 300, 'absent': 3000, 'basic': 400, 'images': 150, 'pictures read': 150, 'octets': 150, 'short runs': 150, 'long skips': 300,
        'replaced': 200, 'picked': 1000, 'users': 150, 'ports': 100, 'addresses': 100, 'escapes': 300, 'fancy': 300,
        'assertions': 3000}

HABEAS = ["winter into spring", "brightly anticipated", "like Habeas SWE (tm)", "Copyright 2002 Habeas (tm)",
          "Sender Warranted Email (SWE) (tm). The sender of this", "email in exchange for a license for this Habeas",
          "warrant mark warrants that this is a Habeas Compliant",
          "Message (HCM) and not spam. Please report use of this",
          "mark in spam to <http://www.habeas.com/report/>."]
LOW = words.LOW


def name(rng, least=1, most=8, letters=LOW):
    return ''.join(rng.choice(letters) for _ in range(rng.randint(least, most)))


def domain(rng):
    return '.'.join(name(rng, letters=LOW + '0123456789-_')
                    for _ in range(rng.randint(0, 3) if rng.random() < .9 else rng.choice([5, 9, 20, 60]))) or name(rng)


def compare(case, got, base, extra, what):
    case.count('assertions')
    want = base | extra
    if got != want:
        case.fail(what, 'missing', sorted(want - got)[:6], 'too many', sorted(got - want)[:6])


def received(case, clues):
    """One Received header, and its clues."""
    rng = case.rng
    out, hosted, ipped = [], False, False
    r = rng.random()
    if r < .75:
        host = domain(rng) + rng.choice(['', '.' + name(rng, 2, 3)])
        if rng.random() < .8:
            host += rng.choice(LOW)
            parts = host.lower().split('.')
            clues |= {b'received:' + '.'.join(parts[i:]).encode() for i in range(len(parts))}
            hosted = True
            case.count('mined hosts')
        else:
            host += rng.choice('0123456789')
        out.append(rng.choice(['from', 'From', 'FROM']) + rng.choice([' ', '  ', '\t']) + rng.choice([host, host.upper()]))
    for _ in range(rng.randint(0, 4)):
        k = rng.randrange(5)
        if k == 0:
            quad = [str(rng.choice([0, 1, 10, 99, 127, 255, rng.randrange(256)])) for _ in range(4)]
            out.append(rng.choice(['[%s]', '(%s)', '(HELO x1 [%s])', '([%s])']) % '.'.join(quad))
            if not ipped:
                ipped = True
                clues |= {b'received:' + '.'.join(quad[:i]).encode() for i in range(1, 5)}
                case.count('mined addresses')
        elif k == 1:
            said = [name(rng, 1, 8, LOW + LOW.upper()) for _ in range(rng.randint(2, 4) if rng.random() < .7 else rng.choice([5, 8, 20]))]
            if said[0].lower() == 'from' or 'from' in [w.lower() for w in said]:
                continue
            out.append('(' + rng.choice([' ', '  ', '\t']).join(said) + ')')
            clues.add(b'received:(' + ' '.join(said).lower().encode() + b')')
            case.count('complaints')
        elif k == 2:
            out.append(rng.choice(['(Postfix)', '(8.9.3/8.9.3)', '(x 1)', '()', '( a b)', '(a b 3)', '(unknown,name)']))
        elif k == 3:
            out.append(rng.choice(['by', 'with', 'id']) + ' ' + name(rng) + '1')
        elif hosted:
            # Only the first host counts.
            out.append('for x from ' + name(rng) + ' ')
    out.append('; Mon, 3 Feb 2014 10:00:00 +0000')
    return rng.choice([' ', ' ', '\n ', '\r\n\t']).join(out)


def common(strings):
    n = 0
    while all(len(s) > n for s in strings) and len({s[n] for s in strings}) == 1:
        n += 1
    return n


def summary(case, kind, addresses, limit, counter):
    if len(addresses) < 2:
        return set()
    n = common(addresses)
    if not n:
        return set()
    score = n * len(addresses) // 10
    case.count(counter)
    return {kind + (b'big' if score > limit else b'%d' % score)}


def message(case):
    """(header list, body bytes, tokens of the body, addresses)."""
    rng = case.rng
    hs = []
    stem, end = name(rng, 0, 6), name(rng, 1, 8)
    addresses = []
    repeated = rng.choice([0, 0, 0, .3, 1])
    for field in rng.sample(['To', 'Cc', 'To', 'cc'], rng.randint(0, 3)):
        group = []
        for _ in range(rng.choice([1, 1, 2, 3, 8])):
            a = (stem if rng.random() < .9 else '') + name(rng, 0, 4) + '@' + name(rng, 0, 3) + (
                '.' + end if rng.random() < .9 else end)
            if a.startswith('@'):
                a = 'u' + a
            a = a.replace('@.', '@d.')
            if addresses and rng.random() < repeated:
                a = rng.choice(addresses)
            shown = a.upper() if rng.random() < .1 else a
            addresses.append(a)
            group.append(rng.choice(['%s', '%s', '<%s>', 'Some One <%s>', '"O, q" <%s>', '%s (note)']) % shown)
        hs.append((field, ', '.join(group)))
    for n in rng.sample(sorted(SAFE - {'to', 'received'}), rng.randint(0, 6)):
        n = rng.choice([n, n.upper(), n.title()])
        hs += [(n, 'a@b.c' if n.lower() in ('from', 'reply-to') else name(rng) + ' ' + name(rng) if rng.random() < .9 else '')
               for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    for n in ['List-Id', 'x-foo', 'X-Foo', 'Date-Sent', 'Received-SPF', 'X-Mailer', 'Comments', 'Keywords', 'Sender', 'DATED', 'Resent-Date', 'Up-Dated', 'Not-Received', 'Receiver', 'Receive-Id', 'Dat', 'Xs', 'X', 'Max-X-Rate', 'Index-x-']:
        if rng.random() < .25:
            hs += [(n, ' '.join(rng.choice([name(rng), name(rng, 9, 30), '50%', '$$$', name(rng) + '-' + name(rng), '=?utf-8?q?x?=',
                                            'AbC', '1.2.3', '"q"', name(rng, 2, 5) + '@' + name(rng, 3, 15) + '.org'])
                                for _ in range(rng.randint(0, 5))) or 'v') for _ in range(rng.choice([1, 1, 2]))]
    body, tokens = [], set()
    for _ in range(rng.randint(0, 8)):
        w = name(rng, 1, 14)
        body.append(w)
        tokens |= words.word_tokens(w.encode())
    return hs, ' '.join(body), tokens, addresses


def write(hs, body, rng=None):
    return ''.join('%s: %s\n' % h for h in hs).encode() + b'\n' + body


def field_tokens(hs):
    """Tokens of header fields taken as text."""
    out = set()
    for k, v in hs:
        k = k.lower()
        if k.startswith(('received', 'date', 'x-')):
            continue
        for w in text_words(v):
            n = len(w)
            if 3 <= n <= 12:
                out.add(('%s:%s' % (k, w)).encode())
            elif n > 12:
                out.add(('%s:skip:%s %d' % (k, w[0], n - n % 10)).encode())
    return out


HEADER = ['COUNT_ALL_HEADER_LINES', 'RECORD_HEADER_ABSENCE', 'MINE_RECEIVED_HEADERS', 'SUMMARIZE_EMAIL_PREFIXES',
          'SUMMARIZE_EMAIL_SUFFIXES', 'X_SEARCH_FOR_HABEAS_HEADERS', 'X_REDUCE_HABEAS_HEADERS']


def headers(case):
    rng = case.rng
    hs, body, body_tokens, addresses = message(case)
    on = [o for o in HEADER if rng.random() < .5]
    mined = set()
    for _ in range(rng.choice([0, 1, 1, 2, 4]) if rng.random() < .97 else rng.choice([15, 60])):
        hs.append((rng.choice(['Received', 'received', 'RECEIVED']), received(case, mined)))
    right, wrong = [], []
    if rng.random() < .5:
        whole = rng.random() < .5
        missing = rng.randrange(9) if rng.random() < .3 else None
        for i, text in enumerate(HABEAS):
            if i != missing if whole else rng.random() < .6:
                if rng.random() < (.04 if whole else .3):
                    hs.append(('X-Habeas-SWE-%d' % (i + 1), rng.choice([text.upper(), text + 'x', text[:-1], 'forged'])))
                    wrong.append(i + 1)
                else:
                    hs.append((rng.choice(['X-Habeas-SWE-%d', 'x-habeas-swe-%d']) % (i + 1), text))
                    right.append(i + 1)
    rng.shuffle(hs)
    extra = set()
    if 'COUNT_ALL_HEADER_LINES' in on:
        names = [k for k, v in hs]
        extra |= {b'header:%s:%d' % (k.encode(), names.count(k)) for k in names}
    if 'RECORD_HEADER_ABSENCE' in on:
        absent = SAFE - {k.lower() for k, v in hs}
        extra |= {b'noheader:' + k.encode() for k in absent}
        case.count('absent', len(absent))
    if 'MINE_RECEIVED_HEADERS' in on:
        extra |= mined
    if 'SUMMARIZE_EMAIL_PREFIXES' in on:
        extra |= summary(case, b'pfxlen:', addresses, 3, 'prefixes')
    if 'SUMMARIZE_EMAIL_SUFFIXES' in on:
        extra |= summary(case, b'sfxlen:', [a[::-1] for a in addresses], 5, 'suffixes')
    if 'X_SEARCH_FOR_HABEAS_HEADERS' in on and (right or wrong):
        case.count('habeas')
        if 'X_REDUCE_HABEAS_HEADERS' not in on:
            extra |= {b'x-habeas-swe-%d:valid' % i for i in right} | {b'x-habeas-swe-%d:invalid' % i for i in wrong}
        elif wrong:
            extra.add(b'x-habeas-swe:invalid')
        elif len(right) == 9:
            extra.add(b'x-habeas-swe:valid')
            case.count('all habeas')
    data = write(hs, body.encode())
    case.step(on, data)
    m = from_bytes(data)
    base = set(with_options(m, []))
    compare(case, set(with_options(m, on)), base, extra, 'clues of the header options')
    compare(case, set(with_options(m, [])), base, set(), 'tokens without options')
    if rng.random() < .3:
        only = rng.random() < .5
        fields = field_tokens(hs)
        case.count('basic')
        case.step('all fields', only)
        got = set(with_options(m, [], (True, only)))
        if only:
            alone = {b'content-type:text/plain'} | body_tokens
        compare(case, got, alone if only else base, fields, 'clues of all header fields')
    if rng.random() < .2:
        # Without the fields, there is nothing to be the only one.
        compare(case, set(with_options(m, [], (False, True))), base, set(), 'tokens without all header fields')
    case.count('header cases')
    if extra:
        case.distinct(data, on)


def part(kind, data, how, rng):
    text = base64.encodebytes(data) if how == 'base64' else data
    h = 'Content-Type: %s\n' % kind
    if how:
        h += 'Content-Transfer-Encoding: %s\n' % how
    return h.encode() + b'\n' + text


def multipart(parts):
    return (b'Subject: x\nMIME-Version: 1.0\nContent-Type: multipart/mixed; boundary="=_b_="\n\n'
            + b''.join(b'--=_b_=\n' + p + b'\n' for p in parts) + b'--=_b_=--\n')


def bodies(case):
    rng = case.rng
    on = [o for o in ('IMAGE_SIZE', 'CHECK_OCTETS', 'X_SHORT_RUNS') if rng.random() < .6]
    parts, total, prefixes, extra = [], 0, [], set()
    for _ in range(rng.randint(0, 3) if rng.random() < .96 else rng.randint(4, 20)):
        data = rng.randbytes(rng.choice([0, 1, 2, 3, 5, 6, 11, 12, 45, 46, 90, 91, 181, 182, 1000, 6000, rng.randrange(300)]))
        parts.append(part(rng.choice(['image/gif', 'image/png', 'IMAGE/JPEG', 'image/x']), data, 'base64', rng))
        total += len(data)
    for _ in range(rng.randint(0, 3) if rng.random() < .96 else rng.randint(4, 20)):
        data = rng.choice([b'MZ\x90\0\x03', b'PK\3\4', b'%PDF-1.4', b'', rng.randbytes(rng.randrange(9))]) + rng.randbytes(rng.randrange(30))
        parts.append(part('application/octet-stream', data, 'base64', rng))
        prefixes.append(data[:5])
    if rng.random() < .3:
        parts.append(part('application/pdf', rng.randbytes(20), 'base64', rng))
    for _ in range(rng.randint(0, 2) if rng.random() < .96 else rng.randint(3, 20)):
        text, runs, run = [], [], 0
        for _ in range(rng.randint(0, 12) if rng.random() < .97 else 400):
            n = rng.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 16] if rng.random() < .99 else [63, 64, 130, 300, 1100])
            text += [name(rng, 1, 2) for _ in range(n)] + [name(rng, 3, 16)]
            if n:
                runs.append(n)
        parts.append(part('text/plain', rng.choice([' ', '\n', '  ']).join(text).encode(), '', rng))
        if runs and 'X_SHORT_RUNS' in on:
            extra.add(b'short:%d' % (max(runs).bit_length() - 1))
            case.count('short runs')
    rng.shuffle(parts)
    if total and 'IMAGE_SIZE' in on:
        extra.add(b'image-size:2**%d' % power(total))
        case.count('images')
    if 'CHECK_OCTETS' in on:
        for p in prefixes:
            # The clue of a prefix is that of a message with only this part.
            alone = from_bytes(multipart([part('application/octet-stream', p, 'base64', rng)]))
            clue = set(with_options(alone, ['CHECK_OCTETS'])) - set(with_options(alone, []))
            case.equal(len(clue), 1, 'clues of one octet part', p, clue)
            case.check(clue == {b'octet:' + repr(p).encode()}, 'the clue of a part does not show its beginning', p, clue)
            extra |= clue
        if prefixes:
            case.count('octets')
    read = []
    if rng.random() < .4:
        # The reader of pictures is other software: a stand-in takes its place.
        on.append('CRACK_IMAGES')
        found = [name(rng, 3, 12) for _ in range(rng.randint(0, 6))]
        tokens = [b'image-text-lines:%d' % rng.randrange(9)] if rng.random() < .7 else []
        reader = types.ModuleType('spambayes.ImageStripper')
        reader.crack_images = lambda engine, pictures: (read.append(list(pictures)) or ' '.join(found).encode(), tokens)
        saved = {n: sys.modules.get(n) for n in ('spambayes', 'spambayes.ImageStripper')}
        sys.modules.update({'spambayes': types.ModuleType('spambayes'), 'spambayes.ImageStripper': reader})
        case.cleanup.append(lambda: [sys.modules.pop(n) if m is None else sys.modules.update({n: m}) for n, m in saved.items()])
        extra |= set(tokens) | {w.encode() for w in found}
        case.count('pictures read')
    data = multipart(parts)
    case.step(on, data)
    m = from_bytes(data)
    base = set(with_options(m, []))
    case.equal(read, [], 'pictures read with the option off')
    compare(case, set(with_options(m, on)), base, extra, 'clues of the body options')
    if 'CRACK_IMAGES' in on:
        case.equal([[p.get_payload(decode=True) for p in pictures] for pictures in read],
                   [[p.get_payload(decode=True) for p in m.walk() if p.get_content_maintype() == 'image']], 'pictures to read')
        read.clear()
    compare(case, set(with_options(m, [])), base, set(), 'tokens without options')
    case.equal(read, [], 'pictures read with the option off')
    if extra:
        case.distinct(data, on)


def off(message, option):
    saved = getattr(T, option)
    setattr(T, option, False)
    try:
        return list(T.Tokenizer()(message))
    finally:
        setattr(T, option, saved)


def changes(case):
    """The options that change tokens."""
    rng = case.rng
    subject = ' '.join(words.long_word(rng, 'ascii') if rng.random() < .5 else name(rng) for _ in range(3))
    text, _, _ = words.text(rng, rng.choice(['ascii', 'utf-8', 'latin-1']) if rng.random() < .5 else 'utf-8', html=False,
                            special=True, n=10)
    data = text.encode('utf-8')
    head = b'Subject: ' + subject.encode() + b'\nContent-Type: text/plain; charset=utf-8\n\n'
    m = from_bytes(head + data)
    case.step(head + data)
    base = set(T.Tokenizer()(m))
    skips = {t for t in base if t.startswith((b'skip:', b'subject:skip:'))}
    got = set(off(m, 'GENERATE_LONG_SKIPS'))
    case.count('assertions')
    if got != base - skips:
        case.fail('without long skips', 'missing', sorted(base - skips - got)[:6], 'too many', sorted(got - base + skips)[:6])
    if skips:
        case.count('long skips')
        case.distinct(data)
    # Characters that are not ASCII count as question marks.
    pieces, plain = [], []
    for _ in range(rng.randint(1, 12)):
        w = name(rng, 0, 6, LOW + 'ABC123') + ''.join(
            rng.choice(rng.choice([LOW, 'éÜßя日', '\x01\x7f\x00\x0e', '\x80\xff'])) for _ in range(rng.randint(0, 8)))
        seen = ''
        src = b''
        for c in w:
            n = len(c.encode('utf-8'))
            ok = ' ' <= c <= '~'
            seen += c if ok else '?' * n
            src += b'&#%d;' % ord(c) if rng.random() < .15 and c.isalpha() else c.encode('utf-8')
        pieces.append(src)
        plain.append(seen.encode())
    sep = rng.choice([b' ', b'\n', b'\t', b'\r\n'])
    source, shown = sep.join(pieces), sep.join(plain)
    case.step(source)
    got = set(with_options(from_bytes(head + source), ['REPLACE_NONASCII_CHARS']))
    want = set(T.Tokenizer()(from_bytes(head + shown)))
    compare(case, got, want, set(), 'characters that are replaced')
    if source != shown:
        case.count('replaced')


def escape(rng, s, rate):
    """Some characters as escapes; all of them in the list."""
    out, escapes = '', []
    for c in s:
        if rng.random() < rate:
            e = '%%%02x' % ord(c)
            escapes.append(e)
            out += rng.choice([e, e.upper()])
        else:
            out += c
    return out, escapes


def make_url(case):
    """(URL, its protocol, its clues)."""
    rng = case.rng
    proto = rng.choice(['http', 'https', 'ftp', 'HTTP'])
    rate = rng.choice([0, 0, .1, .5, 1])
    clues, escapes, netloc = set(), [], ''

    def put(s, rate):
        out, e = escape(rng, s, rate)
        escapes.extend(e)
        return out

    if rng.random() < .3:
        netloc += put(rng.choice(['www.', '']) + name(rng, letters=LOW + '.-') + rng.choice(['', ':' + name(rng)]), rate)
        netloc += put('@', rate)
        clues.add(b'url:has user')
        case.count('users')
    if rng.random() < .25:
        host = '.'.join(str(rng.randrange(256)) for _ in range(4))
        clues.add(b'url:ip addr')
        case.count('addresses')
    else:
        host = 'h' + domain(rng) + rng.choice(['', '.com', '.1.2.3.4', '.x1'])
    netloc += put(host, rate)
    if rng.random() < .35:
        port = rng.choice(['80', '443', '8080', '21', '8', '08'])
        netloc += put(':', 0) + put(port, rate)
        p = proto.lower()
        if p == 'http' and port != '80' or p == 'https' and port != '443':
            clues.add(b'url:non-standard %s port' % p.encode())
            case.count('ports')
    path = ''
    if rng.random() < .7:
        path += put('/', 0)
        for _ in range(rng.randint(0, 12)):
            r = rng.random()
            if r < .15:
                path += rng.choice(['%zz', '%g0', '%-5'])
                escapes.append(path[-3:])
            elif r < .25:
                # Any other byte.
                c = chr(rng.choice([0, 9, 10, 32, 0x25, 0x41, 0x5b, 0x2f, 0x3f, 0x80, 0xe9, 0xff]))
                path += put(c, 1)
            else:
                path += put(rng.choice(LOW + '/.?=&-_~;:+,$'), rate if rng.random() < .3 else 0)
    if escapes:
        clues |= {b'url:' + e.lower().encode() for e in escapes}
        clues.add(b'url:%%%d' % (len(escapes).bit_length() - 1))
        case.count('escapes')
    return proto + '://' + netloc + path, proto.lower(), clues


def picked(case):
    rng = case.rng
    texts, on, plain = [], set(), set()
    for _ in range(rng.randint(1, 4)):
        url, proto, clues = make_url(case)
        texts.append(rng.choice(['see %s here', '<a href="%s">link</a>', '(%s ', '%s', "'%s'"]) % url)
        # The text is folded before it is decoded.
        low = url.lower().split('://', 1)[1]
        decoded, i = bytearray(), 0
        while i < len(low):
            if low[i] == '%' and all(c in '0123456789abcdef' for c in low[i + 1:i + 3]) and len(low) >= i + 3:
                decoded.append(int(low[i + 1:i + 3], 16))
                i += 3
            else:
                decoded.append(ord(low[i]))
                i += 1
        while decoded and decoded[-1] in b'.:?!/':
            decoded.pop()
        on |= clues | {b'proto:' + proto.encode()}
        on |= {b'url:' + c for p in bytes(decoded).split(b'/') for c in words.split_bytes(p, words.SEP)}
        plain |= words.url_tokens(proto.encode(), low.encode())
    body = rng.choice([' ', '\n']).join(texts).encode('latin-1')
    case.step(body)
    m = from_bytes(b'Subject: x\nContent-Type: text/html\n\n' + body)
    base = set(T.Tokenizer()(m))
    case.check(plain <= base, 'tokens of URLs', sorted(plain - base)[:6])
    rest = base - plain
    saved = S.X_PICK_APART_URLS
    S.X_PICK_APART_URLS = True
    try:
        got = set(T.Tokenizer()(m))
    finally:
        S.X_PICK_APART_URLS = saved
    compare(case, got, rest, on, 'clues of URLs')
    case.count('picked')
    case.distinct(body)


def fancy(case):
    rng = case.rng
    saved = S.FANCY_URL_RECOGNITION
    S.FANCY_URL_RECOGNITION = True
    try:
        stripper = S.URLStripper()
    finally:
        S.FANCY_URL_RECOGNITION = saved
    text, seen, tokens = '', '', set()
    for _ in range(rng.randint(1, 8)):
        r = rng.random()
        around = rng.choice([' %s ', '"%s" ', '<%s>', '(%s ', '\n%s\n', '-%s '])
        if r < .5:
            begin = rng.choice(['www', 'ftp'])
            url = begin + '.' + name(rng) + rng.choice(['', '.com', '.org/a/b?c=d', '/x.', '.'])
            tokens |= words.url_tokens(b'http' if begin == 'www' else b'ftp', url.encode())
        elif r < .7:
            url, t = words.url(rng)
            url = url.lower()
            tokens |= t
        else:
            w = rng.choice([name(rng), 'www', 'ftp', 'www.', 'www..a', 'ftp. x', 'awww.b', 'w.w.w', 'wwww.x', 'xftp.y', '1ftp.z'])
            text += ' ' + w + ' '
            seen += ' ' + w + ' '
            continue
        text += around % url
        seen += around % ''
    case.step(text)
    got_text, got = stripper.analyze(text.encode('latin-1'))
    case.equal(set(got), tokens, 'clues of URLs without protocol')
    case.equal(got_text, seen.encode('latin-1'), 'text around URLs')
    case.check(all(type(t) is bytes for t in got), 'tokens are bytes')
    # A stripper made without the option does not see them.
    plain, _ = S.URLStripper().analyze(b'www.a.b ')
    case.equal(plain, b'www.a.b ', 'text without the option')
    case.count('fancy')
    if tokens:
        case.distinct(text)


STREAMS = [('headers', 6000, 120000, headers), ('bodies', 2400, 30000, bodies), ('changes', 1800, 30000, changes),
           ('picked', 4000, 80000, picked), ('fancy', 1000, 20000, fancy)]
