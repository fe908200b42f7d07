"""X05: header tokens describe the headers exactly."""
import base64
import re
from fractions import Fraction

from sbclassifier.message import from_bytes, from_string
from sbclassifier.tokenizer import tokenize

from mon import mail, words

LEVEL = 'exploration'
RULE = ('Well-formed messages are built together with the tokens of their headers: any subset of Subject (plain, non-ASCII, '
        'encoded words in several charsets, several in a row), From, To, Cc, Sender and Reply-To (several lines and '
        'addresses, up to 300 recipients, atoms, quoted strings, encoded words, comments, no names, upper case), X-Mailer, Message-ID '
        '(well-formed and not), all counted header lines (repeated, in different case), headers without tokens '
        '(Received, List-Id, X-Spambayes-*, ...) in any order, and bodies with any nesting, content types, type '
        'and charset parameters, dispositions and file names (quoted, escaped, RFC 2231, in pieces) and attached messages '
        'whose own headers must not count. The set of all tokens of the message must be exactly the one computed by an '
        'independent implementation from what the message was built from. Non-trivial: ten or more tokens; distinct by message.')
ASSUMPTIONS = ['recipients are counted as the entries between commas (also of names and addresses in quotes)',
               'white space at the folds of a subject is not judged, dispositions are not folded; default options']
NEED = {'entries without address': 500, 'messages': 3000, 'subjects': 1500, 'encoded words': 1000, 'empty encoded words': 50, 'addresses': 10000, 'names': 4000, 'folded subjects': 100, 'absent': 3000,
        'counted': 8000, 'uncounted': 3000, 'file names': 2000, 'charsets': 2000, 'attached': 300, 'mailers': 800,
        'message ids': 1500}

SAFE = {'abuse-reports-to', 'date', 'errors-to', 'from', 'importance', 'in-reply-to', 'message-id', 'mime-version',
        'organization', 'received', 'reply-to', 'return-path', 'subject', 'to', 'user-agent', 'x-abuse-info',
        'x-complaints-to', 'x-face'}
ADDRESS = ['from', 'to', 'cc', 'sender', 'reply-to']
LETTERS = {'utf-8': 'abcXéßÜñ日本語я€', 'iso-8859-1': 'abXéßÜñ', 'koi8-r': 'abXпривет', 'us-ascii': 'abcXYZ019',
           'iso-2022-jp': 'ab日本語'}


def b(s):
    return s if isinstance(s, bytes) else s.encode('utf-8')


def power(n):
    """The nearest power of two, by the logarithm."""
    k = 0
    # 2 ** (k + 1/2) < n, in integers.
    while 2 ** (2 * k + 1) < n * n:
        k += 1
    return k


def text_words(s):
    """Words of a subject."""
    out, w = [], ''
    for c in s + ' ':
        if c.isalnum() or c in '_$.%' or '\x80' <= c <= '\xff':
            w += c
        elif w:
            out.append(w)
            w = ''
    return out


def punctuation(s):
    out, run = [], ''
    for c in s + 'x':
        if c.isalnum() or c == '_':
            if run:
                out.append(run)
            run = ''
        else:
            run += c
    return out


def subject_tokens(chunks):
    out = set()
    for s, charset in chunks:
        if charset is not None:
            out.add(b'subjectcharset:' + b(charset))
        for w in text_words(s):
            n = len(w)
            if 3 <= n <= 12:
                out.add(b'subject:' + b(w))
            elif n > 12:
                out.add(b'subject:skip:' + b(w)[:1] + b' %d' % (n - n % 10))
                high = sum(c > 127 for c in b(w))
                if high:
                    out.add(b'subject:8bit%%:%d' % round(Fraction(100 * high, len(b(w)))))
        out |= {b'subject:' + b(p) for p in punctuation(s)}
    return out


def phrase(rng, charset='us-ascii', odd='$.%!?-,:;()"\'/&', most=6):
    out = []
    for _ in range(rng.randint(1, most)):
        w = ''.join(rng.choice(LETTERS[charset]) for _ in range(rng.choice([1, 2, 3, 4, 6, 9, 12, 13, 25])))
        if odd and rng.random() < .3:
            i = rng.randrange(len(w) + 1)
            w = w[:i] + ''.join(rng.choice(odd) for _ in range(rng.randint(1, 3))) + w[i:]
        out.append(w)
    return ' '.join(out)


def encode_word(rng, s, charset):
    data = s.encode(charset)
    name = rng.choice([charset, charset.upper()])
    if rng.random() < .5:
        return '=?%s?%s?%s?=' % (name, rng.choice('bB'), base64.b64encode(data).decode())
    body = ''.join(chr(c) if chr(c).isalnum() and c < 128 else '_' if c == 32 else '=%02X' % c for c in data)
    return '=?%s?%s?%s?=' % (name, rng.choice('qQ'), body)


def subject(case):
    """(value, chunks of text with charset)."""
    rng = case.rng
    case.count('subjects')
    r = rng.random()
    if r < .4:
        s = rng.choice([phrase(rng), phrase(rng), '', 'Re: ' + phrase(rng), 'FREE!!! 100% $$$', phrase(rng, odd='', most=30),
                        phrase(rng, odd='~`@#^&*_=+[]{}|<>')])
        return s, [(s, None)]
    if r < .5:
        s = phrase(rng, 'utf-8')
        return s, [(s, None)]
    if r < .65:
        s = phrase(rng, odd="$.%!?-,:;", most=20)
        pieces = s.split(' ')
        value = pieces[0] + ''.join((rng.choice(['\n ', '\n\t']) if rng.random() < .3 else ' ') + w for w in pieces[1:])
        case.count('folded subjects', '\n' in value)
        return value, [(s, None)]
    value, chunks = '', []
    n = rng.randint(1, 4)
    for i in range(n):
        if rng.random() < .4 and (not chunks or chunks[-1][1] is not None):
            s = phrase(rng, odd='')
            chunks.append(((' ' if i else '') + s + ' ', None))
            value += s + ' '
            last_plain = True
        else:
            charset = rng.choice(list(LETTERS))
            s = phrase(rng, charset)
            if rng.random() < .08:
                s = ''
                case.count('empty encoded words')
            if chunks and chunks[-1][1] == charset:
                # Encoded words in a row are joined.
                chunks[-1] = (chunks[-1][0] + s, charset)
            else:
                chunks.append((s, charset))
            value += encode_word(rng, s, charset) + ' '
            case.count('encoded words')
            last_plain = False
    value = value[:-1]
    if last_plain:
        chunks[-1] = (chunks[-1][0][:-1], None)
    if len(chunks) == 1 and chunks[0][1] is None:
        chunks = [(value, None)]
    return value, chunks


def address(case, field):
    """(value, name chunks or None, address)."""
    rng = case.rng
    if rng.random() < .06:
        case.count('entries without address')
        if rng.random() < .3:
            name = phrase(rng, odd='', most=3)
            return rng.choice(['%s <>', '"%s" <>', '%s < >']) % name, (name, None), ''
        return rng.choice(['undisclosed-recipients:;', '<>', 'Undisclosed recipients: ;', 'x:;']), None, ''
    local = ''.join(rng.choice('abcdefgh.-_+0') for _ in range(rng.randint(1, 9))).strip('.').replace('..', '.') or 'x'
    domain = '.'.join(''.join(rng.choice('abcxyz-0') for _ in range(rng.randint(1, 6))).strip('-') or 'h'
                      for _ in range(rng.randint(1, 3)))
    addr = local + '@' + domain
    if rng.random() < .06:
        # A quoted local part may hold anything.
        addr = '"%s"@%s' % (rng.choice(['a@b', 'x y', 'a,b', 'a@b@c', '(z)', 'a:b;']), domain)
        case.count('quoted local parts')
    if rng.random() < .2:
        addr = addr.upper()
    case.count('addresses')
    r = rng.random()
    if r < .3:
        return rng.choice(['%s', '<%s>']) % addr, None, addr
    case.count('names')
    if r < .55:
        name = phrase(rng, odd="!#$%&'*+-/=?^_`{|}~", most=3)
        return '%s <%s>' % (name, addr), (name, None), addr
    if r < .75:
        name = phrase(rng, rng.choice(['us-ascii', 'utf-8']), odd=".:;()<>@[]',", most=3)
        return '"%s" <%s>' % (name, addr), (name, None), addr
    if r < .85:
        name = phrase(rng, odd='', most=3)
        return '%s (%s)' % (addr, name), (name, None), addr
    charset = rng.choice(list(LETTERS))
    name = phrase(rng, charset, odd='.!,<>@', most=3)
    return '%s <%s>' % (encode_word(rng, name, charset), addr), (name, charset), addr


FREE = ['List-Id', 'X-Spambayes-Classification', 'X-Spambayes-Evidence', 'X-Spambayes-Trained', 'References', 'X-Priority',
        'DKIM-Signature', 'Delivered-To', 'Bcc', 'Resent-From', 'X-Habeas-SWE-1', 'NNTP-Posting-Host', 'X-Originating-IP',
        'Comments', 'Keywords', 'Xsubject', 'Subject-X', 'Resent-To']


def name_case(rng, name):
    return rng.choice([name.title(), name.title(), name.lower(), name.upper(), name.swapcase(), name.capitalize()])


def top_headers(case):
    """(list of (name, value), the tokens)."""
    rng = case.rng
    items = []
    for field in ADDRESS:
        for _ in range(rng.choice([0, 0, 1, 1, 1, 1, 2, 3]) if rng.random() < .995 else rng.choice([11, 70, 150])):
            n = rng.choice([1, 1, 1, 2, 3, 5, 6, 12])
            if rng.random() < .02:
                n = rng.choice([23, 45, 91, 181, 182, 300])
            entries = [address(case, field) for _ in range(n)]
            items.append((name_case(rng, field), rng.choice([', ', ',', ',\n\t', ' , ']).join(e[0] for e in entries), entries))
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
        items.append((name_case(rng, 'subject'),) + subject(case))
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        s = phrase(rng, most=rng.choice([2, 6, 12, 40])) if rng.random() < .94 else rng.choice(['', 'none', 'None', '0'])
        items.append((name_case(rng, 'x-mailer'), s.replace(' ', rng.choice([' ', '  ', '\n\t', '\t'])), s))
        case.count('mailers')
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        host = rng.choice(['example.com', 'X.Example.ORG', 'localhost', '[10.0.0.1]', 'a.b', 'host with space', 'a@b'])
        ok = rng.random() < .7
        value = '<%s@%s>' % (rng.choice(['1', 'a.b.c', '20010101.ABC$1', 'x y']), host)
        if not ok:
            value = rng.choice(['', '<x>', 'a@b', '<@host>', '<a@>', 'x', '<a@b', 'a@b>', 'x <a@b>', '<>', '()'])
        elif rng.random() < .2:
            value = value + ' (comment)'
        items.append((name_case(rng, 'message-id'), value, host if ok else None))
        case.count('message ids')
    for _ in range(rng.choice([0, 1, 3, 8]) if rng.random() < .97 else rng.choice([60, 300])):
        name = rng.choice(sorted(SAFE - set(ADDRESS) - {'subject', 'message-id'}))
        if rng.random() < .3 and items:
            name = rng.choice(items)[0] if items[-1][0].lower() in SAFE - set(ADDRESS) - {'subject', 'message-id'} else name
        if name.lower() in SAFE - set(ADDRESS) - {'subject', 'message-id'}:
            items.append((name_case(rng, name) if rng.random() < .5 else name.title(), phrase(rng, odd=''), None))
    for _ in range(rng.choice([0, 0, 1, 3])):
        items.append((name_case(rng, rng.choice(FREE)), phrase(rng, odd=''), None))
        case.count('uncounted')
    rng.shuffle(items)
    want = set()
    for field in ADDRESS:
        lines = [x for x in items if x[0].lower() == field]
        if not lines:
            want.add(b('%s:none' % field))
            case.count('absent')
            continue
        nameless = 0
        for _, value, entries in lines:
            for _, name, addr in entries:
                if name is None:
                    nameless += 1
                else:
                    want.add(b('%s:name:%s' % (field, name[0].lower())))
                    if name[1] is not None:
                        want.add(b('%s:charset:%s' % (field, name[1])))
                want |= {b('%s:addr:%s' % (field, a)) for a in (addr.lower() or 'none').split('@')}
        if nameless:
            want.add(b('%s:no real name:2**%d' % (field, power(nameless))))
        if field in ('to', 'cc'):
            want.add(b('%s:2**%d' % (field, power(sum(value.count(',') + 1 for _, value, _ in lines)))))
    first = {}
    for x in items:
        first.setdefault(x[0].lower(), x)
    if 'subject' in first:
        want |= subject_tokens(first['subject'][2])
    want.add(b('x-mailer:' + (first['x-mailer'][2].lower() if 'x-mailer' in first else 'none')))
    host = first['message-id'][2] if 'message-id' in first else None
    want.add(b('message-id:@' + host) if host is not None else b'message-id:invalid')
    counts = {}
    for x in items:
        if x[0].lower() in SAFE:
            counts[x[0]] = counts.get(x[0], 0) + 1
            case.count('counted')
    want |= {b('header:%s:%d' % x) for x in counts.items()}
    return [(x[0], x[1]) for x in items], want


FILES = words.FILES[:8] + ['a b.txt', 'X.TAR.GZ', "it's.doc", 'a;b', 'a"b.c', '100%.txt', 'a=b', '(x)', 'x,y.z', '日本.exe', 'é',
                           'a' * 90 + '.pif', '../..', '\\\\srv\\x.y', 'a?b@c&d', '.profile']


def parameter(case, key, value):
    """The parameter in one of the ways to write it."""
    rng = case.rng
    pct = ''.join('%%%02X' % c if not chr(c).isalnum() or c > 127 else chr(c) for c in value.encode('utf-8'))
    if not value.isascii() or rng.random() < .25:
        if rng.random() < .4 and len(value) > 3:
            pieces = [value[:2], value[2:]]
            return '; '.join("%s*%d*=%s%s" % (
                key, i, "utf-8''" if i == 0 else '', ''.join('%%%02X' % c for c in p.encode('utf-8')))
                for i, p in enumerate(pieces))
        return "%s*=%s%s" % (key, rng.choice(["utf-8''", "UTF-8'en'"]), pct)
    if rng.random() < .4 and value.replace('.', 'a').isalnum():
        return '%s=%s' % (key, value)
    return '%s="%s"' % (key, value.replace('\\', '\\\\').replace('"', '\\"'))


def part_headers(case, ctype, want, extra=''):
    """Header lines of an entity; adds their tokens."""
    rng = case.rng
    value = rng.choice([ctype, ctype, ctype.upper()]) + extra
    want.add(b('content-type:' + ctype))
    name = None
    if rng.random() < .3:
        charset = rng.choice(['utf-8', 'us-ascii', 'iso-8859-1', 'x-unknown', 'Windows-1252', 'UTF-8', 'KOI8-R'])
        value += rng.choice(['; charset=%s', '; charset="%s"', ';charset=%s', ';\n\tcharset="%s"']) % charset
        want.add(b('charset:' + charset.lower()))
        case.count('charsets')
    if rng.random() < .2:
        kind = rng.choice(['text/html', 'Multipart/Alternative', 'x', 'text/plain'])
        value += '; type="%s"' % kind
        want.add(b('content-type/type:' + kind.lower()))
    if rng.random() < .3:
        name = rng.choice(FILES)
        value += '; ' + parameter(case, 'name', name)
    if rng.random() < .1:
        value += '; x-other="name=zzz"'
    lines = [(name_case(rng, 'content-type'), value)]
    if rng.random() < .4:
        disp = rng.choice(['attachment', 'inline', 'ATTACHMENT', 'x-y'])
        if rng.random() < .6:
            name = rng.choice(FILES)
            disp += '; ' + parameter(case, 'filename', name)
        if rng.random() < .1:
            disp += '; size=%d' % rng.randrange(999)
        want.add(b('content-disposition:' + disp.lower()))
        lines.append((name_case(rng, 'content-disposition'), disp))
    if name is not None:
        want |= {b'filename:' + t for t in words.filename_tokens(name.encode('utf-8'))}
        case.count('file names')
    if rng.random() < .1:
        lines.append(('Content-ID', '<x@y>'))
    rng.shuffle(lines)
    return lines


def write(lines):
    return ''.join('%s: %s\n' % x for x in lines)


def entity(case, want, depth=0):
    """(header lines, body)."""
    rng = case.rng
    r = rng.random()
    if depth >= 4 or r < .5:
        ctype = rng.choice(['text/plain', 'text/html', 'image/gif', 'application/octet-stream', 'text/x-y', 'audio/x-a+b'])
        if ctype == 'text/plain' and rng.random() < .3:
            want.add(b'content-type:text/plain')
            lines = []
        else:
            lines = part_headers(case, ctype, want)
        w = 'word%d' % rng.randrange(99)
        if ctype.startswith('text/'):
            want.add(b(w))
        return lines, w + '\n'
    if r < .88:
        kind = rng.choice(['mixed', 'alternative', 'related', 'digest', 'signed', 'x-y'])
        bound = '=_%d.%d' % (depth, rng.randrange(10**6))
        lines = part_headers(case, 'multipart/' + kind, want, '; boundary="%s"' % bound)
        body = ''
        for _ in range(rng.randint(1, 3)):
            if kind == 'digest' and rng.random() < .5:
                # The default type of these parts.
                want.add(b'content-type:message/rfc822')
                sub, text = [], attached(case, want, depth)
            else:
                sub, text = entity(case, want, depth + 1)
                if kind == 'digest' and not any(k.lower() == 'content-type' for k, _ in sub):
                    sub.append(('Content-Type', 'text/plain'))
            body += '--%s\n%s\n%s\n' % (bound, write(sub), text)
        return lines, body + '--%s--\n' % bound
    return part_headers(case, 'message/rfc822', want), attached(case, want, depth)


def attached(case, want, depth):
    """An attached message, of which only the content headers count."""
    case.count('attached')
    lines, body = entity(case, want, depth + 1)
    own, _ = top_headers(case)
    if not own:
        own = [('Subject', 'x')]
    return write(own + lines) + '\n' + body


def spaced(token):
    """The token with white space at the folds of a subject made equal."""
    return re.sub(rb'\s+', b' ', token) if token.startswith(b'subject:') else token


def run(case):
    rng = case.rng
    own, want = top_headers(case)
    lines, body = entity(case, want)
    if rng.random() < .5:
        lines = [('MIME-Version', '1.0')] + lines
        n = 1 + sum(k == 'MIME-Version' for k, _ in own)
        want.discard(b('header:MIME-Version:%d' % (n - 1)))
        want.add(b('header:MIME-Version:%d' % n))
    k = rng.randrange(len(own) + 1)
    own = own[:k] + lines + own[k:]
    if not own:
        own = [('X-None', 'x')]
    source = write(own) + '\n' + body
    case.step('message', source)
    if source.isascii() and rng.random() < .7:
        data = source.encode()
        if rng.random() < .5:
            data = data.replace(b'\n', b'\r\n')
        msg = from_bytes(data)
    else:
        msg = from_string(source)
    got = list(tokenize(msg))
    case.check(not any(b'\r' in t for t in got), 'a carriage return in a token')
    if any(name.lower() == 'subject' and '\n' in value for name, value in own):
        got, want = map(spaced, got), set(map(spaced, want))
    got = set(got)
    case.check(not want - got, 'tokens are missing', sorted(want - got))
    case.check(not got - want, 'surplus tokens', sorted(got - want))
    case.count('assertions', len(want))
    case.count('messages')
    if len(want) >= 10:
        case.distinct(source)


STREAMS = [('messages', 4000, 150000, run)]
