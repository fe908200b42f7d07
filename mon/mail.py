"""Generators of messages, from ordinary to hostile."""
import base64
import binascii
import email
import quopri

WORDS = ('viagra free money click here now offer limited python mailing list meeting tomorrow '
         'report attached regards hello dear friend winner lottery account bank update verify '
         'naïve Übergröße été señor 日本語 привет').split()
CHARSETS = ['us-ascii', 'utf-8', 'iso-8859-1', 'iso-8859-15', 'windows-1252', 'koi8-r', 'gb2312', 'big5',
            'shift_jis', 'iso-2022-jp', 'utf-7', 'utf-16', 'unknown-8bit', 'x-nope', '', '"', 'ütf', 'rot13',
            'hex', 'base64', 'idna', 'punycode', 'undefined', 'utf-8\0', 'a b', '=?utf-8?q?x?=', '*', 'x' * 300,
            'unicode_escape', 'raw_unicode_escape', 'zlib', 'mbcs', 'utf-8-sig', 'utf-32']
TYPES = ['text/plain', 'text/html', 'text/x-virus', 'application/octet-stream', 'image/gif', 'image/png',
         'multipart/mixed', 'multipart/alternative', 'multipart/signed', 'multipart/related', 'message/rfc822',
         'message/partial', 'message/delivery-status', 'message/external-body', 'text', '/', 'text/', '/plain',
         'TEXT/HTML', 'Text/Plain', '', 'audio/x-wav', 'multipart/digest', 'multipart/form-data', 'x/y/z']
ENCODINGS = ['7bit', '8bit', 'binary', 'base64', 'quoted-printable', 'uuencode', 'x-uue', 'BASE64', 'nope',
             '', 'base64 ', 'x-uuencode', 'Quoted-Printable', 'gzip']
HTML = ['<b>bold</b>', '<a href="http://%s/x?y=%%41">link</a>', '<style>p {x: y}</style>', '<style>',
        '<!-- comment -->', '<!-- unterminated', '&nbsp;', '&#65;', '&#x41;', '&#0;', '&#99999999;', '&#2147483648;', '&#4294967295;', '&#9223372036854775808;', '&#99999999999999999999;', '&#' + '9' * 5000 + ';', '&#0000000065;', '&#55296;',
        '&bogus;', '&amp', '&#', '&#x;', '&', '<', '<br', '<p a="b', '<script>x</script>', '<font size=1>',
        '<img src="http://%s/a.gif" width=1 height=1>', '<blink>', '<td\n>', '<' * 20, '&' * 20, '<!' * 20,
        '<style>' * 5, '<base href=x>', '<html>', '</html>', 'src=cid:x', 'onclick=y', '<DIV STYLE="display:none">',
        '<textarea>', 'v&#105;agra', 'Vi<b></b>agra', '<noscript>', '<a href=http://[::1]/>', '<!---->']
HOSTS = ['example.com', 'a.b.c.example.org', '10.0.0.1', '10.0.0.1:80', 'user:pw@example.com', 'xn--bcher-kva.ch',
         '%41.com', '[::1]', 'example.com:99999', 'example..com', '.', '', 'a' * 70 + '.com', 'é.com', '1.2.3.4.5',
         '0x7f.1', '4294967295', 'example.com.', '-', '_dmarc.x', 'EXAMPLE.COM', '%', '%zz']
ADDRESSES = ['a@example.com', 'Bob <bob@example.com>', '"Q, u" <q@x.org>', '<>', '', '@', 'a@b@c', 'Bob <bob@x',
             '(comment) a@x', 'undisclosed-recipients:;', 'a@x, b@y, c@z', '=?utf-8?q?J=C3=BCrgen?= <j@x.de>',
             '=?iso-8859-1?q?J=FCrgen?= <j@x.de>', '=?nope?q?x?= <y@z>', '=?utf-8?b?////?= <a@b>', ' <a@b>', ',,,',
             'Jürgen <j@x.de>', '"' * 9, 'a' * 300 + '@x', 'group: a@b, c@d;', 'No Name Here', 'x@' + 'y.' * 50,
             '=?utf-8?q?=ED=A0=80?= <s@x>', '\\', '<<a@b>>', 'a@[127.0.0.1]', '"unterminated <a@b>']
SUBJECTS = ['hello world', '', 'Re: Re: FW: x', '=?utf-8?q?caf=C3=A9?=', '=?iso-8859-1?b?6Q==?=', '=?x?y?z?=',
            '=?utf-8?q?bad=ZZ?=', '=?utf-8?b?%%%?=', 'FREE!!! $$$ 100%', 'tab\there', '\xe9\xe8', '=?utf-7?q?+AGE-?=',
            '=?nope?q?x?=', '=?utf-8?q?a?= =?iso-8859-1?q?=E9?=', '=?', '?=', 'x' * 500, '=?utf-16?b?/////w==?=',
            '=?ascii?q?=FF?=', 'a=?utf-8?q?b?=c', '=?utf-8*en?q?x?=', '=?idna?q?=FF?=', '=?undefined?q?x?=',
            '=?unicode_escape?q?=5Cud800?=', '=?hex?q?00?=', '=?utf-8?q?=0A=0D=00?=', '日本']
RECEIVED = ['from x.example.com (x.example.com [10.1.2.3]) by mx.example.org with SMTP; Mon, 1 Jan 2001 00:00:00 +0000',
            'from [1.2.3.4] by y', 'by z', '', 'from unknown (HELO a) (999.1.2.3) by b', 'from a (b [::1]) by c',
            'from localhost (localhost [127.0.0.1])', '[[[', 'from ' + 'a.' * 100 + ' by x', 'from a\n\tby b',
            'from a.b.c.d.e.f (Jim) by g.h.i; nonsense', 'from x ([256.256.256.256])']
NAMES = ['file.txt', 'a.exe', 'x.tar.gz', '=?utf-8?q?=C3=A9.exe?=', 'ü.doc', '', '..', '/', 'C:\\x\\y.z', 'a' * 300,
         'x;y', '"', "utf-8''%e9", 'a\tb', 'x.', '.x']


def readable(data, write=False):
    """Whether the email package can read (and write) the message."""
    try:
        m = email.message_from_bytes(data) if isinstance(data, bytes) else email.message_from_string(data)
        for p in m.walk():
            for v in p.values():
                str(v)
        if write:
            m.as_bytes()
        return True
    except (RecursionError, Exception):
        return False


def text(rng, n=None):
    """Words and odd things."""
    parts = []
    for _ in range(rng.randrange(1, 30) if n is None else n):
        r = rng.random()
        if r < .6:
            parts.append(rng.choice(WORDS))
        elif r < .7:
            parts.append(rng.choice(['http', 'https', 'ftp', 'HTTP', 'mailto', 'www', 'telnet']) +
                         rng.choice(['://', ':', '.', ':/', '//']) + rng.choice(HOSTS) +
                         rng.choice(['', '/', '/a/b?c=d#e', '/%7Ex', '/%', '/x.', '/x,', '/"', '/' + 'y' * 100,
                                     '?q', '/&amp;x', ':80/', '/a;b']))
        elif r < .85:
            t = rng.choice(HTML)
            parts.append(t % rng.choice(HOSTS) if '%s' in t else t)
        elif r < .9:
            parts.append(rng.choice(['x', 'ab', 'é', '-', '1', '$', 'A']) * rng.choice([1, 2, 3, 12, 13, 40, 90]))
        elif r < .95:
            parts.append(rng.choice(['a@example.com', 'x@y@z', '@', 'very.long.local.part@' + 'sub.' * 9 + 'com',
                                     'é@ü.example', '1,234.56', "don't", '...', '10.0.0.1', '$$$', '\x0b', '\x0c',
                                     '\x1c', '\x85', '\xa0', '\u2028', '\ufeff', '\x00', '\x7f', '\u202e']))
        else:
            parts.append('\n')
        parts.append(rng.choice([' ', ' ', ' ', '\n', '  ', '\t', '']))
    return ''.join(parts)


def uuencoded(rng, data):
    lines = [b'begin %o %s' % (rng.choice([0o644, 0o755, 0, 0o7777]),
                               rng.choice([b'x.exe', b'a b.zip', b'', b'\xff', b'n' * 99, b'=?x?='])) ]
    for i in range(0, len(data), 45):
        lines.append(binascii.b2a_uu(data[i:i + 45]).rstrip(b'\n'))
    if rng.random() < .8:
        lines += [b'`', b'end']
    return b'\n'.join(lines) + b'\n'


def to_charset(s, rng, charset):
    try:
        return s.encode(charset, 'replace')
    except (LookupError, UnicodeError, ValueError, TypeError):
        return s.encode(rng.choice(['utf-8', 'latin-1']), 'replace')


def header(rng, name, value):
    if isinstance(value, str):
        value = value.encode(rng.choice(['utf-8', 'utf-8', 'latin-1']), 'replace')
    if rng.random() < .05:
        name = rng.choice([name.upper(), name.lower(), ' ' + name, name + ' ', name[:-1], ''])
    sep = rng.choice([b': ', b': ', b': ', b': ', b':', b':\t', b' : ', b':\n ', b''])
    if rng.random() < .05:
        value = value.replace(b' ', b'\n ' if rng.random() < .7 else b'\n', 1)
    return name.encode() + sep + value + b'\n'


def quote(rng, value):
    return rng.choice(['"%s"', '"%s"', '%s', '"%s', "'%s'"]) % value


def part(rng, depth=0):
    """Content headers and body of one entity."""
    ctype = rng.choice(TYPES[:2] * 6 + TYPES)
    charset = rng.choice(['utf-8', 'us-ascii', 'iso-8859-1'] * 4 + CHARSETS)
    encoding = rng.choice(['7bit', '8bit', 'base64', 'quoted-printable'] * 3 + ENCODINGS)
    lines = b''
    boundary = None
    multi = ctype.lower().startswith('multipart') or ctype.startswith('message')
    if (multi or rng.random() < .3) and depth < 4 and rng.random() < .8:
        if not multi:
            ctype = 'multipart/mixed'
        boundary = rng.choice(['b%d' % depth, 'b', '=_' + 'x' * 20, 'a b', '', 'é', "b'", 'b' * 80, '--'])
    if rng.random() < .9:
        value = ctype
        if boundary is not None:
            value += rng.choice(['; ', ';', ';\n\t']) + 'boundary=' + quote(rng, boundary)
        if rng.random() < .7:
            value += '; charset=' + quote(rng, charset)
        if rng.random() < .2:
            value += '; ' + rng.choice(['name=', 'name*=', 'name*0=', 'NAME =']) + quote(rng, rng.choice(NAMES))
        if rng.random() < .04:
            n = rng.choice(['name', 'charset', 'type', 'filename', 'boundary'])
            for _ in range(rng.randint(1, 4)):
                value += '; %s%s=%s' % (n, rng.choice(['', '*', '*0', '*0*', '*1', '*1*', '*9*', '*x', '**']),
                                        rng.choice(['x', "utf-8''%41", "''", "'", 'us-ascii', '%', '"y"', "x'y'%ff"]))
        if rng.random() < .1:
            value += rng.choice([';', '; format=flowed', '; =', '; x', ';;;', '; charset=x; charset=y', '\0'])
        lines += header(rng, 'Content-Type', value)
    if rng.random() < .5:
        lines += header(rng, 'Content-Transfer-Encoding', encoding)
    if rng.random() < .2:
        lines += header(rng, 'Content-Disposition', rng.choice(['attachment', 'inline', '', 'x']) + '; filename' +
                        rng.choice(['=', '*=', '*0*=']) + quote(rng, rng.choice(NAMES)))
    if rng.random() < .02:
        lines += header(rng, 'Content-Disposition', 'attachment; filename%s=a; filename%s=b' % (
            rng.choice(['', '*', '*0', '*0*']), rng.choice(['', '*', '*0*', '*1', '*2*'])))
    if rng.random() < .05:
        lines += header(rng, 'Content-ID', '<x@y>')
    if boundary is not None:
        body = b'preamble\n' if rng.random() < .3 else b''
        b = boundary.encode('utf-8')
        for _ in range(rng.randrange(0, 4)):
            h, p = part(rng, depth + 1)
            if rng.random() < .95:
                body += b'--' + b + b'\n'
            body += h + (b'\n' if rng.random() < .95 else b'') + p + b'\n'
        if rng.random() < .8:
            body += b'--' + b + b'--\n'
        return lines, body
    if ctype == 'message/rfc822' and depth < 4:
        return lines, message(rng, depth + 1)
    data = to_charset(text(rng), rng, charset)
    if rng.random() < .1:
        data = rng.randbytes(rng.randrange(200))
    if rng.random() < .07:
        data += b'\n' + uuencoded(rng, rng.randbytes(rng.randrange(120)))
    kind = encoding.lower().strip()
    if rng.random() < .9:
        if kind == 'base64':
            data = base64.encodebytes(data)
            if rng.random() < .15:
                data = data[:rng.randrange(len(data) + 1)] + rng.choice([b'', b'%%', b'====', b'\nfooter text\n', b'\xff'])
        elif kind == 'quoted-printable':
            data = quopri.encodestring(data)
            if rng.random() < .1:
                data += rng.choice([b'=', b'=4', b'=ZZ', b'=\n', b'==='])
        elif kind in ('uuencode', 'x-uue', 'x-uuencode'):
            data = uuencoded(rng, data)
    return lines, data


def top_headers(rng):
    result = []
    def add(name, values, p, most=1):
        if rng.random() < p:
            for _ in range(rng.randint(1, most)):
                result.append(header(rng, name, rng.choice(values)))
    add('From', ADDRESSES, .9)
    add('To', ADDRESSES, .8, 2)
    add('Cc', ADDRESSES, .3)
    add('Sender', ADDRESSES, .2)
    add('Reply-To', ADDRESSES, .3)
    add('Subject', SUBJECTS, .8)
    add('Received', RECEIVED, .5, 4)
    add('Message-ID', ['<1@example.com>', '', 'x', '<@>', '<a@b', '<\xe9@x>', '<a@b@c>', '<' + 'x' * 200 + '@y>'], .6)
    add('Date', ['Mon, 1 Jan 2001 00:00:00 +0000', 'never', '', 'Tue, 99 Foo 1 1:1:1'], .6)
    add('X-Mailer', ['Mozilla 4.7', '', '\xff', 'The Bat!'], .3)
    add('MIME-Version', ['1.0', '', '(x)1.0'], .6)
    add('List-Id', ['<list.example.com>'], .1)
    add('X-Spambayes-Classification', ['spam', 'ham; 0.1'], .05)
    add('X-Spambayes-MailId', ['1', '\xe9', ''], .05)
    add('In-Reply-To', ['<a@b>', 'x'], .1)
    add('Precedence', ['bulk', 'list'], .1)
    add('Mime-Version', ['1.0'], .05)
    add('X-Odd\x00', ['y'], .02)
    add('Organization', ['ACME', '\xe9'], .1)
    add('X-Loop', ['1', 'a b', 'x' * 70], .02, 120)
    if rng.random() < .2:
        rng.shuffle(result)
    return result


def message(rng, depth=0):
    """The bytes of one message, mostly well formed."""
    head = top_headers(rng)
    h, body = part(rng, depth)
    data = b''.join(head) + h + b'\n' + body
    if depth == 0 and rng.random() < .1:
        data = b'From nobody Mon Jan 1 00:00:00 2001\n' + data
    return data


def mangle(rng, data):
    """Damages a message."""
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        i = rng.randrange(len(data) + 1)
        j = min(len(data), i + rng.randrange(1, 40))
        if r < .15:
            data = data[:i]
        elif r < .3:
            data = data[:i] + data[j:]
        elif r < .45:
            data = data[:i] + rng.randbytes(rng.randrange(1, 8)) + data[j:]
        elif r < .55:
            data = data[:j] + data[i:]
        elif r < .65:
            data = data.replace(b'\n', rng.choice([b'\r\n', b'\r', b'\n\n', b'\n ']))
        elif r < .75:
            k = rng.randrange(len(data) + 1)
            data = data[:i] + data[k:k + 100] + data[i:]
        elif r < .85:
            data = data[:i] + rng.choice([b'\0', b'\xff', b'\n\n', b'=', b'&#', b'<', b'=?', b'\r', b'"', b';', b'--b\n',
                                          b'\x80', b'\xed\xa0\x80', b'%', b'\xc2\x85', b':', b'\x1c', b'begin 644 x\n']) + data[i:]
        else:
            data = bytes(b ^ (1 << rng.randrange(8)) if rng.random() < .01 else b for b in data)
    return data


def hostile(rng):
    r = rng.random()
    if r < .45:
        return message(rng)
    if r < .9:
        return mangle(rng, message(rng))
    return rng.randbytes(rng.choice([0, 1, 2, 10, 100, 1000]))


def plain(rng, subject=None, words=None):
    """A simple well-formed message with plain text."""
    n = rng.randrange(1, 12) if words is None else words
    body = ' '.join(rng.choice(WORDS[:20]) + rng.choice(['', '', str(rng.randrange(30))]) for _ in range(n))
    subject = subject if subject is not None else ' '.join(rng.choice(WORDS[:20]) for _ in range(3))
    return ('From: %s@example.com\nTo: you@example.org\nSubject: %s\nMessage-ID: <%d@x>\n\n%s\n'
            % (rng.choice(WORDS[:20]), subject, rng.randrange(10**6), body)).encode()


BUILT_TYPES = ['text/plain', 'text/html', 'application/octet-stream', 'image/gif', 'multipart/mixed', 'multipart/alternative',
               'message/rfc822', 'text/plain; charset=utf-8', 'text/plain; charset=x', 'x', '', 'text/html; charset=us-ascii']


def built(rng, cls, depth=3):
    """A message put together by a program instead of read: without payload, with text or bytes as
    it, parts under any type, header values of any kind."""
    import email.header
    import email.message
    header = email.header.Header
    m = rng.choice([cls, cls, email.message.Message])()
    for _ in range(rng.randrange(6)):
        k = rng.choice(['Subject', 'To', 'From', 'Cc', 'Date', 'Received', 'X-Mailer', 'Message-Id', 'Reply-To',
                        'Errors-To', 'Content-Disposition', 'List-Id', 'X-Other'])
        m[k] = rng.choice([lambda: 'plain words here', lambda: 'ünïcode wörds', lambda: header('übung macht', 'utf-8'),
                           lambda: header('x ' * 80), lambda: 'a@b.example, "C D" <c@d.example>',
                           lambda: '\udce4\udcff raw', lambda: '', lambda: header('\udce4x', 'unknown-8bit')])()
    if rng.random() < .8:
        m['Content-Type'] = rng.choice(BUILT_TYPES)
    if rng.random() < .5:
        m['Content-Transfer-Encoding'] = rng.choice(['7bit', '8bit', 'base64', 'quoted-printable', 'x-uuencode', 'odd', ''])
    r = rng.random()
    if r < .2:
        payload = None
    elif r < .55 or not depth:
        payload = rng.choice(['', 'hello there world', 'http://a.example/b.c?d=e <b>x</b> &#97;&nbsp;', 'ünï \u4e2d text',
                              'YWJjZGVm\nYWJj=\nfoo bar baz', 'begin 644 x.exe\nabc\nend\n', 'raw \udce4\udcfc bytes',
                              '=41=42=zz'])
    elif r < .65:
        payload = rng.choice([b'bytes here', 'ünï'.encode(), b'\xff\xfe'])
    else:
        payload = [built(rng, cls, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    try:
        m.set_payload(payload, *rng.choice([(), (), ('utf-8',), ('us-ascii',)]))
    except Exception:
        m.set_payload(payload)
    return m
