"""Well-formed messages, built together with what they mean."""
import base64
import quopri
import random

from mon import mail

TEXT_CHARSETS = ['us-ascii', 'utf-8', 'iso-8859-1', 'windows-1252', 'koi8-r', 'iso-8859-15']
LETTERS = {'us-ascii': 'abcXYZ019', 'utf-8': 'abcéßÜ日本я', 'iso-8859-1': 'abcéßÜñ', 'windows-1252': 'abcé\u20ac\u201c',
           'koi8-r': 'abcпривет', 'iso-8859-15': 'abcé\u20acŒ'}


class Leaf:

    def __init__(self, ctype, charset, content, cte):
        self.ctype, self.charset, self.content, self.cte = ctype, charset, content, cte

    @property
    def data(self):
        return self.content if isinstance(self.content, bytes) else self.content.encode(self.charset)

    def encoded(self):
        if self.cte == 'base64':
            return base64.encodebytes(self.data)
        if self.cte == 'quoted-printable':
            return quopri.encodestring(self.data)
        return self.data


class Multi:

    def __init__(self, ctype, boundary, children, preamble=b'', epilogue=b''):
        self.ctype, self.boundary, self.children = ctype, boundary, children
        self.preamble, self.epilogue = preamble, epilogue


class Inner:
    """A message within a message."""

    def __init__(self, headers, body):
        self.headers, self.body = headers, body


def line(rng, charset):
    letters = LETTERS[charset]
    words = []
    for _ in range(rng.randint(0, 9)):
        if rng.random() < .6:
            words.append(rng.choice(mail.WORDS[:20]))
        else:
            words.append(''.join(rng.choice(letters) for _ in range(rng.randint(1, 14))))
    s = ' '.join(words)
    if rng.random() < .05:
        s = rng.choice(['>quoted ' + s, '. ' + s, s + ' ', s + '\t', '=' + s, s + '=20', '\t' + s, 'Subject: ' + s, '- ' + s, '.'])
    return s


def text_leaf(rng, from_lines=False):
    charset = rng.choice(TEXT_CHARSETS)
    lines = [line(rng, charset) for _ in range(rng.randint(0, 8) if rng.random() < .99 else rng.choice([100, 2000]))]
    if from_lines and rng.random() < .3:
        lines.insert(rng.randrange(len(lines) + 1), 'From here on')
    content = '\n'.join(lines) + ('\n' if lines and rng.random() < .9 else '')
    cte = rng.choice(['base64', 'quoted-printable', '8bit'] if not content.isascii() else
                     ['7bit', None, 'base64', 'quoted-printable', '8bit'])
    return Leaf('text/' + rng.choice(['plain', 'plain', 'html', 'x-y']), charset, content, cte)


def binary_leaf(rng):
    return Leaf(rng.choice(['application/octet-stream', 'image/png', 'application/x-zip']), None,
                rng.randbytes(rng.randrange(0, 120) if rng.random() < .98 else rng.choice([5000, 100000])), 'base64')


def body(rng, depth=0, from_lines=False):
    r = rng.random()
    if depth >= 4 or r < .5:
        return text_leaf(rng, from_lines) if rng.random() < .75 else binary_leaf(rng)
    if r < .9:
        boundary = rng.choice(['b%d' % depth, '=_%d_x' % depth, 'a b%d' % depth, "b'%d" % depth, 'B' * 60 + str(depth)])
        children = [body(rng, depth + 1, from_lines) for _ in range(rng.randint(1, 4) if rng.random() < .98 or depth > 1 else rng.randint(10, 40))]
        return Multi('multipart/' + rng.choice(['mixed', 'alternative', 'related', 'signed']), boundary, children,
                     rng.choice([b'', b'', b'This is MIME.\n']), rng.choice([b'', b'', b'bye\n']))
    return Inner(headers(rng), body(rng, depth + 1, from_lines))


def headers(rng):
    """Header lines of a well-formed message, 7-bit, without line ends."""
    def words(n):
        return ' '.join(rng.choice(mail.WORDS[:20]) for _ in range(rng.randint(1, n)))
    result = [('From', rng.choice(['a@example.com', 'Bob <bob@example.com>', '"Q, u" <q@x.org>'])),
              ('To', ', '.join('p%d@example.org' % i for i in range(rng.randint(1, 9)))),
              ('Subject', rng.choice([words(4), words(40), '=?utf-8?q?caf=C3=A9?= ' + words(3), ''])),
              ('Date', 'Mon, 1 Jan 2001 00:00:00 +0000'),
              ('Message-ID', '<%d@example.com>' % rng.randrange(10**9))]
    for _ in range(rng.choice([0, 0, 1, 3]) if rng.random() < .98 else rng.choice([40, 150])):
        result.append(rng.choice([
            ('Received', 'from x.example.com (x.example.com [10.1.2.3])\n\tby mx.example.org with SMTP;\n\tMon, 1 Jan'),
            ('X-Odd', words(30)), ('List-Id', '<a.b>'), ('References', ' '.join('<%d@x.y>' % i for i in range(9))),
            ('X-Long', 'x' * rng.choice([50, 80, 200])), ('X-Fold', 'a\n b\n\tc'), ('x-lower', 'y')]))
    if rng.random() < .3:
        rng.shuffle(result)
    return result


def content_headers(rng, node):
    result = []
    if isinstance(node, Leaf):
        value = node.ctype
        if node.charset is not None:
            value += rng.choice(['; charset=%s', '; charset="%s"', ';\n\tcharset="%s"']) % node.charset
        if node.charset is None and rng.random() < .5:
            value += '; name="f%d.bin"' % rng.randrange(99)
        result.append(('Content-Type', value))
        if node.cte is not None:
            result.append(('Content-Transfer-Encoding', node.cte))
        if node.charset is None and rng.random() < .5:
            result.append(('Content-Disposition', 'attachment; filename="f%d.bin"' % rng.randrange(99)))
    elif isinstance(node, Multi):
        result.append(('Content-Type', node.ctype + rng.choice([';\n boundary="%s"', '; boundary="%s"']) % node.boundary))
    else:
        result.append(('Content-Type', 'message/rfc822'))
    if rng.random() < .2:
        rng.shuffle(result)
    return result


def write_headers(hs):
    return b''.join(b'%s: %s\n' % (k.encode(), v.encode()) for k, v in hs)


def write_body(rng, node, expected):
    """The bytes of the body; appends what a reader must see to expected."""
    if isinstance(node, Leaf):
        expected.append((node.ctype, node.data))
        return node.encoded()
    if isinstance(node, Multi):
        expected.append((node.ctype, len(node.children)))
        b = node.boundary.encode()
        out = node.preamble
        for child in node.children:
            hs = content_headers(rng, child)
            expected.append(hs)
            out += b'--' + b + b'\n' + write_headers(hs) + b'\n' + write_body(rng, child, expected) + b'\n'
        return out + b'--' + b + b'--\n' + node.epilogue
    expected.append(('message/rfc822', 1))
    hs = node.headers + [('MIME-Version', '1.0')] + content_headers(rng, node.body)
    expected.append(hs)
    return write_headers(hs) + b'\n' + write_body(rng, node.body, expected)


def message(rng, from_lines=False):
    """(bytes with LF line ends, expected): what each entity has, in order of
    walk(): its headers, then (type, number of parts) or (type, data)."""
    node = body(rng, 0, from_lines)
    hs = headers(rng) + [('MIME-Version', '1.0')] + content_headers(rng, node)
    expected = [hs]
    data = write_headers(hs) + b'\n' + write_body(rng, node, expected)
    return data, expected
