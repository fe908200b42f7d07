"""Texts built together with the tokens they must yield.

An element is (source, what the reader sees, other tokens); elements follow
each other directly, so what is seen is split into words only where it has
white space.
"""
import base64
import binascii
import quopri
from fractions import Fraction

LOW = 'abcdefghijklmnopqrstuvwxyz'
# Words of hidden text are recognisable by this beginning, which no visible word has.
HIDE = 'zqx'
SEPARATORS = ['&nbsp;', '&NBSP;', '<br>', '<p>', '<BR>', '<P>', '<Br>', '\n', ' ', '\t', '  \n', '\n\n', '\x0c', '\n\x0b']
# Angle brackets that open no tag.
ANGLES = [' < ', ' <\n', ' << ', ' <> ', ' > ', ' >> ', ' <\t', ' a < b and c > d ', ' <&nbsp;', ' <&nbsp;b &nbsp;> ', ' <<< ', ' -> ', ' <\x0c']


def word(rng, most=16, charset='ascii'):
    n = rng.choice([1, 2, 3, 3, 4, 5, 6, 8, 11, 12, 12, 13, most])
    letters = LOW + LOW.upper() + '0123456789'
    if charset == 'utf-8':
        letters += 'éßÜñ日本я'
    elif charset == 'latin-1':
        letters += 'éßÜñ'
    w = ''.join(rng.choice(letters) for _ in range(n))
    r = rng.random()
    if r < .1:
        w = rng.choice(["don't", '$100', '50%', 'e-mail', 'a_b_c', '1,234.56', '(hello)', 'wow!!!', 'x=y', 'C++', '...', '--',
                        '#1', 'a/b/c', '"quoted"', 'semi;colon', "it's", 'end', 'a.b.c', 'AT&T', 'x&y', '&amp', 'http:/x',
                        'www.example', 'begin.', '{}', '[x]', '*H*', '100%', 'nbsp;', '&nbsp', '&lt;', '&#x41;',
                        '#65;', '&#;', '&#65', '&nbs;', '&br;', '&bsp;'])
    if w.lower().startswith(HIDE):
        w = 'a' + w
    return w


def hidden(rng, n=4, extra=()):
    """Text with words that must not become tokens."""
    out = []
    for _ in range(rng.randint(0, n)):
        out.append(HIDE + ''.join(rng.choice(LOW) for _ in range(rng.randint(1, 8))))
        out.append(rng.choice([' ', '\n', ' = ', ', ', '\t'] + list(extra)))
    return ''.join(out)


def entity(rng, s, charset):
    """Some characters as numeric entities."""
    out = []
    for c in s:
        if (c.isalnum() and (c.isascii() or charset == 'utf-8')) and rng.random() < .5:
            out.append('&#%s%d;' % ('0' * rng.choice([0, 0, 0, 0, 1, 1, 2, 3, 7]), ord(c)))
        else:
            out.append(c)
    return ''.join(out)


def tag(rng):
    name = rng.choice(['b', 'i', 'font', '/font', '/b', 'a', 'td', 'x', 'b/', '!doctype', '?xml', 'h1', 'span', 'HR', '/P', 'br/',
                       'o:p', 'strong', 'u', '$FS', '%', '"', 'pre'])
    attrs = hidden(rng, 4, ['="', '" ', "='", "' ", '=#', '=', ' < '])
    if len(attrs) > 200:
        attrs = attrs[:200]
    if rng.random() < .08:
        # As long as a tag may be.
        attrs = (attrs.replace('\n', ' ') + ' ' + (HIDE + 'a') * 80)[:256 - len(name) - 1].ljust(256 - len(name) - 1, 'q')
    return '<%s%s>' % (name, ' ' + attrs if attrs else '')


def almost(rng, closing):
    """Text that resembles the end of a section, but is not."""
    while True:
        i = rng.randrange(len(closing))
        s = rng.choice([closing[:i] + closing[i + 1:], closing[:i] + closing[i] + closing[i:], closing[:i] + 'x' + closing[i:]])
        if closing not in ''.join(s.split()):
            return s


def comment(rng):
    if rng.random() < .25:
        return rng.choice(['<comment>%s</comment>', '<COMMENT x=y>%s</Comment>', '< comment >%s</comment>']) % hidden(rng, 8, ['/comment>', '</comments>', '->', '-- >', almost(rng, '</comment>'), almost(rng, '-->')])
    body = hidden(rng, 9, ['<b>', ' > ', '-', '--', '<', '</', '<style> %s </style>' % hidden(rng, 3), '<noframes>', '</comment',
                           '->', '-- >', '/comment>', '</comments>', '<comment>', '- ->', almost(rng, '-->'), almost(rng, '</comment>')])
    return '<!--%s%s-->' % (rng.choice(['', ' ', '[if', 'x']), body.replace('-->', '->') + rng.choice(['', ' ', 'x']))


def style(rng):
    body = hidden(rng, 9, ['<b>', ' > ', '{', '}', '<!--', '-->', '<!-- %s -->' % hidden(rng, 3), '<', '<noframes>', '</noframes>',
                           '/style>', '</styles>', '<styles>', '</my style>', almost(rng, '</style>')])
    return rng.choice(['<style>%s</style>', '<STYLE type="text/css">%s</style>', '< style\n>%s</STYLE>',
                       '<style zqxa>%s</Style>']) % body


def noframes(rng):
    body = hidden(rng, 9, ['<b>', ' > ', '<br>', '<!-- %s -->' % hidden(rng, 3), '<style>%s</style>' % hidden(rng, 3), '&nbsp;',
                           '/noframes>', '</noframe>', '<noframes/>', '</no frames>', 'noframes>', '</noframesx>', almost(rng, '</noframes>')])
    return rng.choice(['<noframes>%s</noframes>', '<NOFRAMES>%s</NoFrames >', '< noframes >%s</noframes>']) % body


def hide(rng):
    return rng.choice([tag, tag, tag, comment, style, noframes])(rng)


SEP = set(b';?:@&=+,$.')


def split_bytes(b, seps):
    out, piece = [], bytearray()
    for c in b:
        if c in seps:
            out.append(bytes(piece))
            piece = bytearray()
        else:
            piece.append(c)
    return out + [bytes(piece)]


def url_tokens(proto, rest):
    rest = rest.lower()
    while rest and rest[-1] in b'.:?!/':
        rest = rest[:-1]
    return {b'proto:' + proto.lower()} | {b'url:' + c for p in rest.split(b'/') for c in split_bytes(p, SEP)}


def url(rng):
    proto = rng.choice(['http', 'https', 'ftp', 'HTTP', 'Https', 'FTP'])
    n = rng.randint(1, 5)
    pieces = []
    for _ in range(n):
        pieces.append(''.join(rng.choice(LOW + 'ABC0123456789-_~%') for _ in range(rng.randint(1, 9))))
        pieces.append(rng.choice(list('///...?=&:@;+,$#()|*!')))
    rest = ''.join(pieces[:-1])
    rest += rng.choice(['', '', '', '.', '/', '?', '!', ':', '...', '/.', '?!', ',', ')', '/index.html', '//', ':80/'])
    return proto + '://' + rest, url_tokens(proto.encode(), rest.encode())


def filename_tokens(name):
    out = {b'fname:' + name}
    parts = split_bytes(name, set(b'/\\:'))
    for p in parts:
        if len(parts) > 1:
            out.add(b'fname comp:' + p)
        pieces = split_bytes(p, SEP)
        if len(pieces) > 1:
            out |= {b'fname piece:' + x for x in pieces}
    return out


FILES = ['a.exe', 'photo.jpg.scr', 'README', 'C:\\x\\y.doc', '/tmp/a.b.c', 'x:y', 'A=B&C.zip', '...', 'é.gif', 'a+b,c;d', '/', 'X']


def uu(rng, charset, closed=True):
    mode = rng.choice(['644', '755', '0644', 'abc', '7', '-rw'])
    name = rng.choice([f for f in FILES if charset != 'ascii' or f.isascii()])
    lines = ['begin%s%s%s%s' % (rng.choice([' ', '  ', '\t']), mode, rng.choice([' ', ' \t']), name + rng.choice(['', ' ']))]
    if closed:
        data = rng.randbytes(rng.randrange(0, 150))
        for i in range(0, len(data), 45):
            lines.append(binascii.b2a_uu(data[i:i + 45]).decode().rstrip('\n'))
        if rng.random() < .3:
            lines.insert(1, HIDE + 'inside ' + HIDE + 'too')
        lines += ['`', 'end' + rng.choice(['', ' ', '\t'])]
    encoded = name.encode('latin-1' if charset == 'latin-1' else 'utf-8')
    return lines, {b'uuencode mode:' + mode.encode()} | {b'uuencode:' + t for t in filename_tokens(encoded.lower())}


def address(rng):
    local = ''.join(rng.choice(LOW + '.-_+') for _ in range(rng.randint(1, 16)))
    domain = '.'.join(''.join(rng.choice(LOW + '-') for _ in range(rng.randint(1, 8))) for _ in range(rng.randint(1, 4)))
    if rng.random() < .06:
        # One of the two is missing.
        local, domain = rng.choice([('', domain + '.' + domain), (local + '.', '')])
    a = local + '@' + domain
    if rng.random() < .15:
        a += '@' + domain
    if rng.random() < .15:
        a += '.' + 'x' * rng.randrange(40)
    return a.upper() if rng.random() < .1 else a


def long_word(rng, charset):
    letters = LOW + '0123456789-_.,/$#'
    if charset != 'ascii':
        letters += 'éüß' * 5 if charset == 'latin-1' else 'éü日я' * 4
    n = rng.choice([13, 14, 19, 20, 21, 29, 30, 39, 40, 41, 99, 100, 250, rng.randrange(13, 60)])
    w = ''.join(rng.choice(letters) for _ in range(n))
    return ('a' + w if w.lower().startswith(HIDE) else w)


def word_tokens(w):
    """The tokens of one word of the text, in lower case."""
    n = len(w)
    if n < 3:
        return set()
    if n <= 12:
        return {w}
    if n < 40 and w.count(b'@') == 1 and b'.' in w:
        a, b = w.split(b'@')
        return {b'email name:' + a, b'email addr:' + b}
    out = {b'skip:' + w[:1] + b' %d' % (n - n % 10)}
    high = sum(c > 127 for c in w)
    if high:
        out.add(b'8bit%%:%d' % round(Fraction(100 * high, n)))
    return out


def virus(rng):
    """(source, what the reader sees, clue): a mark that viruses use, or one that only resembles it."""
    k = rng.randrange(4)
    if k == 0:
        mark = rng.choice(['<', '</', '<', '</', '< ', '</ ', '<\n', '< \t']) + rng.choice(['script', 'iframe'])
        rest = rng.choice(['', ' ' + hidden(rng, 2), '\n', ' x=y'])
        clue, fake = mark, ['<' + HIDE + 'script', '<scripts', '</iframes', '<noscript', '<iframe_', '<script1']
    elif k == 1:
        mark = 'src=' + rng.choice(['', '"', "'"]) + 'cid:'
        rest = hidden(rng, 1).strip().replace('=', '')
        clue, fake = mark, [HIDE + 'src=cid:', 'src =cid:', 'src= cid:', 'src=""cid:', 'src=cid', '_src=cid:']
    else:
        mark = rng.choice(['height=', 'width=']) + rng.choice(['', '"', "'"]) + '0'
        rest = rng.choice(['', '0', '%', '1', 'px'])
        clue, fake = mark, ['height=1', HIDE + 'width=0', 'width =0', 'height= 0', 'heights=0', 'width=%0']
    if rng.random() < .25:
        mark, clue = rng.choice(fake), None
    source = ''.join(c.upper() if rng.random() < .2 else c for c in mark)
    if k == 0:
        source += rest + '>'
        seen = '' if not source[1].isspace() else source
    elif rng.random() < .5:
        source, seen = '<img %s%s>' % (source, rest), ''
    else:
        seen = source = source + rest.replace(HIDE, '')
    if clue is not None and not clue[1:2].isspace() and rng.random() < .3:
        i = rng.choice([i for i, c in enumerate(source) if c.isalnum() and i < source.lower().index(clue) + len(clue)])
        source = source[:i] + '&#%d;' % ord(source[i]) + source[i + 1:]
    return source, seen, set() if clue is None else {b'virus:' + ' '.join(clue.split()).encode()}


def text(rng, charset='utf-8', html=True, special=False, n=None):
    """(source text, expected set of body tokens, what the reader sees).

    With html, words are disguised by tags, comments, sections and entities;
    with special, there are long words, addresses, URLs and uuencoded files.
    """
    codec = {'ascii': 'ascii', 'latin-1': 'latin-1', 'utf-8': 'utf-8'}[charset]
    source, seen, tokens = [], [], set()

    def put(s, v=None):
        source.append(s)
        seen.append(s if v is None else v)

    if n is None:
        # Now and then a long text.
        n = rng.randint(0, 24) if rng.random() < .99 else rng.choice([150, 600, 2500])
    for _ in range(n):
        r = rng.random()
        if special and r < .12:
            put(address(rng))
        elif special and r < .3:
            put(long_word(rng, charset))
        elif special and r < .5:
            u, t = url(rng)
            opener = rng.choice(['', '', '(', '"', '<', '= ', "'"])
            if opener == '"' or opener == "'":
                put(opener)
                put(u, '')
                put(opener)
            elif opener == '<' and html:
                put('<a href="%s" %s>' % (u, hidden(rng, 2)), '')
            elif opener == '<':
                put('')
                put(u, '')
            else:
                put(opener)
                put(u, '')
            tokens |= t
            source.append('\n')
            seen.append('\n')
            continue
        elif special and r < .56:
            lines, t = uu(rng, charset)
            source.append('\n' + '\n'.join(lines) + '\n')
            seen.append('\n')
            tokens |= t
            if rng.random() < .5:
                continue
            put(word(rng, charset=charset))
        elif special and r < .62:
            put(' ')
            mark, v, t = virus(rng)
            put(mark, v)
            tokens |= t
        elif html and r < .85:
            w = word(rng, charset=charset)
            k = rng.randrange(5)
            if k == 0:
                put(entity(rng, w, charset), w)
            elif k == 1:
                for i, c in enumerate(w):
                    put(c)
                    if i < len(w) - 1 and rng.random() < .35:
                        put(hide(rng), '')
            elif k == 2:
                put(hide(rng), '')
                put(w)
                put(hide(rng), '')
            elif k == 3:
                put(w)
                put(rng.choice(SEPARATORS), ' ')
                put(word(rng, charset=charset))
            else:
                put(hide(rng), '')
                put(rng.choice([' ', '\n', '']))
                put(w)
        else:
            put(word(rng, charset=charset))
            if rng.random() < .15:
                angle = rng.choice(ANGLES)
                put(angle, angle.replace('&nbsp;', ' '))
                put(word(rng, charset=charset))
        put(rng.choice(SEPARATORS[:7] if html and rng.random() < .3 else [' ', ' ', '\n', '\t', '  ', '\x0c' if rng.random() < .3 else ' ']), ' ')
    if html and rng.random() < .1:
        # A section that is never closed hides nothing.
        opener, left = rng.choice([('<!-- ', '<!-- '), ('<style>', ''), ('<noframes>', ''), ('<comment>', '')])
        put(opener, left)
        for _ in range(rng.randint(1, 5)):
            put(word(rng, charset=charset).replace('<', '').replace('>', ''))
            put(' ')
    elif special and rng.random() < .1:
        lines, t = uu(rng, charset, closed=False)
        put('\n' + lines[0] + '\n')
        for _ in range(rng.randint(1, 5)):
            put(word(rng, charset=charset).replace('begin', 'begun').replace('end', 'And'))
            put('\n')
        tokens |= t
    src, vis = ''.join(source), ''.join(seen)
    for w in vis.encode(codec).split():
        tokens |= word_tokens(w.lower())
    return src, tokens, vis


def ascii_lower(b):
    return b.lower()


def encode(rng, data, how):
    if how == 'base64':
        return base64.encodebytes(data)
    if how == 'quoted-printable':
        return quopri.encodestring(data)
    return data
