"""X08: the time to handle a message grows in proportion with its size."""
import gc
import time

import sbclassifier.tokenizer as T
from sbclassifier import strippers
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.message import from_bytes
from sbclassifier.tokenizer import Tokenizer, tokenize

from mon import mail

LEVEL = 'exploration'
RULE = ('Hostile repetitive messages are built at some size and at four times that size: the pieces of all that the '
        'tokenizer looks for (tags, comments, styles, frames, entities, URLs, uuencoded files, addresses, hosts, '
        'punctuation, long words, blanks), one to four in a row, repeated in a text or between a beginning and an '
        'end, in text/plain and text/html, in many parts, in many header lines, and in the headers that the '
        'tokenizer takes apart itself. The monitor measures the CPU time of tokenizing (with the default and with '
        'drawn options, and, in stream "handled", of training, scoring, untraining, adding headers, writing and '
        'removing headers): when the larger takes longer than LEAST seconds, it must not take more than RATIO times '
        'as long as the smaller (proportional: 4; quadratic: 16), the smallest of four measurements counting. Non-trivial: '
        'every measured pair; distinct by pieces and place.')
ASSUMPTIONS = ['the parsing of messages, of the parameters of Content-Type and Content-Disposition, of encoded words '
               'and of addresses is that of the email package, some of which takes quadratic time itself: they are '
               'not repeated within one header',
               'CPU time is measured, so that other processes matter little; a growth that costs less than LEAST '
               'seconds at the largest size tried (320 KB quick, 480 KB thorough) does not count']
NEED = {'measured': 800, 'with options': 150, 'html': 200, 'headers': 150, 'parts': 40, 'handled': 25}

LEAST = .6
RATIO = 8.5

PIECES = [b'a', b' ', b'\n', b'<', b'>', b'<a', b'<a ', b'<!--', b'-->', b'<style', b'<style>', b'<style ', b'</style>',
          b'< style', b'<comment', b'<comment>', b'</comment>', b'<noframes', b'<noframes>', b'</noframes>', b'</noframes',
          b'< ', b'</', b'<  ', b'&nbsp;', b'&', b'&#', b'&#1', b'&#65;', b'&#99999999999;', b'&#xa0;', b'http://', b'http://a',
          b'http://a/', b'http://a b ', b'https:', b'https://x@y:81/z ', b'ftp://', b'ftp.', b'ftp.a ', b'www.', b'www.a/b?c ',
          b'http://a.', b'http://%41', b'%41', b'%', b'http://1.2.3.4:8/ ', b'http://[', b'begin 644 a\n', b'begin ', b'begin\n',
          b'\nbegin 644 a\nM\nend\n', b'end\n', b'end ', b'\nend', b'M' * 60 + b'\n', b'src=cid:', b"src='", b'height=0',
          b'width="0 ', b'<script', b'</ script', b'<iframe ', b'<p>', b'<br>', b'<br', b'a@b ', b'a@b.c ', b'@', b'a@', b'.',
          b'a.', b'a.b ', b'\t', b'\r', b'\r\n', b'\xff', b'\xc3\xa9', b'\0', b'"', b"'", b'(', b')', b'=', b'=41', b'=\n', b'?', b';',
          b'/', b'//', b'://', b':', b'[', b']', b'1', b'1.2.3.4', b'-', b'--', b'_', b'#', b'$', b'+', b',', b'!', b'x' * 13,
          b'x' * 50, b'\xe9' * 40, b'ab cd ', b'word other ']

# Those that the email package handles in proportion, whatever the header.
HEADER_PIECES = [b'a', b' ', b'.', b'a.', b'a b ', b'-', b'_', b'1', b'1.2.', b'1.2.3.4 ', b'from ', b'from a ', b'from a.b (c) ',
                 b'(a b', b'(a b) ', b'(', b')', b'a a', b'[1.2.3.4] ', b'[1', b']', b'(1.2.3.4)', b'$', b'%', b'!', b'/', b'\n ',
                 b'\t', b'x' * 30, b'by x.y with z; ', b':', b'<', b'>', b'@', b'a@b', b'from a-b.c.d (', b'\n\t', b'by ', b'aa bb ']
HEADERS = [b'Received', b'Received', b'Received', b'Subject', b'Message-ID', b'X-Mailer', b'NNTP-Posting-Host', b'X-Habeas-SWE-1', b'Organization',
           b'X-Other', b'Date']
OPTIONS = ['MINE_RECEIVED_HEADERS', 'COUNT_ALL_HEADER_LINES', 'RECORD_HEADER_ABSENCE', 'SUMMARIZE_EMAIL_PREFIXES',
           'SUMMARIZE_EMAIL_SUFFIXES', 'X_SHORT_RUNS', 'CHECK_OCTETS', 'IMAGE_SIZE', 'X_SEARCH_FOR_HABEAS_HEADERS',
           'REPLACE_NONASCII_CHARS', 'X_REDUCE_HABEAS_HEADERS']


def seconds(function):
    start = time.process_time()
    function()
    return time.process_time() - start


def measure(case, build, run, size):
    """Compares the time for size and four times size."""
    small, large = build(size // 4), build(size)
    gc.collect()
    t = seconds(lambda: run(large))
    case.count('measured')
    case.count('assertions')
    case.count('ms', int(t * 1000))
    if t < LEAST:
        return
    case.count('slow ones compared')
    times = []
    for _ in range(4):
        gc.collect()
        times.append((seconds(lambda: run(small)), seconds(lambda: run(large))))
        s, l = min(x[0] for x in times), min(x[1] for x in times)
        if l < LEAST or l <= RATIO * s:
            return
    case.fail('a message four times as large takes %.1f times as long' % (l / max(s, 1e-6)),
              'seconds', s, l, 'sizes', len(small), len(large))


def pattern(rng, pieces):
    return [rng.choice(pieces) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]


def fill(head, unit, tail):
    def build(n):
        return head + unit * (n // len(unit)) + tail
    return build


class Options:
    """Runs the tokenizer with options."""

    def __init__(self, rng):
        self.on = [o for o in OPTIONS if rng.random() < .5] if rng.random() < .5 else []
        self.pick = bool(self.on) and rng.random() < .6
        self.fancy = bool(self.on) and rng.random() < .6
        self.basic = bool(self.on) and rng.random() < .4

    def __call__(self, data):
        saved = {o: getattr(T, o) for o in self.on}
        pick, crack = strippers.X_PICK_APART_URLS, T.crack_urls
        try:
            for o in self.on:
                setattr(T, o, True)
            strippers.X_PICK_APART_URLS = self.pick
            if self.fancy:
                strippers.FANCY_URL_RECOGNITION = True
                T.crack_urls = strippers.URLStripper().analyze
            for _ in Tokenizer()(data(), self.basic):
                pass
        finally:
            for o, v in saved.items():
                setattr(T, o, v)
            strippers.X_PICK_APART_URLS = pick
            strippers.FANCY_URL_RECOGNITION = False
            T.crack_urls = crack


def parsed(build):
    """Messages are parsed before the time is taken."""
    def parse(n):
        data = build(n)
        m = from_bytes(data)

        class Ready:
            def __call__(self):
                return m

            def __len__(self):
                return len(data)
        return Ready()
    return parse


def size_of(case):
    return (480 if case.thorough else 320) * 1024


def text(case):
    case.cpu_limit = 40
    rng = case.rng
    kind = rng.choice([b'plain', b'html'])
    unit = pattern(rng, PIECES)
    head = pattern(rng, PIECES) if rng.random() < .4 else []
    tail = pattern(rng, PIECES) if rng.random() < .4 else []
    coding = rng.choice([b'', b'', b'', b'\nContent-Transfer-Encoding: 8bit'])
    options = Options(rng)
    case.step(kind, head, unit, tail, vars(options))
    build = fill(b'Content-Type: text/' + kind + coding + b'\n\n' + b''.join(head), b''.join(unit), b''.join(tail))
    measure(case, parsed(build), options, size_of(case))
    if options.on:
        case.count('with options')
    if kind == b'html':
        case.count('html')
    case.distinct(kind, head, unit, tail)


def header(case):
    """One long header, or many."""
    case.cpu_limit = 40
    rng = case.rng
    name = rng.choice(HEADERS)
    unit = b''.join(pattern(rng, HEADER_PIECES))
    head = b''.join(pattern(rng, HEADER_PIECES)) if rng.random() < .5 else b''
    tail = b''.join(pattern(rng, HEADER_PIECES)) if rng.random() < .5 else b''
    if name == b'Received' and rng.random() < .6:
        # The name of a host, or an address, or a remark.
        head = rng.choice([b'from ', b'from a', b'from x.', b'[', b'(a'])
        unit = rng.choice([b'a.', b'a', b'.', b'1.', b'a-', b' a', b'ab.cd.', b'x_1.', b'x' * 60 + b'.', b'1'])
        tail = rng.choice([b'', b'a (x)', b'.a )', b'b) a', b'1a) ', b'.1] '])
    options = Options(rng)
    if not options.on or name == b'Received':
        options.on = list(set(options.on) | {'MINE_RECEIVED_HEADERS'})
    shape = rng.randrange(3)
    case.step(name, head, unit, tail, shape, vars(options))
    if shape == 0:
        build = fill(name + b': x ' + head, unit, tail + b'\n\nhello\n')
    elif shape == 1:
        line = name + b': x ' + head + unit + tail + b'\n'
        build = fill(b'', line, b'\nhello\n')
    else:
        def build(n):
            return b''.join(b'%s-%d: x%s\n' % (name, i, unit) for i in range(n // (len(name) + 12 + len(unit)))) + b'\nhello\n'
    measure(case, parsed(build), options, size_of(case))
    case.count('headers')
    case.distinct(name, head, unit, tail, shape)


def parts(case):
    """Many parts."""
    case.cpu_limit = 40
    rng = case.rng
    unit = b''.join(pattern(rng, PIECES))
    kind = rng.choice([b'text/plain', b'text/html', b'image/png', b'application/octet-stream', b'message/rfc822',
                       b'text/plain; charset=utf-8; name=x.y'])
    coding = rng.choice([b'', b'\nContent-Transfer-Encoding: base64', b'\nContent-Transfer-Encoding: quoted-printable',
                         b'\nContent-Disposition: attachment; filename="a/b.c"'])
    part = b'--b_\nContent-Type: ' + kind + coding + b'\n\n' + unit * rng.choice([1, 5, 40]) + b'\n'
    options = Options(rng)
    case.step(part, vars(options))
    build = fill(b'Content-Type: multipart/mixed; boundary="b_"\n\n', part, b'--b_--\n')
    measure(case, parsed(build), options, size_of(case))
    case.count('parts')
    case.distinct(part)


def addresses(case):
    """Many recipients."""
    case.cpu_limit = 40
    rng = case.rng
    name = rng.choice([b'To', b'Cc', b'From', b'Reply-To', b'Sender'])
    unit = rng.choice([b'a@b', b'A B <a@b>', b'"x, y" <a@b.c>', b'<a@b>', b'a', b'', b'undisclosed: ;', b'(c) a@b', b'a@b@c',
                       b'x' * 50 + b'@b.c'])
    options = Options(rng)
    case.step(name, unit, vars(options))
    if rng.random() < .5:
        build = fill(name + b': z@z', b',\n ' + unit, b'\n\nhello\n')
    else:
        build = fill(b'', name + b': ' + unit + b'\n', b'\nhello\n')
    measure(case, parsed(build), options, size_of(case) // 2)
    case.count('addresses')
    case.distinct(name, unit)


def handled(case):
    """Everything that is done with a message."""
    case.cpu_limit = 40
    rng = case.rng
    distinct = rng.random() < .6
    unit = b''.join(pattern(rng, PIECES))
    bigrams = rng.random() < .4
    spam = rng.random() < .5
    evidence, note = rng.random() < .5, rng.random() < .5
    lines = rng.random() < .3
    case.step(distinct, unit, bigrams, spam, evidence, note, lines)

    def build(n):
        if lines:
            data = b''.join(b'X-%d: word%d\n' % (i, i) for i in range(n // 20)) + b'Subject: x\n\nhello\n'
        elif distinct:
            data = b'Subject: x\n\n' + b''.join(b'word%d %s' % (i, unit) for i in range(n // (len(unit) + 9)))
        else:
            data = b'Subject: x\n\n' + unit * (n // len(unit))
        return data

    def run(data):
        c = Classifier(use_bigrams=bigrams)
        m = from_bytes(data)
        m.set_id('some-id')
        c.learn(tokenize(m), spam)
        score, clues = c.spamprob(tokenize(m), True)
        m.add_sb_headers(score, clues, include_evidence=evidence, include_score=True, include_thermostat=True,
                         notate_to=['spam', 'ham', 'unsure'] if note else None,
                         notate_subject=['spam', 'ham', 'unsure'] if note else None)
        m.as_string()
        m.remove_sb_headers()
        c.unlearn(tokenize(m), spam)
    measure(case, build, run, size_of(case) // 2)
    case.count('handled')
    case.distinct(distinct, unit, bigrams)


STREAMS = [('text', 600, 12000, text), ('header', 200, 4000, header), ('parts', 60, 800, parts),
           ('addresses', 20, 300, addresses), ('handled', 40, 800, handled)]
