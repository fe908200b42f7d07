"""M04: the report of an exception is added without harming the message."""
import email
import re
import traceback
from email.header import decode_header

from sbclassifier.message import from_string, insert_exception_header

from mon import heads, mail, mime

LEVEL = 'exploration'
RULE = ('A case raises an exception (one of many kinds: nested, chained, in deep recursion, with hostile texts - '
        'line breaks of every kind, blank lines, forged headers, boundaries, encoded words, non-ASCII, control '
        'characters, very long, empty - or none at all), inserts its report in the text of a message (with LF or '
        'CRLF line ends; with headers only, empty, without headers; bodies that look like headers) with or '
        'without id, and reads the result with the standard parser: headers as before and in order, then exactly '
        'the added ones, body unchanged, the whole report in the header (white space aside), lines added ending '
        'in CRLF, and the report returned as it was. Non-trivial: the exception text has a line break or '
        'non-ASCII character; distinct by text and message.')
ASSUMPTIONS = ['the message is a text whose header lines, if any, are well formed; ids have no line break',
               'white space in the report is compared collapsed (headers are folded)']
NEED = {'inserted': 5000, 'hostile reports': 2500, 'with id': 1500, 'without body': 300, 'without headers': 200,
        'CRLF': 1500, 'repeated': 1000}

PIECES = ['\n', '\r\n', '\r', '\n\n', '\r\n\r\n', '\n \n', '\r\r', '\n\t', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85',
          '\u2028', '\u2029', 'X-Evil: yes', 'Subject: forged', 'body', '=?utf-8?q?x=0Aevil=3A_1?=', '=?x?', 'é', '日本',
          '\u20ac', '\x00', '\x7f', '--b0', 'From nobody', ' ', '  ', 'word', 'x' * 100, 'a; b, c', ':', '"', '\\n', '%s',
          '\ufeff', '\n.', 'Traceback (most recent call last):', '\ud800', '\N{GRINNING FACE}']


class Odd(Exception):

    def __str__(self):
        return self.args[0]


class Broken(Exception):

    def __str__(self):
        raise RuntimeError('no text')


def raise_it(rng, text):
    kind = rng.randrange(8)
    if kind == 0:
        raise ValueError(text)
    if kind == 1:
        raise Odd(text)
    if kind == 2:
        try:
            raise KeyError(text)
        except KeyError:
            raise Odd(text[::-1])
    if kind == 3:
        try:
            {}[text]
        except KeyError as e:
            raise RuntimeError(text) from e
    if kind == 4:
        def down(n):
            if n:
                down(n - 1)
            else:
                raise Odd(text)
        down(rng.randrange(30))
    if kind == 5:
        raise Broken()
    if kind == 6:
        e = Odd(text)
        e.add_note(text)
        raise e
    raise ExceptionGroup('group', [Odd(text), ValueError(text)])


def squeeze(s):
    return ' '.join(s.split())


def decoded(value):
    out = []
    for p, c in decode_header(value):
        out.append(p if isinstance(p, str) else p.decode(c or 'ascii', 'surrogateescape'))
    return ''.join(out)


def a_text(case):
    rng = case.rng
    data, _ = mime.message(rng)
    text = data.decode('utf-8', 'replace') if rng.random() < .7 else data.decode('latin-1')
    r = rng.random()
    head, body = text.split('\n\n', 1)
    if r < .3:
        body = rng.choice(['', '\n', 'Looks: like\n\nheaders\n', '\nx', 'x', '\n\n\n', 'a\rb\r\n\r\nc', ' x\n', '\r\n',
                           'X-Spambayes-Exception: y\n'])
    if r < .1:
        case.count('without body')
        return head + rng.choice(['', '\n', '\n\n'])
    if .1 <= r < .16:
        case.count('without headers')
        return '\n' + body
    if rng.random() < .1:
        head = 'From nobody Mon Jan 1 00:00:00 2001\n' + head
    if rng.random() < .1:
        head += '\nX-Last:' + rng.choice(['', ' ', ' x\n ', ' x\n y', '\n y'])
    return head + '\n\n' + body


def read(text):
    m = email.message_from_string(text)
    return heads.raw(m), m


def insert(case, text, id_, exception):
    rng = case.rng
    args = (text, id_) if id_ is not None or rng.random() < .5 else (text,)
    if exception is None:
        want = 'NoneType: None\n'
        result, details = insert_exception_header(*args)
    else:
        try:
            raise_it(rng, exception)
        except Exception:
            want = traceback.format_exc()
            result, details = insert_exception_header(*args)
    case.equal(details, want, 'report returned')
    before, original = read(text)
    after, m = read(result)
    case.step('text', text, 'id', id_, 'report', want, 'result', result)
    squash = [(k, heads.squeeze(v)) for k, v in after[:len(before)]]
    case.equal(squash, [(k, heads.squeeze(v)) for k, v in before], 'headers of the message')
    added = after[len(before):]
    case.equal([k for k, _ in added], ['X-Spambayes-Exception'] + ['X-Spambayes-MailId'] * bool(id_), 'added headers')
    case.equal(squeeze(decoded(added[0][1]) if '=?' not in want else added[0][1]), squeeze(want), 'report in the header')
    if id_:
        case.equal(added[1][1], id_, 'id in the header')
    body = re.split(r'\A\r?\n|\n\r?\n', text, maxsplit=1)
    body = body[1] if len(body) == 2 else ''
    got = re.split(r'\r\n\r\n', result[result.rindex('X-Spambayes-Exception:', 0, len(result) - len(body)):], maxsplit=1)
    case.check(result.endswith('\r\n\r\n' + body), 'body', result[-200:], body[-200:])
    case.equal(m._payload if not isinstance(m._payload, list) else [p.as_string() for p in m._payload],
               original._payload if not isinstance(original._payload, list) else [p.as_string() for p in original._payload],
               'payload')
    case.equal((m.preamble, m.epilogue), (original.preamble, original.epilogue), 'preamble and epilogue')
    # The added lines, from the name of the header to the blank line.
    head = result[:len(result) - len(body)] if body else result
    start = head.rindex('X-Spambayes-Exception: ') if want.count('X-Spambayes-Exception: ') == 0 else \
        head.index('X-Spambayes-Exception: ', len(re.split(r'\n\r?\n', text, maxsplit=1)[0]) - 2)
    lines = head[start:]
    case.check(re.search(r'(?<!\r)\n|\r(?!\n)', lines) is None, 'an added line does not end in CRLF', lines)
    case.check(lines.endswith('\r\n\r\n'), 'the headers do not end in a blank line', lines[-80:])
    case.count('inserted')
    if id_:
        case.count('with id')
    return result


def run(case):
    rng = case.rng
    text = a_text(case)
    if rng.random() < .4:
        text = re.sub(r'(?<!\r)\n', '\r\n', text)
        case.count('CRLF')
    id_ = rng.choice([None, None, '', '1', 'x y', 'ünï', 'a: b', '=?x?='])
    if rng.random() < .03:
        exception = None
    else:
        exception = ''.join(rng.choice(PIECES) for _ in range(rng.choice([0, 1, 2, 4, 8, 20])))
        if re.search(r'[\r\n]|[^\0-\x7f]', exception):
            case.count('hostile reports')
            case.distinct(exception, text)
    result = insert(case, text, id_, exception)
    if rng.random() < .3:
        # The message fails again.
        case.count('repeated')
        insert(case, result, id_, rng.choice(['again', 'x\r\ny', '\n\nz']))


STREAMS = [('insert', 6000, 200000, run)]
