"""Reading the headers the classifier adds, without its code."""
import ast
import re
from email.header import decode_header

OWN = ['x-spambayes-classification', 'x-spambayes-spam-probability', 'x-spambayes-level',
       'x-spambayes-evidence', 'x-spambayes-mailid', 'x-spambayes-trained',
       'x-spambayes-classification-id']
CLASSIFICATION, SCORE, LEVEL, EVIDENCE, MAILID, TRAINED = OWN[:6]

_CLUE = re.compile(r'''\s*(b?(?:'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*"))\s*:\s*([-+.0-9a-zA-Z]+)\s*(;|\Z)''', re.S)


def unfold(value):
    return re.sub(r'\r?\n(?=[ \t])', '', value)


def squeeze(value):
    """The value up to folding: white space at a fold may change."""
    return re.sub(r'[ \t\r\n]+', ' ', value).strip()


def evidence(value):
    """The clues in an evidence header: [(word, text of the probability)]."""
    value = unfold(value)
    result, at = [], 0
    while value[at:].strip():
        m = _CLUE.match(value, at)
        if m is None:
            raise ValueError('not a clue: %r' % value[at:at + 80])
        word = ast.literal_eval(m.group(1))
        if isinstance(word, str):
            word = ''.join(p if isinstance(p, str) else p.decode(c or 'ascii')
                           for p, c in decode_header(word))
        result.append((word, m.group(2)))
        at = m.end()
    return result


def raw(message):
    """All headers, as they are: [(name, value)]."""
    return [(k, v) for k, v in message.raw_items()]


def others(headers):
    return [(k, v) for k, v in headers if k.lower() not in OWN]


def own(headers):
    return [(k.lower(), v) for k, v in headers if k.lower() in OWN]


def structure(message):
    """Body of a message as seen by a reader: decoded content of every part."""
    result = []
    for part in message.walk():
        payload = part._payload
        if isinstance(payload, list):
            result.append((part.get_content_type(), len(payload)))
        else:
            try:
                payload = part.get_payload(decode=True)
            except Exception:
                pass            # a limit of the email package: as it is
            result.append((part.get_content_type(), payload))
    return result
