"""M05: the identity of a message is set once."""
import os

from sbclassifier.message import Classification, Message, from_bytes, from_path, from_string

from mon import heads, mail
from checks.M03 import snapshot

LEVEL = 'exploration'
RULE = ('A case reads a generated message (as bytes, text or file, with an id, without, with a bad one; or makes an '
        'empty one) and runs a random sequence of attempts to set an id: new, the same, empty, none, other types, '
        'reserved names, from the id header of the message (missing, plain, empty, repeated, encoded, 8-bit, '
        'reserved, folded), mixed with classification, marking and training marks. After every step a deep snapshot '
        'must equal that of a model of one write-once id. The three ways to read must give equal messages. '
        'Non-trivial: an id was set and a different one then refused; distinct by sequence.')
ASSUMPTIONS = ['reading as text is compared for 7-bit content only']
NEED = {'refused': 10000, 'accepted': 3000, 'same again': 1000, 'from header': 5000, 'taken from header': 700,
        'read three ways': 600, 'reserved': 1500, '8-bit header': 200}

RESERVED = ['Statistics start date', 'Persistent statistics']
IDS = ['a', 'b', 'Abc', 'A', '1', '0', 'None', ' ', 'x y', 'ünï', '日本', 'a/b', '..', 'statistics start date', 'Persistent statistics ',
       'x' * 300, 'a\nb']
BAD = [None, 1, 0, False, True, b'a', b'', 1.5, [], ['a'], ('a',), {}, object()]


class Text(str):
    pass


def run(case):
    rng = case.rng
    if rng.random() < .9:
        values = [rng.choice([b'a', b'b', b'1', b'', b' x ', b'Statistics start date', b'Persistent statistics', b'\xe9',
                              b'x\xff', b'=?utf-8?q?a?=', b'None', b'a\n b', b'0', 'ü'.encode()])
                  for _ in range(rng.choice([0, 1, 1, 1, 2]))]
        head = b''.join(rng.choice([b'X-Spambayes-MailId', b'X-Spambayes-MailId', b'x-spambayes-mailid', b'X-SPAMBAYES-MAILID'])
                        + b': ' + v + b'\n' for v in values)
        data = head + mail.plain(rng)
        if rng.random() < .2:
            data = head + mail.message(rng).split(b'\n', 1)[-1]
        if not mail.readable(data):
            return
        m = from_bytes(data)
    else:
        m = Message()
    current = None
    refused_after = False
    steps = []
    for _ in range(rng.randint(3, 14)):
        before = snapshot(m)
        r = rng.random()
        expect = None       # the id to be set
        if r < .6:
            if r < .3:
                v = rng.choice(IDS)
            elif r < .4:
                v = rng.choice(RESERVED)
                case.count('reserved')
            elif r < .45:
                v = ''
            elif r < .55:
                v = rng.choice(BAD)
            else:
                v = current if current else Text('a')
                if current and rng.random() < .4:
                    # Almost the same.
                    v = rng.choice([current.upper(), current.lower(), current.swapcase(), current + ' ', ' ' + current,
                                    current.strip(), current[:-1], current + current[-1], current.casefold(),
                                    current.replace('a', '\u0430'), current + '\0', '=?utf-8?q?%s?=' % current])
            bad = not isinstance(v, str) or v in RESERVED or (current and v != current)
            steps.append(('set', v if isinstance(v, str) else repr(v)))
            case.step(steps[-1])
            if bad:
                e = case.raises((TypeError, ValueError), m.set_id, v)
                case.equal(snapshot(m), before, 'message after a refused id')
                case.count('refused')
                refused_after |= bool(current)
            else:
                m.set_id(v)
                expect = v
                case.count('accepted' if v != current else 'same again')
        elif r < .85:
            found = [v for k, v in heads.raw(m) if k.lower() == heads.MAILID]
            case.count('from header')
            result = m.set_id_from_payload()
            v = found[0] if found else None
            steps.append(('from header', v))
            case.step(steps[-1])
            if v is not None and not v.isascii():
                case.count('8-bit header')
            possible = (v is not None and v.isascii() and v not in RESERVED and not (current and v != current))
            if possible:
                case.equal(result, v, 'id taken from the header')
                expect = v
                case.count('taken from header')
            else:
                case.check(result is None or v is not None and not v.isascii(), 'an id was taken', result, v)
                case.equal(m.id() if v is None or v.isascii() else current, current, 'id')
                if result is not None:
                    current = m.id()    # an 8-bit value may be taken in some form
                    case.check(isinstance(current, str), 'the id is not text', current)
                    before = before[:6] + (current,) + before[7:]
                case.equal(snapshot(m), before, 'message after no id was found')
        else:
            what = rng.randrange(3)
            steps.append(('other', what))
            if what == 0:
                m.set_classification(rng.choice(list(Classification)))
            elif what == 1:
                m.remember_trained(rng.choice([True, False]))
            else:
                m['X-Foo'] = 'y'
            case.equal(m.id(), current, 'id after something else')
            continue
        if expect is not None:
            case.equal(snapshot(m), before[:6] + (expect,) + before[7:], 'message after its id was set')
            current = expect
        case.equal(m.id(), current, 'id')
    if refused_after:
        case.distinct(steps)


def reading(case):
    rng = case.rng
    data = mail.plain(rng) if rng.random() < .3 else mail.message(rng)
    if rng.random() < .3:
        data = mail.mangle(rng, data)
    if rng.random() < .3:
        data = data.replace(b'\n', b'\r\n')
    path = case.path(rng.choice(['m', 'm.msg', 'ü', 'a b']))
    with open(path, 'wb') as f:
        f.write(data)
    id_ = rng.choice([None, None, 'x', 'ünï', '', 'Statistics start date', 5])
    makers = [lambda *a: from_bytes(data, *a), lambda *a: from_path(path, *a)]
    if data.isascii():
        makers.append(lambda *a: from_string(data.decode('ascii'), *a))
        case.count('read three ways')
    try:
        m = from_bytes(data)
    except TypeError:
        return
    if id_ in RESERVED or id_ == 5:
        for make in makers:
            case.raises((TypeError, ValueError), make, id_)
        case.raises((TypeError, ValueError), Message, id_)
        return
    want = None
    for make in makers:
        m = make(id_) if id_ is not None or rng.random() < .5 else make()
        case.check(type(m) is Message, 'type', type(m))
        case.equal(m.id(), id_, 'id')
        case.equal((m.classification(), m.is_trained()), (None, None), 'state of a message just read')
        if want is None:
            want = snapshot(m)
        case.equal(snapshot(m), want, 'the same content read in another way')
    with open(path, 'rb') as f:
        case.equal(f.read(), data, 'file after it was read')
    case.equal(os.listdir(case.dir), [os.path.basename(path)], 'files')
    if id_ is not None:
        case.equal(Message(id_).id(), id_, 'id of a new message')
    case.distinct('read', data, id_)


STREAMS = [('ids', 9000, 200000, run), ('reading', 4000, 60000, reading)]
