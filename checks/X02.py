"""X02: tokenizing is repeatable and has no effect on the message."""
import copy

from sbclassifier.message import from_bytes, from_string
from sbclassifier.tokenizer import Tokenizer, tokenize

from mon import mail, mime, sched, tokens as tok
from checks.M03 import snapshot
from checks.X01 import OPTIONS, read

LEVEL = 'exploration'
RULE = ('Stream "again": the tokens of a message (built or hostile) are compared, as sequences, with those from the '
        'same object again, from a deep copy, from the same bytes read again, from another tokenizer, after '
        'tokenizing other messages and after abandoning a half-used generator; a deep snapshot of the message and '
        'its bytes must be the same before and after. Stream "process": batches of messages are tokenized by new '
        'interpreters with other hash seeds (also in reverse order and with drawn options on), and the digests of '
        'the token sequences compared. Stream "threads": threads tokenize the same and different messages while a '
        'monitor gives up the interpreter at random lines of the tokenizer; every sequence must be the sequential '
        'one. Non-trivial: at least two text parts or 30 tokens; distinct by message.')
ASSUMPTIONS = ['messages the parser of the email package fails on are left out',
               'threads that tokenize do not change the messages']
NEED = {'compared': 8000, 'messages in other processes': 1000, 'concurrent': 400, 'thread switches': 20000,
        'with options': 120}


def a_message(rng):
    while True:
        r = rng.random()
        data = mime.message(rng)[0] if r < .3 else mail.message(rng) if r < .8 else mail.hostile(rng)
        if read(data) is not None:
            return data


def out(m):
    try:
        return m.as_bytes()
    except Exception:
        return None         # the email package cannot write it


def again(case):
    rng = case.rng
    data = a_message(rng)
    case.step('message', data)
    m = from_bytes(data)
    if rng.random() < .5:
        m.set_id('x')
        m.remember_trained(True)
    before = snapshot(m)
    want = list(tokenize(m))
    case.equal(snapshot(m), before, 'message after tokenizing')
    c = copy.deepcopy(m)
    other = from_bytes(a_message(rng))
    half = tokenize(m)
    for _ in range(rng.randrange(0, 12)):
        next(half, None)
    ways = [('the same object', lambda: tokenize(m)), ('a deep copy', lambda: tokenize(c)),
            ('a shallow copy', lambda: tokenize(copy.copy(m))),
            ('the same bytes', lambda: tokenize(from_bytes(data))), ('another tokenizer', lambda: Tokenizer()(m)),
            ('after another message', lambda: (list(tokenize(other)), tokenize(m))[1])]
    rng.shuffle(ways)
    for name, way in ways:
        got = list(way())
        case.equal(got, want, 'tokens from ' + name)
        case.count('compared')
    rest = list(half)
    case.check(want[len(want) - len(rest):] == rest, 'tokens of a generator used in between', rest[:5])
    case.equal(snapshot(m), before, 'message after tokenizing')
    case.equal(snapshot(c), before, 'copy after tokenizing')
    written = out(m)
    fresh = out(from_bytes(data))
    if written is not None and fresh == out(from_bytes(data)):      # else the email package invents a boundary
        case.equal(written, fresh, 'bytes of the message after tokenizing')
        case.count('written')
    if len(want) > 30:
        case.distinct(data)


def process(case):
    rng = case.rng
    work = []
    while len(work) < 60:
        on = [o for o in OPTIONS if rng.random() < .4] if rng.random() < .25 else []
        if on:
            case.count('with options')
        work.append((a_message(rng), on))
    want = [tok.digest(tok.with_options(from_bytes(d), o)) for d, o in work]
    for reverse in (False, True):
        order = work[::-1] if reverse else work
        got = tok.elsewhere(order, rng.choice([1, 2, 3, 4711, 4294967295, rng.randrange(2**32)]))
        for (d, o), a, b in zip(work, got[::-1] if reverse else got, want):
            case.step('message', d, o)
            case.equal(a, b, 'tokens in another process')
            case.log.pop()
            case.count('messages in other processes')
            if b[0] > 30:
                case.distinct(d)


def threads(case):
    rng = case.rng
    datas = [a_message(rng)[:6000] for _ in range(3)]
    datas = [d for d in datas if read(d) is not None] or [b'Subject: x\n\nhello\n']
    shared = [from_bytes(d) for d in datas]
    want = [list(tokenize(from_bytes(d))) for d in datas]
    plan = [rng.randrange(len(datas)) for _ in range(4)]
    own = [rng.random() < .5 for _ in plan]
    case.step('messages', datas, plan, own)

    def body(k):
        def f():
            i = plan[k]
            m = from_bytes(datas[i]) if own[k] else shared[i]
            return [list(tokenize(m)) for _ in range(2)]
        return f
    results, errors, trace = sched.run_threads([body(k) for k in range(4)], rng.random())
    for k in range(4):
        if errors[k] is not None:
            raise errors[k]
        for got in results[k]:
            case.equal(got, want[plan[k]], 'tokens while other threads tokenize')
            case.count('concurrent')
    case.count('thread switches', sched.switches(trace))
    case.state(trace)
    for d, m in zip(datas, shared):
        case.equal(snapshot(m), snapshot(from_bytes(d)), 'message after tokenizing in threads')
    case.distinct(datas)


STREAMS = [('again', 2500, 120000, again), ('process', 16, 600, process), ('threads', 80, 3000, threads)]
