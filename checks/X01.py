"""X01: every message can be tokenized, trained and scored."""
import collections
import email

import sbclassifier.tokenizer as T
from sbclassifier import strippers
from sbclassifier.message import Message, from_bytes
from sbclassifier.tokenizer import Tokenizer, tokenize

from mon import db, mail, model, stores

LEVEL = 'exploration'
RULE = ('Hostile messages (generated with every header, type, charset, encoding and parameter odd in turn, nested up '
        'to 300 deep, then mangled: cut, spliced, bits flipped, raw bytes; and large repetitive ones) are read as '
        'bytes and as text, and tokenized to the end under a CPU limit, with the default and with drawn options; '
        'every token must be bytes. Stream "built" does so with messages put together by a program (without payload, '
        'with text or bytes, parts under any type, any kind of header value). Stream "stores" trains, scores and untrains such messages with every storage: '
        'scores must be in [0, 1], counts must equal those of a model, and everything must be gone at the end, '
        'also after saving and opening again. Non-trivial: the parsed message has defects, or is not ASCII; '
        'distinct by message.')
ASSUMPTIONS = ['messages on which the parser of the email package itself fails are left out, and so are texts whose '
               'header values it cannot give out (lone surrogates next to other non-ASCII characters)',
               'tokens of any kind are trained except the reserved key of the dbm database (finding S02)']
NEED = {'tokenized': 6000, 'tokens': 200000, 'text': 1500, 'options': 1500, 'trained': 400, 'defects': 1500,
        'large': 120, 'deep': 20, 'built': 2200}

OPTIONS = ['MINE_RECEIVED_HEADERS', 'COUNT_ALL_HEADER_LINES', 'RECORD_HEADER_ABSENCE', 'SUMMARIZE_EMAIL_PREFIXES',
           'SUMMARIZE_EMAIL_SUFFIXES', 'X_SHORT_RUNS', 'CHECK_OCTETS', 'IMAGE_SIZE', 'X_SEARCH_FOR_HABEAS_HEADERS',
           'REPLACE_NONASCII_CHARS', 'X_REDUCE_HABEAS_HEADERS']
LIMIT = 2000000


def drain(case, tokens):
    result = []
    for t in tokens:
        if type(t) is not bytes:
            case.fail('a token is not bytes', t)
        result.append(t)
        if len(result) > LIMIT:
            case.fail('too many tokens')
    case.count('tokens', len(result))
    case.count('assertions', len(result))
    return result


def read(data, kind='bytes'):
    """The message, or None if the email package cannot read it."""
    if not mail.readable(data):
        return None
    return from_bytes(data) if kind == 'bytes' else email.message_from_string(data)


def hostile(case):
    case.cpu_limit = 30
    rng = case.rng
    data = mail.hostile(rng)
    case.step('message', data)
    m = read(data)
    if m is None:
        case.count('cannot be read')
        return
    drain(case, tokenize(m))
    case.count('tokenized')
    if any(p.defects for p in m.walk()):
        case.count('defects')
        case.distinct(data)
    elif not data.isascii():
        case.distinct(data)
    if rng.random() < .3:
        text = data.decode(rng.choice(['latin-1', 'utf-8', 'utf-16', 'cp437', 'utf-7']), rng.choice(['replace', 'ignore']))
        if rng.random() < .3:
            text = data.decode('utf-8', rng.choice(['surrogateescape', 'backslashreplace']))
        if rng.random() < .1:
            i = rng.randrange(len(text) + 1)
            text = text[:i] + rng.choice(['\ud800', '\udfff', '\udc80', '\U0001f600', '\0', '\u2028']) + text[i:]
        case.step('as text', text)
        if read(text, 'text') is not None:
            drain(case, tokenize(text))
            case.count('text')
            case.count('tokenized')
    if rng.random() < .3:
        on = [o for o in OPTIONS if rng.random() < .5]
        case.step('options', on)
        saved = {o: getattr(T, o) for o in on}
        pick = strippers.X_PICK_APART_URLS
        try:
            for o in on:
                setattr(T, o, True)
            strippers.X_PICK_APART_URLS = rng.random() < .5
            drain(case, Tokenizer()(m, rng.random() < .5, rng.random() < .2))
        finally:
            for o, v in saved.items():
                setattr(T, o, v)
            strippers.X_PICK_APART_URLS = pick
        case.count('options')
        case.count('tokenized')


def large(case):
    case.cpu_limit = 60
    rng = case.rng
    unit = rng.choice([b'<', b'<style', b'<style>', b'<!--', b'&#', b'&#65;', b'http://', b'http://a/', b'=', b'begin 644 x\n',
                       b'begin ', b'<comment', b'< ', b'a@b ', b'a.', b'--b\n', b'\n', b'\r', b' ', b'x', b'\xff', b'<noframes',
                       b'end\n', b'M' * 61 + b'\n', b'<b>', b'"', b'=?', b'?=', b'src=', b'</', b'-->', b'1', b';', b'\t\n',
                       b'begin\n', b'src=cid:', b'&nbsp;', b'<p>', b'ftp://a.b/c?d=e ', b':', b'(', b',', b'a:', b'\\', b'<<', b"'", b'*0=', b'; x=', b'http://%31', b'http://1.', b'(a a', b'(1.1', b'[1', b'from a ', b'from a.', b'[', b'=?utf-8?q?x?= ',
                       b'=?utf-8?b?', b'%'])
    n = rng.choice([3000, 20000, 60000]) // len(unit) + 1
    body = unit * n
    where = rng.randrange(7)
    if where == 0:
        data = b'Subject: ' + body.replace(b'\n', b'\n ').replace(b'\r', b' ') + b'\n\nhello\n'
    elif where == 1:
        data = b'From: ' + body.replace(b'\n', b'\n ').replace(b'\r', b' ') + b' <a@b>\n\nhello\n'
    elif where == 2:
        name = rng.choice([b'Content-Type', b'Content-Disposition', b'Message-ID', b'Received', b'X-Mailer', b'To', b'Cc'])
        value = rng.choice([b'', b'text/plain; ', b'attachment; filename=', b'text/plain; name*0=x; charset='])
        data = name + b': ' + value + body.replace(b'\n', b'\n ').replace(b'\r', b' ') + b'\n\nhello\n'
    elif where == 3:
        data = b'Content-Type: text/html; charset=' + body[:2000].replace(b'\n', b' ').replace(b'\r', b' ') + b'\n\n' + body
    else:
        data = b'Subject: x\nContent-Type: text/%s\n\n' % rng.choice([b'plain', b'html']) + body
    case.step(unit, n, where)
    m = read(data)
    if m is None:
        return
    drain(case, tokenize(m))
    if rng.random() < .4:
        saved = {o: getattr(T, o) for o in OPTIONS}
        try:
            for o in OPTIONS:
                setattr(T, o, True)
            strippers.X_PICK_APART_URLS = True
            drain(case, Tokenizer()(m, True))
        finally:
            strippers.X_PICK_APART_URLS = False
            for o, v in saved.items():
                setattr(T, o, v)
        case.count('large with options')
    case.count('large')
    case.count('tokenized')
    case.distinct(unit, n, where)


def deep(case):
    rng = case.rng
    n = rng.randrange(20, 300)
    if rng.random() < .5:
        data = b'Content-Type: message/rfc822\n\n' * n + b'From: x@y\n\nhello world\n'
    else:
        data = b'hello world\n'
        for i in reversed(range(n)):
            data = (b'Content-Type: multipart/mixed; boundary=b%d_\n\n--b%d_\n' % (i, i)
                    + (data if data.startswith(b'Content') else b'\n' + data) + b'\n--b%d_--\n' % i)
    m = read(data)
    if m is None:
        return
    tokens = drain(case, tokenize(m))
    case.check(b'hello' in tokens, 'the text is not tokenized', tokens[-5:])
    case.equal(sum(t.startswith(b'content-type:') for t in tokens), n + 1, 'entities')
    case.count('deep')
    case.count('tokenized')
    case.distinct('deep', data[:40], n)


def built(case):
    """Messages that a program put together."""
    case.cpu_limit = 30
    rng = case.rng
    m = mail.built(rng, Message)
    case.step('built', [(p.items(), p.get_payload() if not p.is_multipart() else len(p.get_payload())) for p in m.walk()])
    drain(case, tokenize(m))
    on = [o for o in OPTIONS if rng.random() < .5]
    case.step('options', on)
    saved = {o: getattr(T, o) for o in on}
    try:
        for o in on:
            setattr(T, o, True)
        drain(case, Tokenizer()(m, rng.random() < .5, rng.random() < .2))
    finally:
        for o, v in saved.items():
            setattr(T, o, v)
    case.count('built')
    case.count('tokenized')
    case.distinct(case.log)


def store(case):
    """Training, scoring and untraining hostile messages with one storage."""
    case.cpu_limit = 60
    rng = case.rng
    kind = stores.KINDS[case.index % len(stores.KINDS)]
    path = case.path('db')
    c = stores.open_store(kind, path)
    ledger = model.Ledger()
    trained = []
    for _ in range(rng.randint(3, 7)):
        data = mail.hostile(rng)
        m = read(data)
        if m is None:
            continue
        tokens = drain(case, tokenize(m))
        case.step('train', data)
        spam = rng.random() < .5
        c.learn(tokenize(m), spam)
        ledger.learn(tokens, spam)
        trained.append((m, tokens, spam))
        score, evidence = c.spamprob(tokenize(m), True)
        case.check(0 <= score <= 1, 'score', score)
        case.check(c.spamprob(tokens) == score, 'score without evidence')
        case.count('trained')
        case.distinct(kind, data)
    bad = db.audit(kind, c, ledger)
    case.check(not bad, 'counts after training', bad)
    if kind != 'memory':
        c.store()
        stores.close_store(c)
        c = stores.open_store(kind, path)
        bad = db.audit(kind, c, ledger)
        case.check(not bad, 'counts after opening again', bad)
    rng.shuffle(trained)
    for m, tokens, spam in trained:
        c.unlearn(tokenize(m), spam)
        ledger.unlearn(tokens, spam)
        score = c.spamprob(tokenize(m))
        case.check(0 <= score <= 1, 'score', score)
    bad = db.audit(kind, c, ledger)
    case.check(not bad, 'counts after untraining', bad)
    case.equal((c.nspam, c.nham), (0, 0), 'totals after untraining')
    if trained:
        case.equal(c.spamprob(tokenize(trained[0][0])), .5, 'score of the untrained')
    stores.close_store(c)


STREAMS = [('hostile', 12000, 2000000, hostile), ('large', 240, 4000, large), ('deep', 40, 400, deep),
           ('stores', 120, 6000, store), ('built', 3000, 200000, built)]
