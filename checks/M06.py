"""M06: the marks of the classifier do not influence its tokens."""
import copy

from sbclassifier.classifiers.basic import Classifier
from sbclassifier.message import Classification, from_bytes, from_string, insert_exception_header
from sbclassifier.tokenizer import tokenize

from mon import gen, heads, mail
from checks.M04 import PIECES, a_text, raise_it

LEVEL = 'exploration'
RULE = ('A generated message (plain or hostile) is tokenized (with the default options, or those that tokenize all '
        'headers) before and after it was marked with drawn options - score, '
        'stars, evidence of up to 300 odd clues, id, verdict, training mark, report of an exception - also when written out '
        'and read again (as bytes or text; compared with the unmarked message rewritten in the same way), and after the '
        'marks were removed; and with forged headers of the classifier (any values, repeated, folded, 8-bit, in any case) '
        'put anywhere between its headers. The sequence of tokens must be the same; with notations in recipients or '
        'subject only tokens of these two headers may differ, and none after removal. What a classifier learned from the '
        'message as received must be gone after untraining it with the marked one. Non-trivial: ten or more tokens and '
        'marks with evidence, or a forged header; distinct by message.')
ASSUMPTIONS = ['subject and recipients, where they are noted, exist, are ASCII and do '
               'not begin with a notation (M02 has these cases)']
NEED = {'marked': 2500, 'with evidence': 1000, 'rewritten': 800, 'notations': 250, 'removed': 1000, 'forged': 1500,
        'exceptions': 800, 'all headers tokenized': 2500, 'untrained when marked': 200}
OWN = ['X-Spambayes-Classification', 'X-Spambayes-Spam-Probability', 'X-Spambayes-Level', 'X-Spambayes-Evidence',
       'X-Spambayes-MailId', 'X-Spambayes-Trained', 'X-Spambayes-Classification-ID', 'X-Spambayes-Exception']
NOTES = tuple(c.name for c in Classification)


def a_message(rng, write=False):
    while True:
        data = mail.plain(rng) if rng.random() < .3 else mail.message(rng)
        if not mail.readable(data, write):
            continue
        if write:
            try:
                from_bytes(data).as_string()
            except Exception:
                continue
        return data


def rewrite(m, how):
    return {'no': lambda: m, 'bytes': lambda: from_bytes(m.as_bytes()), 'text': lambda: from_string(m.as_string())}[how]()


def tokens(m, options={}):
    return list(tokenize(m, **options))


def an_option(case):
    """Options of the tokenizer."""
    options = case.rng.choice([{}, {}, {'basic_header_tokenize': True},
                               {'basic_header_tokenize': True, 'basic_header_tokenize_only': True}])
    case.count('all headers tokenized', bool(options))
    return options


def compare(case, got, want, what):
    if got != want:
        surplus, missing = [t for t in got if t not in want], [t for t in want if t not in got]
        case.fail(what, 'surplus %r' % surplus[:9], 'missing %r' % missing[:9], 'or another order or number')
    case.count('assertions')


def can_note(m, name):
    v = m[name]
    return v is not None and isinstance(v, str) and v.isascii() and not v.lower().startswith(NOTES) and '=?' not in v


def marked(case):
    rng = case.rng
    options = an_option(case)
    how = rng.choice(['no', 'no', 'bytes', 'text'])
    data = a_message(rng, how != 'no')
    m, control = from_bytes(data), from_bytes(data)
    for name in heads.OWN:
        del m[name], control[name]
    try:
        if how != 'no' and copy.deepcopy(control).as_bytes() != copy.deepcopy(control).as_bytes():
            return      # the email package invents a boundary
        control = rewrite(control, how)
    except Exception:
        return      # the email package cannot write it
    want = tokens(control, options)
    classifier = None
    if rng.random() < .15:
        classifier = Classifier()
        classifier.learn(iter(want), how == 'no')
    if rng.random() < .5:
        m.set_id(rng.choice(['id-1', 'x y', '5.msg', 'viagra']))
    case.step('message', data, how)
    p = rng.choice([.05, .5, .95, rng.random()])
    clues = [(b'*H*', rng.random()), (b'*S*', rng.random())] + [
        (w, rng.random()) for w in gen.vocabulary(rng, rng.choice([0, 1, 5, 30, 300]), bytes)]
    evidence = rng.random() < .7
    note_to = [c for c in Classification if rng.random() < .4] if can_note(m, 'To') else []
    note_subject = [c for c in Classification if rng.random() < .4] if can_note(m, 'Subject') else []
    note = rng.random() < .35
    if not note:
        note_to = note_subject = None
    m.add_sb_headers(p, clues, include_evidence=evidence, include_score=rng.random() < .5,
                     include_thermostat=rng.random() < .5, header_score_logarithm=rng.random() < .5,
                     clue_mailheader_cutoff=rng.choice([.5, .3, .1]), add_unique_id=rng.random() < .7,
                     notate_to=note_to, notate_subject=note_subject)
    if rng.random() < .5:
        m['X-Spambayes-Trained'] = rng.choice(['spam', 'ham'])
        m.remember_trained(True)
    noted = note and (m.classification() in note_to or m.classification() in note_subject)
    case.count('with evidence', evidence)
    case.count('marked')
    case.count('rewritten', how != 'no')
    case.count('notations', noted)
    try:
        m2 = rewrite(m, how)
    except Exception:
        return
    got = tokens(m2, options)
    if noted:
        parts = (b'subject', b'to:')
        compare(case, [t for t in got if not t.startswith(parts)], [t for t in want if not t.startswith(parts)],
                'the tokens of other parts of a message with notations')
    else:
        compare(case, got, want, 'the tokens of a marked message')
        if classifier is not None:
            classifier.unlearn(iter(got), how == 'no')
            case.equal((classifier.nspam, classifier.nham, dict(classifier.wordinfo)), (0, 0, {}), 'what remains')
            case.count('untrained when marked')
    if how == 'no' or not noted:
        # A header that was longer with its notation may be folded elsewhere.
        m2.remove_sb_headers()
        compare(case, tokens(m2, options), want, 'the tokens after the marks were removed')
        case.count('removed')
    if len(want) >= 10 and evidence:
        case.distinct(data)


def forged(case):
    """Headers of the classifier that came with the message."""
    rng = case.rng
    options = an_option(case)
    data = a_message(rng)
    lines = data.split(b'\n')
    end = lines.index(b'') if b'' in lines else None
    if not end or any(line[:1] in (b' ', b'\t', b'>') or b':' not in line or not line.split(b':')[0].isalpha() and
                      not line.split(b':')[0].replace(b'-', b'').isalnum() for line in lines[:end]
                      if line[:1] not in (b' ', b'\t')) or lines[0][:1] in (b' ', b'\t'):
        data = mail.plain(rng)
        lines = data.split(b'\n')
        end = lines.index(b'')
    want = tokens(from_bytes(data), options)
    n = rng.randint(1, 4)
    for _ in range(n):
        at = rng.choice([k for k in range(end + 1) if k == end or lines[k][:1] not in (b' ', b'\t')])
        name = rng.choice(OWN)
        name = rng.choice([name, name.upper(), name.lower(), name.swapcase()]).encode()
        value = rng.choice([b'spam', b'ham', b'', b'viagra free money', b'0.99', b'****', b'caf\xe9', b'=?utf-8?q?viagra?=',
                            b'http://example.com/x', b'<a@b>', b"'*H*': 0.5; 'x': 0.99", b'a\n\tfolded value', b'x' * 300,
                            'ünï'.encode(), b'a@b.com, Bob <c@d.org>', b'multipart/mixed; boundary="x"',
                            b'from x (x.org [1.2.3.4]) by y'])
        added = (name + rng.choice([b': ', b':', b':  ']) + value).split(b'\n')
        lines[at:at] = added
        end += len(added)
    case.step('message', data, 'forged', b'\n'.join(lines[:end]))
    compare(case, tokens(from_bytes(b'\n'.join(lines)), options), want, 'the tokens of a message with forged headers')
    case.count('forged')
    case.distinct(lines[:end])


def exceptions(case):
    rng = case.rng
    options = an_option(case)
    text = a_text(case)
    want = tokens(from_string(text), options)
    try:
        raise_it(rng, ''.join(rng.choice(PIECES) for _ in range(rng.choice([0, 1, 4, 20]))))
    except Exception:
        result, _ = insert_exception_header(text, rng.choice([None, 'id-1', 'viagra']))
    case.step('text', text, 'result', result)
    compare(case, tokens(from_string(result), options), want, 'the tokens of a message with the report of an exception')
    case.count('exceptions')
    if len(want) >= 10:
        case.distinct(text, result)


STREAMS = [('marked', 6000, 120000, marked), ('forged', 2500, 80000, forged), ('exceptions', 1200, 40000, exceptions)]
