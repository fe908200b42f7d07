"""M02: removing the added headers restores the message."""
from email.header import decode_header

from sbclassifier.message import Classification, from_bytes, from_string

from mon import gen, heads, mail

LEVEL = 'exploration'
RULE = ('A case marks a generated message (well formed, hostile, with raw 8-bit headers, repeated or missing To '
        'and Subject, already notated, or with headers of the classifier from before) with drawn options, '
        'perhaps writes it out and reads it again (as bytes or as text), reads the current headers and removes '
        'them, with or without the notations. Without rewriting, the other headers must be as they were to the '
        'byte and in order; with rewriting they must equal, up to folding, those of the unmarked message '
        'rewritten in the same way, and the decoded content of every part too. Notations whose removal was not '
        'asked for must stay. Non-trivial: a notation or evidence was added and removed; distinct by headers.')
ASSUMPTIONS = ['headers are added once before they are removed',
               'if the subject or recipients begin with a notation from before, removal of that notation is asked '
               'for exactly if one was added (documented limitation)']
NEED = {'some headers lost': 800, 'restored': 3000, 'rewritten as bytes': 800, 'rewritten as text': 800, 'notation removed': 800,
        'notation kept': 300, '8-bit headers': 300, 'read before': 3000, 'forged': 200}

NOTES = [c.name + ',' for c in Classification]
TO_NOTES = [c.name + '@spambayes.invalid,' for c in Classification]
PLAIN_HEADERS = ['X-Spambayes', 'X-Spambayes-Classification-Foo', 'XX-Spambayes-Classification', 'X-Spambayes-Evidenc',
                 'X-Spam-Level', 'X-Spambayes-Id', 'Spambayes-Trained']


def a_message(case):
    rng = case.rng
    while True:
        data = mail.plain(rng) if rng.random() < .4 else mail.message(rng)
        extra = b''
        for _ in range(rng.choice([0, 0, 1, 2])):
            extra += rng.choice(PLAIN_HEADERS).encode() + b': ' + rng.choice([b'spam', b'', b'x\n y', b'\xe9']) + b'\n'
        if rng.random() < .25:
            extra += rng.choice([b'Subject: caf\xe9 ole\n', b'To: J\xf6rg <j@x>\n', 'Subject: ünï cödé\n'.encode(),
                                 b'To: \xff\n', b'subject: x\xe9\n', b'TO: a@b\n'])
        if rng.random() < .1:
            extra += rng.choice([b'Subject: spam,ham,unsure\n', b'To: ham@spambayes.invalid,x@y\n', b'Subject: ham\n',
                                 b'To: spam@spambayes.invalid\n', b'Subject: spam,\n'])
        data = extra + data if rng.random() < .9 else data
        try:
            m = from_bytes(data)
            from_bytes(m.as_bytes())
        except Exception:
            continue
        for k in heads.OWN:
            del m[k]
        if rng.random() < .15:
            del m['To']
        if rng.random() < .15:
            del m['Subject']
        return m


def first(headers, name):
    for k, v in headers:
        if k.lower() == name:
            return v
    return None


def ascii_(s):
    return s is None or s.isascii()


def text_of(value):
    """The text of a header value, decoded, to compare raw and encoded forms."""
    out = b''
    for p, c in decode_header(heads.squeeze(value)):
        out += p if isinstance(p, bytes) else p.encode('utf-8', 'surrogateescape')
    return out


def no_space(value):
    return ''.join(value.split())


def rewrite(m, how):
    if how == 'bytes':
        return from_bytes(m.as_bytes())
    return from_string(m.as_string())


def run(case):
    rng = case.rng
    m = a_message(case)
    original = heads.raw(m)
    if not all(ascii_(v) for _, v in original):
        case.count('8-bit headers')
    body = [m.preamble, m.epilogue, m._payload if not isinstance(m._payload, list) else [x.as_bytes() for x in m._payload]]
    controls = {}
    for h in ('bytes', 'text'):
        try:
            controls[h] = rewrite(m, h)
        except Exception:
            controls[h] = None      # the email package cannot write it
    if rng.random() < .6:
        m.set_id(rng.choice(['id-1', 'x y', '5.msg']))
    forged = rng.random() < .15
    if forged:
        # Headers of an earlier classification, perhaps several.
        for _ in range(rng.randint(1, 3)):
            m[rng.choice([k.title() for k in heads.OWN] + [k.upper() for k in heads.OWN])] = rng.choice(['spam', '', '****', 'x'])
        case.count('forged')
    subject, to = first(original, 'subject'), first(original, 'to')
    all_ = list(Classification)
    note_to = rng.sample(all_, rng.randint(0, 3))
    note_subject = rng.sample(all_, rng.randint(0, 3))
    p = rng.choice([.05, .1, .5, .89, .95, 1.0, 0.0, rng.random()])
    clues = [(b'*H*', rng.random()), (b'*S*', rng.random())] + [
        (w, rng.random()) for w in gen.vocabulary(rng, rng.choice([0, 1, 5, 30]), bytes)]
    evidence, score, level = rng.random() < .6, rng.random() < .6, rng.random() < .6
    m.add_sb_headers(p, clues, include_evidence=evidence, include_score=score, include_thermostat=level,
                     notate_to=note_to, notate_subject=note_subject)
    verdict = m.classification()
    if rng.random() < .3:
        m['X-Spambayes-Trained'] = rng.choice(['spam', 'ham'])
    noted_to, noted_subject = verdict in note_to, verdict in note_subject
    remove_to, remove_subject = rng.random() < .7, rng.random() < .7
    if to is not None and (to.startswith(tuple(TO_NOTES)) or to + ',' in TO_NOTES):
        remove_to = noted_to
    if subject is not None and subject.startswith(tuple(NOTES)):
        remove_subject = noted_subject
    how = rng.choice(['no', 'no', 'bytes', 'text'])
    case.step('message', original[:20], 'verdict', verdict, 'noted', noted_to, noted_subject, 'remove', remove_to,
              remove_subject, how)
    if how != 'no':
        if how == 'text' and not all(ascii_(v) for _, v in original) and (noted_to or noted_subject):
            how = 'bytes'       # see the probe
        control = controls[how]
        if control is None:
            case.count('cannot be written')
            return
        again = rewrite(m, how)
        if [k.lower() for k, _ in heads.raw(control)] != [k.lower() for k, _ in original]:
            return      # the message breaks when written, with or without our headers
        m = again
        case.count('rewritten as ' + how)
    if rng.random() < .3:
        # Some of the headers were lost, or dropped by another program.
        for name in {k.lower() for k, _ in heads.own(heads.raw(m))}:
            if rng.random() < .6:
                del m[name]
        case.count('some headers lost')
    # The current values can be read before, the first of each.
    read = m.current_sb_headers()
    own = {}
    for k, v in heads.own(heads.raw(m)):
        own.setdefault(k, v)
    case.equal({k.lower() for k in read}, set(own), 'headers read before removal')
    for k, v in read.items():
        if own[k.lower()].isascii():
            case.equal(v, own[k.lower()], 'value read before removal: ' + k)
    case.count('read before')
    if remove_to and remove_subject and rng.random() < .5:
        m.remove_sb_headers()
    elif rng.random() < .5:
        m.remove_sb_headers(remove_to, remove_subject)
    else:
        m.remove_sb_headers(remove_subject_notations=remove_subject, remove_to_notations=remove_to)
    got = heads.raw(m)
    case.equal(heads.own(got), [], 'own headers that are left')
    case.equal(m.current_sb_headers(), {}, 'headers read after removal')
    want = list(original) if how == 'no' else heads.raw(control)
    for noted, remove, name, note in ((noted_to, remove_to, 'To', verdict.name + '@spambayes.invalid'),
                                      (noted_subject, remove_subject, 'Subject', verdict.name)):
        at = [i for i, (k, _) in enumerate(want) if k.lower() == name.lower()]
        if noted and not remove:
            case.count('notation kept')
            if at:
                want[at[0]] = (want[at[0]][0], note + ',' + want[at[0]][1])
            else:
                want.append((name, note))
        elif noted and remove:
            if not at and name == 'Subject':
                # Known finding subject-of-none: it may be left.
                if (name, note) in got:
                    want.append((name, note))
            else:
                case.count('notation removed')
                case.distinct(name, original, verdict.name)
        elif remove and at and name == 'Subject' and want[at[0]][1].startswith(tuple(NOTES)):
            case.fail('harness: removal of a notation from before')
    if how == 'no':
        case.equal(got, want, 'headers after removal')
        case.equal([m.preamble, m.epilogue, m._payload if not isinstance(m._payload, list) else
                    [x.as_bytes() for x in m._payload]], body, 'body')
    else:
        case.equal([(k.lower(), no_space(v)) for k, v in got],
                   [(k.lower(), no_space(v)) for k, v in want], 'headers after rewriting and removal')
        case.equal(heads.structure(m), heads.structure(control), 'body after rewriting')
    if evidence and len(clues) > 2:
        case.distinct('evidence', original, len(clues))
    case.count('restored')



def subject_of_none(case):
    m = from_string('From: a@b\n\nx\n')
    m.add_sb_headers(1.0, [], notate_subject=[Classification.spam])
    m.remove_sb_headers()
    case.equal(heads.raw(m), [('From', 'a@b')], 'headers after removal')


def eight_bit_rewritten(case):
    m = from_bytes(b'From: a@b\nSubject: caf\xe9\n\nx\n')
    control = from_string(m.as_string())
    m.add_sb_headers(1.0, [], notate_subject=[Classification.spam])
    m = from_string(m.as_string())
    m.remove_sb_headers()
    case.equal([(k, text_of(v)) for k, v in heads.raw(m)], [(k, text_of(v)) for k, v in heads.raw(control)], 'headers after removal')


PROBES = {'subject-of-none': subject_of_none, '8bit-notation-as-text': eight_bit_rewritten}
STREAMS = [('round trip', 12000, 300000, run)]
