"""L01: following links changes scores only when it should, and fetches a page once."""
import io
import os
import pickle
import socket

import requests

import sbclassifier.classifiers.slurping as S
import sbclassifier.tokenizer as T
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.classifiers.constants import HAM_CUTOFF, SPAM_CUTOFF
from sbclassifier.message import from_bytes
from sbclassifier.strippers import URLStripper

from mon import standin

LEVEL = 'exploration'
RULE = ('The network is replaced by stand-ins (name resolution, and the transport adapter of requests) that follow a script per URL: a '
        'page (of any charset, with links of its own, line ends and headers), a redirection, other or no content type, an error status, '
        'errors of the connection, names that do not resolve; after the first fetch the script changes, so that only what was '
        'remembered gives the right result. Histories of up to 25 steps train, untrain, score (with and without evidence), and '
        'start new sessions with the same cache directory, on messages with no link, one or several links, links of '
        'other protocols, links with trailing punctuation, no text at all, and on token streams that are lazy or made before. '
        'The reference is a plain classifier that is given the tokens of the message and of the page. After each step the counts '
        'must be equal; scores and evidence must be the plain ones if there is no link or they are sure, and otherwise '
        'those with the page if they are sure. The requests made must be one for each page not yet known that is needed, and none '
        'otherwise. Non-trivial: a page was fetched and used; distinct by history.')
ASSUMPTIONS = ['the link of a message is the last http link of its last text part',
               'tags of pages with CRLF line ends are short; the age limit of the cache does not pass',
               'one classifier at a time uses the cache directory']
NEED = {'long pages': 20, 'mostly failures': 8, 'histories of more than 15 pages': 15, 'steps': 5000, 'trained with page': 600, 'untrained with page': 200, 'scored with page': 300, 'page did not decide': 100,
        'sure without page': 200, 'requests': 800, 'remembered': 600, 'sessions': 300, 'failures remembered': 300,
        'without text after a link': 100, 'lazy': 1500, 'pages with links': 200, 'colliding names': 50}

WORDS = ['alpha', 'bravo', 'charlie', 'delta', 'echo', 'foxtrot', 'golf', 'hotel', 'india', 'juliett', 'kilo', 'lima']
# Words of pages that look like spam, and like ham.
PAGE_WORDS = [['buy%d' % i for i in range(15)], ['talk%d' % i for i in range(15)]]
FAILURES = ['url:non_resolving', 'url:non_html', 'url:unknown_error']


class Web:
    """The stand-in for the network, with what it was asked."""

    def __init__(self, case):
        self.case = case
        self.script, self.asked = {}, []

    def install(self):
        self.saved = requests.adapters.HTTPAdapter.send, T.crack_urls
        self.undo = standin.replace(socket, 'getaddrinfo', self.getaddrinfo)
        web = self
        requests.adapters.HTTPAdapter.send = lambda adapter, request, *args, **kw: web.send(request)
        T.crack_urls = S.SlurpingURLStripper().analyze
        S.slurp_wordstream = None

    def remove(self):
        self.undo()
        requests.adapters.HTTPAdapter.send, T.crack_urls = self.saved
        S.slurp_wordstream = None

    def host(self, url):
        return url.split('/')[0].split(':')[0].split('?')[0]

    def getaddrinfo(self, host, port, *args, **kw):
        kinds = {self.script[u][0] for u in self.script if self.host(u) == host}
        if 'no name' in kinds:
            raise socket.gaierror(-2, 'Name or service not known')
        if 'bad name' in kinds:
            raise UnicodeError('label too long')
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', ('10.0.0.1', 80))]

    def send(self, request):
        url = request.url.split('://', 1)[1]
        self.asked.append(url)
        # requests adds a slash to a bare host.
        kind = self.script.get(url) or self.script.get(url.rstrip('/')) or ('status', 404)
        r = requests.Response()
        r.request, r.url, r.status_code = request, request.url, 200
        r.headers['Server'] = 'stand-in'
        if kind[0] == 'error':
            raise kind[1]
        if kind[0] == 'status':
            r.status_code = kind[1]
            r.headers['Content-Type'] = 'text/html'
            r.raw = io.BytesIO(b'failure page')
        elif kind[0] == 'redirect':
            r.status_code = 302
            r.headers['Location'] = 'http://' + kind[1]
            r.raw = io.BytesIO(b'')
        else:
            headers, body = kind[1:]
            for k, v in headers:
                r.headers[k] = v
            r.raw = io.BytesIO(body)
        return r


def words(rng, n=8):
    return ' '.join(rng.choice(WORDS) for _ in range(rng.randint(0, n)))


def page(case):
    rng = case.rng
    headers = [('Content-Type', rng.choice(['text/html', 'text/html; charset=utf-8', 'text/html;charset=iso-8859-1', 'text/html ; charset=utf-8',
                                            'text/html; charset=x-unknown']))]
    for _ in range(rng.randrange(3)):
        headers.append(rng.choice([('Date', 'Mon, 1 Jan 2001'), ('X-Powered-By', 'words of lima'), ('Set-Cookie', 'a=b; c=' + 'd' * 90),
                                   ('Content-Language', 'en'), ('X-Spambayes-MailId', 'zzz'), ('Etag', '"abc"'),
                                   ('Last-Modified', 'x'), ('X-Long', 'word ' * 40)]))
    body = '<html><b>%s</b>\n%s ' % (words(rng), words(rng, 14))
    if rng.random() < .6:
        body += ' '.join(rng.sample(rng.choice(PAGE_WORDS), 12)) + ' '
    if rng.random() < .4:
        body += '<a href="http://%s/x">link</a> ' % rng.choice(['other.example', 'elsewhere.example.com', 'p1.example'])
        case.count('pages with links')
    if rng.random() < .3:
        body += '<a href="https://secure.example/x">link</a> '
    body = body.encode()
    if rng.random() < .3:
        body += 'é日本 '.encode() + bytes([rng.randrange(160, 255)]) * 3
    if rng.random() < .2:
        body = b'\nFrom here\n' + body
    if rng.random() < .3:
        body = body.replace(b'\n', b'\r\n')
    if rng.random() < .1:
        body = b''
    if rng.random() < .008:
        body += b''.join(b'word%d\n' % i for i in range(rng.choice([1000, 12000])))
        case.count('long pages')
    return ('page', headers, body)


def outcome(case, url):
    rng = case.rng
    r = rng.random()
    if r < .6:
        return page(case)
    if r < .68:
        return ('status', rng.choice([403, 404, 410, 500, 503]))
    if r < .76:
        e = requests.exceptions
        return ('error', rng.choice([e.ConnectionError, e.Timeout, e.ReadTimeout, e.InvalidURL, e.ChunkedEncodingError,
                                     e.ContentDecodingError, e.SSLError])('failure'))
    if r < .84:
        return ('other', [rng.choice([('Content-Type', 'image/png'), ('Content-Type', 'application/pdf'), ('X', 'y'),
                                      ('Content-Type', 'text/plain')])], b'alpha bravo')
    if r < .92:
        return (rng.choice(['no name', 'no name', 'bad name']),)
    return ('redirect', 'target%d.example/' % rng.randrange(3))


def tokens_of_page(headers, body, prefix):
    """The tokens of a page, with the ordinary tokenizer."""
    data = b''.join(('%s: %s\r\n' % (k, v)).encode() for k, v in headers) + b'\r\n' + body
    saved = T.crack_urls, S.slurp_wordstream
    T.crack_urls = URLStripper().analyze
    try:
        return {prefix + t for t in T.Tokenizer()(from_bytes(data), True, True)}
    finally:
        T.crack_urls, S.slurp_wordstream = saved


def plain_tokens(data):
    saved = T.crack_urls, S.slurp_wordstream
    T.crack_urls = URLStripper().analyze
    try:
        return list(T.tokenize(from_bytes(data)))
    finally:
        T.crack_urls, S.slurp_wordstream = saved


class Sim:

    def __init__(self, case):
        self.case, self.rng = case, case.rng
        rng = case.rng
        self.web = Web(case)
        self.web.install()
        case.cleanup.append(self.web.remove)
        saved = S.X_WEB_PREFIX, S.X_ONLY_SLURP_BASE

        def restore():
            S.X_WEB_PREFIX, S.X_ONLY_SLURP_BASE = saved
        case.cleanup.append(restore)
        if rng.random() < .15:
            S.X_WEB_PREFIX = 'web:'
        self.base = rng.random() < .1
        S.X_ONLY_SLURP_BASE = self.base
        os.chdir(case.dir)
        self.c, self.plain = S.SlurpingClassifier(), Classifier()
        self.known = {}                # url -> tokens
        self.urls = ['p%d.example/%s' % (i, rng.choice(['', 'a', 'a/b.html', 'x?y=z', 'x.jpg', 'a' * 200, 'index-1.html', 'p%d.%s' % (rng.randrange(1000), rng.choice(['gif', 'png', 'css', 'js', 'jpg', 'html', 'jpeg']))]))
                     for i in range(4 if case.stream != 'many pages' else 60)]
        if rng.random() < .4:
            a, b = rng.sample(['q.example/a-b', 'q.example/a_b', 'q.example/a.b', 'q_example/a/b', 'q.example/a?b', 'q.example/a+b'], 2)
            self.urls += [a, b]
            case.count('colliding names')
        if rng.random() < .2:
            self.urls.append('r.example:8080/x')
        if rng.random() < .2:
            self.urls += ['www.s.co.uk/x', 'a.b.t.example.com', 'bare']
        if self.base:
            del self.urls[1:3]
            self.urls += rng.sample(['www.u.de/x', 'v.de/a/b', 'a.b.c.u.de', 'www.w.com/p/q.html?r=s', 'w.com', 'x.y.z.w.com/', 'n.o.org:8080/x',
                                     'www.o.info/x.y.de', 'o.info/a.b.c', 'm.uk'], 4)
            self.urls += ['%s%d.%s/%s' % (rng.choice(['', 'www.', 'a.b.']), rng.randrange(1000), rng.choice(['de', 'com', 'co.uk', 'info']),
                                          rng.choice(['', 'x', 'y/z', 'u.html'])) for _ in range(3)]
            case.count('only the site')
        # On many pages, one kind of failure may be the rule.
        usual = rng.choice([None, 'status', 'status', 'error', 'other', 'no name']) if case.stream == 'many pages' else None
        for u in list(self.urls):
            result = outcome(case, u)
            while usual is not None and result[0] != usual and rng.random() < .9:
                result = outcome(case, u)
            self.web.script[u.rstrip('/')] = result
        case.count('mostly failures', usual is not None)
        for i in range(3):
            self.web.script['target%d.example' % i] = page(case)
        # Hosts that share a name must agree on whether it resolves.
        for u in self.web.script:
            if self.web.script[u][0] in ('no name', 'bad name'):
                for v in self.web.script:
                    if self.web.host(v) == self.web.host(u):
                        self.web.script[v] = self.web.script[u]
        self.messages = [self.message() for _ in range(6 if case.stream != 'many pages' else 150)]
        self.trained = []
        # Some earlier training makes the pages decisive.
        self.before = []
        if rng.random() < .8:
            S.slurp_wordstream = None
            for _ in range(rng.randint(2, 5)):
                k = rng.randrange(2)
                tokens = [S.X_WEB_PREFIX.encode() + w.encode() for w in PAGE_WORDS[k]]
                self.before.append((tokens, k == 0))
            self.before += [(self.before[0][0], self.before[0][1])]
            self.before += [([S.X_WEB_PREFIX.encode() + w.encode() for w in PAGE_WORDS[self.before[0][1]]], not self.before[0][1])]
            for tokens, is_spam in self.before:
                self.c.learn(tokens, is_spam)
                self.plain.learn(tokens, is_spam)
        self.used = False
        self.step_no = 0
        self.last_link = None

    def key(self, url):
        """The URL that is fetched for a link."""
        url = url.rstrip('.:;?!/)')
        if self.base:
            domain = url.split('/')[0]
            labels = domain.split('.')
            if len(labels) > 2:
                return '.'.join(labels[-3:] if len(labels[-1]) < 3 else labels[-2:])
            return domain
        return url

    def message(self):
        """(bytes, link or None, has text)."""
        rng = self.rng
        head = b'From: a@example.com\nSubject: %s\n' % words(rng, 2).encode()
        if rng.random() < .12:
            return head + b'Content-Type: image/png\nContent-Transfer-Encoding: base64\n\nAAAA\n', None, False
        text, link = words(rng, 6) + '\n', None
        for _ in range(rng.choice([0, 0, 1, 1, 1, 2])):
            u = rng.choice(self.urls)
            text += rng.choice(['see http://%s ', '<a href="http://%s">x</a> ', 'HTTP://%s\n', '(http://%s).\n',
                                'http://%s! ']) % u
            link = u
        if rng.random() < .2:
            text += ' %s://%s.example/%d ftp://files.example/z%d ' % (rng.choice(['https', 'https', 'ftp', 'HTTPS']), rng.choice(WORDS), rng.randrange(1000), rng.randrange(100))
        text += words(rng, 3)
        if rng.random() < .2:
            return (head + b'MIME-Version: 1.0\nContent-Type: multipart/mixed; boundary=b\n\n--b\n\n%s\n--b\nContent-Type: text/html\n\n'
                    % words(rng, 3).encode() + text.encode('latin-1') + b'\n--b--\n'), link, True
        return head + b'\n' + text.encode('latin-1') + b'\n', link, True

    def resolve(self, url, may_fetch):
        """The tokens for a link; they must be known or are fetched now."""
        key = self.key(url)
        if key in self.known:
            self.case.count('remembered')
            if any(t.endswith(tuple(f.encode() for f in FAILURES)) or b'url:http_' in t for t in self.known[key]):
                self.case.count('failures remembered')
            return self.known[key], None
        if not may_fetch:
            raise AssertionError('harness: not fetched')
        prefix = S.X_WEB_PREFIX.encode()
        script = self.web.script.get(key) or self.web.script.get(key.rstrip('/'))
        request = key
        if script is None:
            script = ('status', 404)
            hosts = {self.web.script[u][0] for u in self.web.script if self.web.host(u) == self.web.host(key)}
            for k in ('no name', 'bad name'):
                if k in hosts:
                    script = (k,)
        if script[0] == 'redirect':
            kind = self.web.script[script[1].rstrip('/')]
        else:
            kind = script
        if script[0] in ('no name', 'bad name'):
            tokens, request = {b'url:non_resolving'}, None
        elif key.split('.')[-1] in ('jpg', 'gif', 'png', 'css', 'js'):
            tokens, request = {b'url:non_html'}, None
        elif kind[0] == 'page':
            tokens = self.page_tokens(kind, prefix)
        elif kind[0] == 'other':
            tokens = {b'url:non_html'}
        elif kind[0] == 'status':
            tokens = {b'url:http_%d' % kind[1]}
        else:
            tokens = {b'url:unknown_error'}
        # From now on, only what is remembered is right.
        self.known[key] = tokens
        self.pending = key
        return tokens, request

    def page_tokens(self, kind, prefix):
        headers = requests.structures.CaseInsensitiveDict()
        headers['Server'] = 'stand-in'
        for k, v in kind[1]:
            headers[k] = v
        return tokens_of_page(list(headers.items()), kind[2], prefix)

    def change_world(self, key):
        """The page that was fetched is another one now."""
        rng = self.rng
        for u in list(self.web.script):
            if u == key or u == key.rstrip('/'):
                self.web.script[u] = rng.choice([('page', [('Content-Type', 'text/html')], b'changed words entirely'), ('status', 500),
                                                 ('error', requests.exceptions.ConnectionError('gone'))])
        if rng.random() < .3:
            host = self.web.host(key)
            # The name of the host does not resolve any more.
            if all(self.key(u) in self.known for u in self.urls if self.web.host(u) == host):
                self.web.script[host + '/gone'] = ('no name',)

    def expect_requests(self, wanted):
        asked = [u.rstrip('/') for u in self.web.asked if not u.startswith('target')]
        self.case.equal(asked, [u.rstrip('/') for u in wanted], 'requests made')
        self.case.count('requests', len(asked))
        self.web.asked.clear()
        if getattr(self, 'pending', None) is not None:
            self.change_world(self.pending)
            self.pending = None

    def stream(self, data):
        """A stream of the tokens of the message, lazy or not."""
        rng = self.rng
        if rng.random() < .6:
            self.case.count('lazy')
            return T.tokenize(from_bytes(data))
        return list(T.tokenize(from_bytes(data)))

    def train(self, data, link, is_spam, undo=False):
        case = self.case
        wanted = []
        tokens = set(plain_tokens(data))
        if link is not None:
            more, request = self.resolve(link, True)
            tokens |= more
            if request is not None:
                wanted.append(request)
            case.count('untrained with page' if undo else 'trained with page')
            self.used = True
        stream = self.stream(data)
        if undo:
            self.c.unlearn(stream, is_spam)
            self.plain.unlearn(tokens, is_spam)
        else:
            self.c.learn(stream, is_spam)
            self.plain.learn(tokens, is_spam)
        self.expect_requests(wanted)

    def score(self, data, link, stream=None):
        case = self.case
        tokens = plain_tokens(data)
        prob, clues = self.plain.spamprob(tokens, True)
        unsure = HAM_CUTOFF < prob < SPAM_CUTOFF
        wanted = []
        alternatives = [(prob, clues)]
        if link is not None and unsure:
            more, request = self.resolve(link, True)
            if request is not None:
                wanted.append(request)
            # The strongest clues of the message together with the page.
            p2, c2 = self.plain.spamprob(set(more) | {w for w, _ in clues}, True)
            if not HAM_CUTOFF < p2 < SPAM_CUTOFF:
                alternatives = [(p2, c2)]
                case.count('scored with page')
                self.used = True
            else:
                case.count('page did not decide')
        elif link is not None:
            case.count('sure without page')
        evidence = self.rng.random() < .5
        got = self.c.spamprob(self.stream(data) if stream is None else stream, evidence)
        want = alternatives[0]
        if evidence:
            case.equal(got[0], want[0], 'score')
            case.equal(dict(got[1]), dict(want[1]), 'evidence')
        else:
            case.equal(got, want[0], 'score')
        self.expect_requests(wanted)

    def session(self):
        """A new session with the same classifier and cache directory."""
        self.case.count('sessions')
        c = S.SlurpingClassifier()
        c.__setstate__(pickle.loads(pickle.dumps(self.c.__getstate__())))
        self.c = c
        S.slurp_wordstream = None

    def compare(self):
        case = self.case
        case.equal((self.c.nham, self.c.nspam), (self.plain.nham, self.plain.nspam), 'numbers of messages')
        got = {w: (r.spamcount, r.hamcount) for w, r in self.c.wordinfo.items()}
        want = {w: (r.spamcount, r.hamcount) for w, r in self.plain.wordinfo.items()}
        if got != want:
            case.fail('token counts differ', {w: (got.get(w), want.get(w)) for w in set(got) | set(want) if got.get(w) != want.get(w)})


def run(case):
    rng = case.rng
    sim = Sim(case)
    case.step('script', {u: repr(o) for u, o in sim.web.script.items()}, 'prefix', S.X_WEB_PREFIX, 'base', sim.base)
    case.step('messages', sim.messages)
    previous = None
    many = case.stream == 'many pages'
    for _ in range(rng.randint(6, 25) if not many else rng.randint(120, 220)):
        case.count('steps')
        r = rng.random()
        i = rng.randrange(len(sim.messages))
        data, link, has_text = sim.messages[i]
        if previous is not None and not has_text:
            case.count('without text after a link')
        if r < .4:
            is_spam = rng.random() < .5
            case.step('train', i, is_spam)
            sim.train(data, link, is_spam)
            sim.trained.append((i, is_spam))
        elif r < .55 and sim.trained:
            i, is_spam = sim.trained.pop(rng.randrange(len(sim.trained)))
            data, link, _ = sim.messages[i]
            case.step('untrain', i, is_spam)
            sim.train(data, link, is_spam, undo=True)
        elif r < .85:
            case.step('score', i)
            sim.score(data, link)
        elif r < .92:
            # Tokens that were made once are scored, then trained and untrained.
            case.step('tokenize once', i)
            is_spam = rng.random() < .5
            once = list(T.tokenize(from_bytes(data)))
            saved, sim.stream = sim.stream, lambda data: once
            sim.score(data, link, once)
            sim.train(data, link, is_spam)
            sim.compare()
            if rng.random() < .7:
                sim.score(data, link, once)
                sim.train(data, link, is_spam, undo=True)
            else:
                sim.trained.append((i, is_spam))
            sim.stream = saved
        else:
            case.step('new session')
            sim.session()
            previous = None
            continue
        previous = link
        sim.compare()
    case.count('histories of more than 15 pages', len(sim.known) > 15)
    for i, is_spam in sim.trained:
        case.step('untrain in the end', i, is_spam)
        sim.train(*sim.messages[i][:2], is_spam, undo=True)
        sim.compare()
    S.slurp_wordstream = None
    for tokens, is_spam in sim.before:
        sim.c.unlearn(tokens, is_spam)
    case.equal(len(sim.c.wordinfo), 0, 'tokens left after everything is untrained')
    if sim.used:
        case.distinct(case.log)


def without_links(case):
    """Any messages without links: the plain classifier, also with bigrams."""
    rng = case.rng
    web = Web(case)
    web.install()
    case.cleanup.append(web.remove)
    os.chdir(case.dir)
    bigrams = rng.random() < .5
    c, p = S.SlurpingClassifier(bigrams), Classifier(bigrams)
    trained = []
    for _ in range(rng.randint(3, 15)):
        data = b'Subject: %s\n\n%s\n' % (words(rng, 3).encode(), words(rng, 12).encode())
        r = rng.random()
        case.step(data, r)
        case.count('steps')
        if r < .5:
            is_spam = rng.random() < .5
            c.learn(T.tokenize(from_bytes(data)), is_spam)
            p.learn(plain_tokens(data), is_spam)
            trained.append((data, is_spam))
        elif r < .65 and trained:
            data, is_spam = trained.pop(rng.randrange(len(trained)))
            c.unlearn(T.tokenize(from_bytes(data)), is_spam)
            p.unlearn(plain_tokens(data), is_spam)
        else:
            case.equal(c.spamprob(T.tokenize(from_bytes(data))), p.spamprob(plain_tokens(data)), 'score')
            got, want = c.spamprob(T.tokenize(from_bytes(data)), True), p.spamprob(plain_tokens(data), True)
            case.equal((got[0], sorted(got[1])), (want[0], sorted(want[1])), 'score and evidence')
        got = {w: (r.spamcount, r.hamcount) for w, r in c.wordinfo.items()}
        want = {w: (r.spamcount, r.hamcount) for w, r in p.wordinfo.items()}
        case.check(got == want, 'token counts differ')
    case.equal(web.asked, [], 'requests made')
    case.distinct(case.log)


STREAMS = [('many pages', 40, 1000, run), ('histories', 1500, 30000, run), ('no links', 300, 10000, without_links)]
