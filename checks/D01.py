"""D01: name lookups never break anything and restore the global timeout."""
import ipaddress
import socket
import sys
import types

HOSTS = {}          # what the stand-in for spambayes.dnscache answers, by host
ASKED = []


class Cache:
    """A stand-in for the lookup cache of SpamBayes, which looks up the hosts of URLs if it is installed."""

    def __init__(self, *args, **kw):
        self.printStatsAtEnd = True

    def lookup(self, name, *args):
        ASKED.append(name)
        return next((list(a) for h, a in HOSTS.items() if h in str(name)), [])

    def close(self):
        pass


sys.modules['spambayes'] = types.ModuleType('spambayes')
sys.modules['spambayes.dnscache'] = sys.modules['spambayes'].dnscache = types.ModuleType('spambayes.dnscache')
sys.modules['spambayes.dnscache'].cache = Cache
# The package looks for it when it is imported.
for name in [m for m in sys.modules if m.split('.')[0] == 'sbclassifier']:
    del sys.modules[name]

from sbclassifier import dnsutils       # noqa: E402
from sbclassifier import strippers   # noqa: E402
from sbclassifier import tokenizer   # noqa: E402
from sbclassifier.message import from_bytes      # noqa: E402

from mon import mail, standin, tokens            # noqa: E402
from checks.I01 import network, notation    # noqa: E402

LEVEL = 'exploration'
RULE = ('The resolver functions of the socket module are replaced by stand-ins that follow a script: a name has up to six '
        'addresses (IPv4, IPv6, with scope, repeated) or fails (no such name, temporary failure, timeout, malformed name, host '
        'error, or another error); an address has a name or fails likewise. The stand-ins record the default timeout. '
        'Stream "lookups": sequences of forward and reverse lookups with changing previous timeouts (none, zero, short, '
        'long). Stream "messages": messages with any number of posting hosts (addresses, names, hostile values, raw '
        '8-bit data), otherwise ordinary or hostile, are tokenized with the option mine_nntp_headers on; the tokens '
        'beyond those with the option off must be exactly those computed from the script, and none with the option off. '
        'Stream "urls": messages with URLs are tokenized with the options that look up their hosts on and off, with a stand-in '
        'for the lookup cache of SpamBayes; the clues must be those for the addresses it gives. '
        'After each step the default timeout must be the previous one. '
        'Non-trivial: a lookup was made; distinct by script.')
ASSUMPTIONS = ['one thread; errors that are none of resolver, host, timeout or value errors may be passed on']
NEED = {'lookups': 3000, 'answers': 1000, 'failures': 1000, 'timeouts': 200, 'malformed': 200, 'other errors': 100,
        'messages': 1000, 'posting hosts': 1500, 'clues': 5000, 'hostile values': 200, 'names with addresses': 200, 'hosts found': 700, 'hosts not found': 400, 'malformed hosts': 80, 'clues of URLs': 2000}


class Odd(Exception):
    """Any other error."""


def failure(case, reverse=False):
    rng = case.rng
    r = rng.random()
    if r < .35:
        return rng.choice([socket.gaierror(rng.choice([-1, -2, -3, -4, -5, -6, -7, -8, -9, -10, -11, 5]), 'failure'),
                           socket.gaierror('failure')])
    if r < .6:
        case.count('timeouts')
        return socket.timeout('timed out')
    if r < .8:
        case.count('malformed')
        return rng.choice([UnicodeError('label too long'), UnicodeEncodeError('idna', 'x', 0, 1, 'bad'),
                           ValueError('embedded null character')])
    if reverse:
        return rng.choice([socket.herror(rng.choice([1, 2, 3, 4, 0, -1]), 'failure'), socket.herror('failure'), socket.herror()])
    return socket.gaierror(-2, 'Name or service not known')


def an_address(rng):
    if rng.random() < .75:
        return notation(rng.getrandbits(32), False)
    return notation(rng.getrandbits(128), True)


class Resolver:
    """Stand-ins for the functions of the socket module."""

    def __init__(self, case):
        self.case, self.calls = case, []
        self.forward, self.reverse = {}, {}

    def install(self):
        self.saved = socket.getdefaulttimeout()
        self.undo = [standin.replace(socket, name, getattr(self, name)) for name in ('getaddrinfo', 'gethostbyaddr')]

    def remove(self):
        for f in self.undo:
            f()
        socket.setdefaulttimeout(self.saved)

    def seen(self, what):
        self.calls.append((what, socket.getdefaulttimeout()))
        self.case.count('lookups')

    def getaddrinfo(self, host, port, family=0, type=0, proto=0, flags=0):
        self.seen(host)
        result = self.forward.get(host, socket.gaierror(-2, 'Name or service not known'))
        if isinstance(result, BaseException):
            self.case.count('failures')
            raise result
        self.case.count('answers')
        out = []
        for a in result:
            v6 = ':' in a
            sockaddr = (a, 80, 0, 0) if v6 else (a, 80)
            for kind in (socket.SOCK_STREAM, socket.SOCK_DGRAM):
                if family in (0, socket.AF_INET6 if v6 else socket.AF_INET) and type in (0, kind):
                    out.append((socket.AF_INET6 if v6 else socket.AF_INET, kind, 0, '', sockaddr))
        if not out and result:
            raise socket.gaierror(socket.EAI_NONAME, 'Address family for hostname not supported')
        return out

    def gethostbyaddr(self, host):
        self.seen(host)
        result = self.reverse.get(str(host), socket.herror(1, 'Unknown host'))
        if isinstance(result, BaseException):
            self.case.count('failures')
            raise result
        self.case.count('answers')
        return (result, ['alias.' + result], [host])


def timeout(rng):
    return rng.choice([None, None, 0.0, 1.5, 10.0, 60.0, 3600.0])


def expect_timeouts(case, resolver, previous):
    case.equal(socket.getdefaulttimeout(), previous, 'the default timeout afterwards')
    for what, during in resolver.calls:
        case.equal(during, float(dnsutils.DEFAULT_TIMEOUT), 'the default timeout during a lookup', what)
    resolver.calls.clear()


def lookups(case):
    rng = case.rng
    resolver = Resolver(case)
    resolver.install()
    case.cleanup.append(resolver.remove)
    salt = rng.randrange(10**9)
    for i in range(rng.randint(1, 10)):
        previous = timeout(rng)
        socket.setdefaulttimeout(previous)
        r = rng.random()
        reverse = rng.random() < .5
        other = False
        if r < .4:
            result = 'h%d.example.com' % i if reverse else [an_address(rng) for _ in range(rng.choice([1, 2, 6]))]
        elif r < .9:
            result = failure(case, reverse)
        else:
            result = rng.choice([Odd('x'), KeyboardInterrupt(), MemoryError(), OSError(5, 'x')])
            other = True
            case.count('other errors')
        if reverse:
            name = an_address(rng)
            resolver.reverse[name] = result
            if rng.random() < .3:
                name = ipaddress.ip_address(name)
                name = str(name)
            function = dnsutils.reverse_dns_lookup
            want = [result]
        else:
            name = rng.choice(['n%d-%d.example' % (i, salt), 'n%d.é%d' % (i, salt), 'x' * 300 + '.%d.%d' % (i, salt),
                               '..%d %d' % (i, salt)])
            resolver.forward[name] = result
            function = dnsutils.dns_lookup
            want = sorted(set(result)) if isinstance(result, list) else []
        case.step(function.__name__, name, repr(result), previous)
        try:
            got = function(name)
        except BaseException as e:
            if e is not result or not other:
                raise
        else:
            if isinstance(result, BaseException):
                case.equal(len(got), 0, 'the result of a lookup that failed', name, repr(result))
            else:
                case.equal(sorted(got), want, 'the result of a lookup', name)
        expect_timeouts(case, resolver, previous)
        case.state(type(result).__name__, reverse, previous)
    case.distinct(case.log)


def networks(prefix, address):
    a = ipaddress.ip_address(address)
    v6 = a.version == 6
    return {'%s:%s/%d' % (prefix, notation(network(int(a), n, 128 if v6 else 32), v6), n) for n in (8, 16, 24, 32)}


def posting_host(case, resolver, i, salt):
    """(header value, clues)."""
    rng = case.rng
    r = rng.random()
    case.count('posting hosts')
    if r < .4:
        a = an_address(rng)
        clues = networks('nntp-host', a)
        if rng.random() < .6:
            name = rng.choice(['pool-1.isp.example.net', 'localhost', 'a.b', 'x', 'UPPER.Example.COM', 'é.example', ''])
            resolver.reverse[a] = name
            clues |= {'nntp-host-ip:has-reverse', 'nntp-host-name:' + name,
                      'nntp-host-domain:' + '.'.join(name.rsplit('.', 2)[-2:])}
        else:
            resolver.reverse[a] = failure(case, True)
        return a, clues
    if r < .85:
        name = rng.choice(['news%d.example.com', 'h%d', 'a.b.c.d%d.org', 'X%d.Example.ORG', '999.1.2.%d', '1.2.3.4.%d'])
        name = name % (salt + i)
        if rng.random() < .1:
            name += '.'
    else:
        case.count('hostile values')
        name = rng.choice(['', 'x y', '10.0.0.1 (proxy)', '[10.0.0.1]', 'a' * 400, '.', '..', '%s', '=?utf-8?q?x?=', '10.0.0.1/8',
                           '::1::', '1.2.3', '-', '@', 'a@b', '01.02.03.04'])
    clues = {'nntp-host-name:' + name, 'nntp-host-domain:' + '.'.join(name.rsplit('.', 2)[-2:])}
    if name not in resolver.forward:
        if rng.random() < .6:
            resolver.forward[name] = [an_address(rng) for _ in range(rng.choice([1, 2, 6]))]
        else:
            resolver.forward[name] = failure(case)
    addresses = resolver.forward[name]
    if isinstance(addresses, list):
        case.count('names with addresses')
        for a in addresses:
            clues |= networks('nntp-host-ip', a)
        # The name of the first address is compared with the posting host.
        a = min(addresses)
        if a not in resolver.reverse:
            resolver.reverse[a] = rng.choice([name, name, 'other.example', failure(case, True)])
        if resolver.reverse[a] == name:
            clues.add('nntp-host-ip:has-reverse')
    return name, clues


def messages(case):
    rng = case.rng
    resolver = Resolver(case)
    resolver.install()
    case.cleanup.append(resolver.remove)
    previous = timeout(rng)
    socket.setdefaulttimeout(previous)
    salt = rng.randrange(10**9)
    hosts = [posting_host(case, resolver, i, salt) for i in range(rng.choice([0, 1, 1, 1, 2, 5]))]
    want = set()
    data = b''
    for value, clues in hosts:
        name = rng.choice([b'NNTP-Posting-Host', b'nntp-posting-host', b'NNTP-POSTING-HOST'])
        data += name + b': ' + value.encode() + b'\n'
        want |= clues
    exact = True
    if rng.random() < .15:
        # Raw 8-bit data: the tokens are not predicted.
        data += b'NNTP-Posting-Host: ' + rng.randbytes(9).replace(b'\n', b'').replace(b'\r', b'') + b'\xff\n'
        exact = False
        case.count('hostile values')
    rest = mail.message(rng) if rng.random() < .3 else b''
    if not rest or not mail.readable(rest):
        rest = b'From: a@example.com\nSubject: x\n\nbody words\n'
    if b'posting-host' in rest.lower():
        exact = False
    if rest[:1] in (b' ', b'\t'):
        rest = b'X-Y: z\n' + rest
    data += rest
    case.step('message', data, 'forward', {k: repr(v) for k, v in resolver.forward.items()}, 'reverse',
              {k: repr(v) for k, v in resolver.reverse.items()}, 'timeout', previous)
    without = list(tokens.with_options(from_bytes(data), []))
    case.check(not any(t.startswith(b'nntp-host') for t in without), 'posting hosts are mined with the option off')
    case.equal(resolver.calls, [], 'lookups with the option off')
    got = list(tokens.with_options(from_bytes(data), ['X_MINE_NNTP_HEADERS']))
    clues = {t for t in got if t.startswith(b'nntp-host')}
    if exact:
        case.equal(sorted(clues), sorted(t.encode() for t in want), 'clues')
    else:
        case.check(clues >= {t.encode() for t in want}, 'clues are missing', sorted({t.encode() for t in want} - clues))
    case.equal([t for t in got if not t.startswith(b'nntp-host')], without, 'the other tokens')
    expect_timeouts(case, resolver, previous)
    case.count('clues', len(want))
    case.count('messages')
    if hosts:
        case.distinct(data, sorted(want))


def urls(case):
    """Hosts of URLs, with the options that look them up."""
    rng = case.rng
    HOSTS.clear()
    ASKED.clear()
    want, parts = set(), []
    for i in range(rng.randint(0, 5)):
        host = rng.choice(['www.h%d.example', 'h%d', 'h%d.co.uk', '10.0.0.%d']) % (100 + i)
        answer = [an_address(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 5]))]
        if rng.random() < .3:
            answer = tuple(answer)
        if host not in HOSTS:
            HOSTS[host] = answer
        for a in HOSTS[host]:
            want |= networks('url-ip', a)
        if not HOSTS[host]:
            want.add('url-ip:lookup error')
        case.count('hosts found' if HOSTS[host] else 'hosts not found')
        user = rng.choice(['', '', '', 'user@', 'www.bank.example@', 'a:b@'])
        parts.append('%s://%s%s%s%s' % (rng.choice(['http', 'https', 'ftp', 'HTTP']), user, host, rng.choice(['', '', ':80', ':8080']),
                                      rng.choice(['', '/', '/a/b.html', '/x?y=%41'])))
        parts.append(rng.choice(['word', 'some words', '<br>']))
    if rng.random() < .2:
        parts.append(rng.choice(['http://[bad/', 'http://[::1', 'https://]x[/']))
        want.add('url-ip:lookup error')
        case.count('malformed hosts')
    data = b'From: a@example.com\nSubject: x\n\n' + ' '.join(parts).encode() + b'\n'
    case.step('urls', data, dict(HOSTS))
    saved = strippers.X_PICK_APART_URLS, strippers.X_LOOKUP_IP
    case.cleanup.append(lambda: (setattr(strippers, 'X_PICK_APART_URLS', saved[0]), setattr(strippers, 'X_LOOKUP_IP', saved[1])))
    results = []
    for strippers.X_PICK_APART_URLS, strippers.X_LOOKUP_IP in ((False, False), (False, True), (True, False), (True, True)):
        results.append(list(tokenizer.tokenize(from_bytes(data))))
        if len(results) < 4:
            case.equal(ASKED, [], 'lookups with the option off')
    plain, alone, apart, both = results
    case.equal(alone, plain, 'tokens with the option for parts of URLs off')
    case.check(not any(t.startswith(b'url-ip') for t in apart), 'clues with the option off')
    clues = {t for t in both if t.startswith(b'url-ip')}
    case.equal(sorted(clues), sorted(t.encode() for t in want), 'clues for the hosts of URLs')
    case.equal([t for t in both if not t.startswith(b'url-ip')], apart, 'the other tokens')
    case.count('clues of URLs', len(want))
    if want:
        case.distinct(data, sorted(want))


STREAMS = [('urls', 2000, 20000, urls), ('lookups', 3000, 60000, lookups), ('messages', 6000, 60000, messages)]
