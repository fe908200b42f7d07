"""I01: network clues name exactly the networks that contain an address."""
import ipaddress

from sbclassifier.iputils import gen_dotted_quad_clues, subnets

LEVEL = 'exploration'
RULE = ('Addresses (IPv4 and IPv6; random, with runs of zero and one bits, and next to the borders of networks; as '
        'text in the usual and other notations, or as objects) and lists of prefix lengths (none, empty, all, repeated, in any '
        'order, as tuple or iterator) are given to subnets; the networks must be, in order, those computed with integers and '
        'written by an independent implementation of the usual notation (RFC 5952). The clues must be prefix and network of '
        'the default lengths. Stream "every length": every prefix length with addresses around the borders. '
        'Non-trivial: host bits are set; distinct by address and lengths.')
ASSUMPTIONS = []
NEED = {'networks': 20000, 'IPv4': 1000, 'IPv6': 1000, 'objects': 500, 'iterators': 300, 'clues': 2000}


def notation(n, v6):
    if not v6:
        return '.'.join(str(n >> s & 255) for s in (24, 16, 8, 0))
    groups = [n >> s & 0xffff for s in range(112, -1, -16)]
    best, length = None, 1
    for i in range(8):
        j = i
        while j < 8 and groups[j] == 0:
            j += 1
        if j - i > length:
            best, length = i, j - i
    text = ['%x' % g for g in groups]
    if best is None:
        return ':'.join(text)
    return ':'.join(text[:best]) + '::' + ':'.join(text[best + length:])


def network(n, bits, size):
    mask = (2**bits - 1) << (size - bits)
    return n & mask


def number(rng, size):
    r = rng.random()
    if r < .4:
        return rng.getrandbits(size)
    if r < .7:
        k = rng.randrange(size + 1)
        return ((rng.getrandbits(8) << k) + rng.choice([-1, 0, 1, 2**k - 1])) % 2**size
    n = 0
    while n < 2**size // 2:
        k = rng.randint(1, size // 4)
        n = (n << k | rng.choice([0, 2**k - 1])) or 1
    return n % 2**size


def as_given(case, n, v6):
    rng = case.rng
    if rng.random() < .4:
        case.count('objects')
        return (ipaddress.IPv6Address if v6 else ipaddress.IPv4Address)(n)
    text = notation(n, v6)
    if v6:
        if rng.random() < .3:
            text = ':'.join('%04x' % (n >> s & 0xffff) for s in range(112, -1, -16))
        elif rng.random() < .2:
            text = text.upper()
    return text


def judge(case, address, lengths, got, n, v6):
    size = 128 if v6 else 32
    nets = list(got)
    case.equal(len(nets), len(lengths), 'number of networks', address, lengths)
    for net, bits in zip(nets, lengths):
        base = network(n, bits, size)
        case.equal(str(net), '%s/%d' % (notation(base, v6), bits), 'network', address)
        case.equal((int(net.network_address), net.prefixlen), (base, bits), 'network', address)
        case.count('networks')


def clues(case, address, n, v6):
    prefix = case.rng.choice(['nntp-host', 'received', '', 'a b', '{}', 'url-ip', 'é%s'])
    size = 128 if v6 else 32
    case.equal(list(gen_dotted_quad_clues(prefix, address)),
               ['%s:%s/%d' % (prefix, notation(network(n, bits, size), v6), bits) for bits in (8, 16, 24, 32)], 'clues', address)
    case.count('clues')


def run(case):
    rng = case.rng
    v6 = rng.random() < .5
    case.count('IPv6' if v6 else 'IPv4')
    size = 128 if v6 else 32
    n = number(rng, size)
    address = as_given(case, n, v6)
    r = rng.random()
    if r < .3:
        lengths, got = [8, 16, 24, 32], subnets(address) if rng.random() < .5 else subnets(address, None)
    else:
        lengths = [rng.randint(0, size) for _ in range(rng.choice([0, 1, 2, 5, 12]))]
        if rng.random() < .3:
            lengths += lengths
        given = lengths
        k = rng.randrange(3)
        if k == 0:
            given = tuple(lengths)
        elif k == 1:
            given = iter(lengths)
            case.count('iterators')
        got = subnets(address, given) if rng.random() < .5 else subnets(address, prefix_lengths=given)
    case.step('address', address, 'lengths', lengths)
    judge(case, address, lengths, got, n, v6)
    clues(case, address, n, v6)
    if n % 2**(size - min(lengths, default=size)):
        case.distinct(n, v6, lengths)


def every_length(case):
    """Addresses around the borders of networks of this length."""
    v6 = case.index > 32
    bits = case.index - 33 if v6 else case.index
    size = 128 if v6 else 32
    rng = case.rng
    for _ in range(30):
        base = network(rng.getrandbits(size), bits, size)
        for n in (base, base - 1, base + 1, base + 2**(size - bits) - 1, base + 2**(size - bits)):
            n %= 2**size
            address = as_given(case, n, v6)
            case.step(address, bits)
            judge(case, address, [bits], subnets(address, [bits]), n, v6)
            if rng.random() < (1 if case.thorough else .1):
                lengths = list(range(size + 1))
                rng.shuffle(lengths)
                judge(case, address, lengths, subnets(address, lengths), n, v6)
            case.count('IPv6' if v6 else 'IPv4')
            case.distinct(n, bits)


STREAMS = [('addresses', 4000, 200000, run), ('every length', 162, 162, every_length)]
