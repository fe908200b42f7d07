"""mutate.py FILE N SEED [OUT] [-r]: looks for changes that no check notices.

Makes N random small changes (one at a time) to a file of the code in a scratch
copy; for each that the repository's own tests do not notice, runs the checks of
that part until one reports a violation. With -r, changes regular expressions; with -q, leaves
statements out or turns conditions round, but only for few inputs. Prints what nothing notices, for a
person to judge: equivalent, or a gap in the checks.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

CHECKS = {
    'classifiers/basic.py': 'C01 C04 C03 C05 C07 C06 C02 S02 T01 E01 S05 M06 L01',
    'classifiers/storage.py': 'S02 S08 S07 S05 S06 S01 S03 C05 E01',
    'classifiers/slurping.py': 'L01 L02 X08',
    'safepickle.py': 'S03 S04 S05 S07',
    'cdb.py': 'B01 S02 S05 S07',
    'corpora/base.py': 'K01 K02 K05 K04 T01 K07 E01',
    'corpora/caches.py': 'K01 K02 K05 K06 K07 K03 E01',
    'corpora/filesystem.py': 'K02 K03 K04 K05 K06 K07 T01 E01',
    'trainers.py': 'T01 E01 K05',
    'message.py': 'M01 M02 M03 M04 M05 M06 M07 E01 X01',
    'tokenizer.py': 'X03 X05 X06 X07 X04 X01 X02 D01 X08 M06',
    'strippers.py': 'X03 X06 X07 X04 X01 X08',
    'iputils.py': 'I01 D01',
    'dnsutils.py': 'D01',
}
COMPARE = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='],
           ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BINARY = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*', ast.BitAnd: '|',
          ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<'}


def candidates(src):
    tree = ast.parse(src)
    raw = src.encode()
    starts = [0]
    for line in raw.splitlines(True):
        starts.append(starts[-1] + len(line))

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def put(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, what, n.lineno))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
            docs.add(id(n.body[0]))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in COMPARE.get(type(n.ops[0]), []):
                put(n, '%s %s %s' % (text(n.left), op, text(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BINARY:
            put(n, '%s %s %s' % (text(n.left), BINARY[type(n.op)], text(n.right)), 'operator')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + op.join(text(v) for v in n.values) + ')', 'boolean')
            if len(n.values) > 1:
                for v in n.values:
                    sep = ' and ' if isinstance(n.op, ast.And) else ' or '
                    put(n, '(' + sep.join(text(w) for w in n.values if w is not v) + ')', 'drop condition')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(' + text(n.operand) + ')', 'not')
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, 'not (%s)' % text(n.test), 'negate')
        elif isinstance(n, ast.IfExp):
            put(n, text(n.body), 'only then')
            put(n, text(n.orelse), 'only else')
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, bool):
                put(n, str(not n.value), 'constant')
            elif isinstance(n.value, (int, float)):
                put(n, repr(n.value + 1), 'constant')
                put(n, repr(n.value - 1), 'constant')
            elif isinstance(n.value, (str, bytes)) and n.value:
                q = text(n)
                if q[-1] in '\'"' and not q.endswith(('"""', "'''")) and '\n' not in q:
                    put(n, q[:-1] + 'x' + q[-1], 'string')
                    if len(n.value) > 3 and q[-2] not in '\\)]}*+?$' and len(q) > 5:
                        put(n, q[:-2] + q[-1], 'shorter string')
        elif isinstance(n, ast.Expr) and id(n) not in docs and isinstance(n.value, (ast.Call, ast.Yield)):
            if 'logging' not in text(n):
                put(n, 'pass', 'delete')
        elif isinstance(n, (ast.AugAssign, ast.Delete)):
            put(n, 'pass', 'delete')
        elif isinstance(n, ast.Assign):
            put(n, 'pass', 'delete')
        elif isinstance(n, ast.Continue):
            put(n, 'break', 'break')
            put(n, 'pass', 'delete')
        elif isinstance(n, ast.Break):
            put(n, 'continue', 'continue')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n.value, 'None', 'return None')
        elif isinstance(n, ast.Call):
            if n.args and len(n.args) > 1:
                a, b = n.args[-2], n.args[-1]
                put(b, '', 'drop argument') if False else None
            for k in n.keywords:
                if k.arg and 'logging' not in text(n):
                    put(k.value, 'None', 'argument None')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, text(n.value), 'no slice')
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            put(n.type, 'ZeroDivisionError', 'except')
        elif isinstance(n, ast.Attribute) and n.attr in ('lower', 'upper', 'strip', 'lstrip', 'rstrip'):
            other = {'lower': 'upper', 'upper': 'lower', 'strip': 'lstrip', 'lstrip': 'strip', 'rstrip': 'strip'}[n.attr]
            put(n, text(n.value) + '.' + other, 'method')
    return out


RARELY = '''


def _rarely(values):
    \"\"\"Whether this is one of some sixty inputs.\"\"\"
    import zlib
    text = repr([(k, v) for k, v in sorted(values.items()) if isinstance(v, (str, bytes, int, float))])
    _rarely.n += 1
    if len(text) < 40 or len(values) < 2:
        return _rarely.n % 61 == 7
    return zlib.crc32(text.encode('utf-8', 'replace')) % 61 == 7


_rarely.n = 0
'''


def rare(src):
    """Statements left out, and conditions turned round, for few inputs."""
    tree = ast.parse(src)
    raw = src.encode()
    starts = [0]
    for line in raw.splitlines(True):
        starts.append(starts[-1] + len(line))
    out = []
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        for n in ast.walk(f):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.Expr, ast.Raise, ast.Continue, ast.Break)) \
                    and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                what = n
                form = 'if not _rarely(locals()): %s'
                name = 'rarely left out'
            elif isinstance(n, (ast.If, ast.While)):
                what, form, name = n.test, '(bool(%s) != _rarely(locals()))', 'rarely negated'
            elif isinstance(n, ast.Return) and n.value is not None:
                what, form, name = n.value, '(None if _rarely(locals()) else %s)', 'rarely None'
            else:
                continue
            a, b = starts[what.lineno - 1] + what.col_offset, starts[what.end_lineno - 1] + what.end_col_offset
            old = raw[a:b].decode()
            if 'logging' in old or (b'\n' in raw[a:b] and name == 'rarely left out' and '(' not in old):
                continue
            out.append((a, b, form % old, name, n.lineno))
    return out


def patterns(src):
    """Changes within regular expressions."""
    import re
    tree = ast.parse(src)
    raw = src.encode()
    starts = [0]
    for line in raw.splitlines(True):
        starts.append(starts[-1] + len(line))
    out = []
    for n in ast.walk(tree):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
                and n.func.value.id == 're' and n.args and isinstance(n.args[0], ast.Constant)):
            continue
        k = n.args[0]
        a = starts[k.lineno - 1] + k.col_offset
        b = starts[k.end_lineno - 1] + k.end_col_offset
        old = raw[a:b].decode()
        first = old.index(old[-1]) + (3 if old.endswith('"""') else 1)
        last = len(old) - (3 if old.endswith('"""') else 1)
        comment = [m.span() for m in re.finditer(r'#[^\n]*', old)] if old.endswith('"""') else []
        news = set()
        for i in range(first, last):
            if old[i].isspace() or any(x <= i < y for x, y in comment):
                continue
            news.add((old[:i] + old[i + 1:], 'delete %r' % old[i]))
            for x, y in [('+', '*'), ('*', '+'), ('\\s', ' '), ('\\s', '\\S'), ('^', ''), ('\\d', '[1-9]'), ('[^', '['), ('.', 'x'), ('+', '+?'),
                         ('|', ''), ('a-z', 'a-y'), ('0-9', '0-8'), ('1,', '2,'), ('0,', '1,')]:
                if old.startswith(x, i):
                    news.add((old[:i] + y + old[i + len(x):], '%r to %r' % (x, y)))
            news.add((old[:i + 1] + '?' + old[i + 1:], 'optional %r' % old[i]))
        for new, what in sorted(news):
            try:
                re.compile(ast.literal_eval(new), re.VERBOSE if old.endswith('"""') else 0)
            except Exception:
                continue
            out.append((a, b, new, 'pattern %d: %s' % (len(new), what), k.lineno))
    return out


def main():
    name, count, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    log = open(sys.argv[4], 'a') if len(sys.argv) > 4 and not sys.argv[4].startswith('-') else sys.stdout
    rng = random.Random(seed + name)
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
    shutil.copytree('/verif', d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
    os.mkdir(d + '/verif/evidence')
    test = open('/opt/vp/test.sh').read().replace('/repo', d + '/repo')
    open(d + '/test.sh', 'w').write(test)
    path = d + '/repo/sbclassifier/' + name
    src = open(path).read()
    raw = src.encode()
    all_ = patterns(src) if '-r' in sys.argv else rare(src) if '-q' in sys.argv else candidates(src)
    rng.shuffle(all_)
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable'))

    def sh(cmd, limit, **env):
        try:
            return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=limit,
                                  env=dict(os.environ, **env))
        except subprocess.TimeoutExpired:
            return None
    tried = killed = caught = 0
    for a, b, new, what, line in all_:
        if tried - killed >= count:
            break
        changed = raw[:a] + new.encode() + raw[b:] + (RARELY.encode() if '-q' in sys.argv else b'')
        try:
            ast.parse(changed)
        except (SyntaxError, ValueError):
            continue
        tried += 1
        open(path, 'wb').write(changed)
        r = sh('bash %s/test.sh %s/out.json' % (d, d), 100)
        o = json.load(open(d + '/out.json')) if r is not None and os.path.exists(d + '/out.json') else {}
        t = o.get('tests', o)
        passed = set(o['passed']) if 'passed' in o else {k for k, v in t.items() if v in ('passed', 'pass', True)}
        if r is None or stable - passed:
            killed += 1
            continue
        hit = None
        notes = []
        for c in CHECKS[name].split():
            r = sh('bash %s/verif/run.sh %s quick' % (d, c), 300, SB_REPO=d + '/repo', VERIF_SEED='1')
            if r is None:
                notes.append(c + ' hangs')
            elif r.returncode == 1:
                hit = c
                break
            elif r.returncode:
                notes.append('%s rc=%d %s' % (c, r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1][:150]))
        old = raw[a:b].decode()
        caught += bool(hit)
        print('%s %s:%d %s: %r -> %r %s' % ('caught by ' + hit if hit else 'SURVIVES', name, line, what, old[:100] if '-r' not in sys.argv else '', new[:100] if '-r' not in sys.argv else new, notes), file=log, flush=True)
    print('== %s: %d tried, %d killed by the tests, %d caught' % (name, tried, killed, caught), file=log, flush=True)
    shutil.rmtree(d)


main()
