"""reach.py [labels]: how large are the things that the checks' workloads contain?

Plants, in a scratch clone of /repo, bugs that need something larger than N, and reports for
which N the check of that part still finds them.
"""
import os
import shutil
import subprocess
import sys
import tempfile

B, ST, M, T, SP = 'classifiers/basic.py', 'classifiers/storage.py', 'message.py', 'tokenizer.py', 'strippers.py'
CC, CF, CB, CDB, SL, TR = ('corpora/caches.py', 'corpora/filesystem.py', 'corpora/base.py', 'cdb.py', 'classifiers/slurping.py',
                           'trainers.py')
R = []


def add(label, checks, file, old, new, ns):
    R.append((label, checks.split(), file, old, new, ns))


add('tokens per message', 'C01 C02 S02', B, '''        for word in set(wordstream):
            record = self._wordinfoget(word)
            if record is None:
''', '''        for word in sorted(set(wordstream), key=repr)[:{N}]:
            record = self._wordinfoget(word)
            if record is None:
''', [30, 100, 300, 1000, 5000])
add('spam count', 'C01 S02 E01', B, '''                record.spamcount += 1
''', '''                record.spamcount = min(record.spamcount + 1, {N})
''', [5, 20, 60, 255, 1000])
add('messages trained', 'C01 C02 S02 S01 T01 E01', B, '''            self.nham += 1
''', '''            self.nham = min(self.nham + 1, {N})
''', [5, 20, 60, 255, 1000])
add('length of tokens', 'C01 S02 S01', B, '''    def _wordinfoset(self, word, record):
''', '''    def _wordinfoset(self, word, record):
        word = word[:{N}]
''', [10, 30, 100, 300, 1000])
add('tokens scored', 'C03 C04 C05', B, '''        H = 1
        S = 1
''', '''        H = 1
        S = 1
        wordstream = list(wordstream)[:{N}]
''', [100, 300, 1000, 5000])
add('dbm words changed', 'S01 S02 S06', ST, '''        for word in self.changed_words:
''', '''        for word in sorted(self.changed_words)[:{N}]:
''', [5, 20, 100, 400, 1500])
add('dbm words deleted', 'S01 S02 S06', ST, '''        for word in self.deleted_words:
''', '''        for word in sorted(self.deleted_words)[:{N}]:
''', [3, 10, 40, 200])
add('cdb words', 'S01 S02 S03', ST, '''                     for word, info in self.wordinfo.items())
        # It''', '''                     for word, info in list(self.wordinfo.items())[:{N}])
        # It''', [5, 20, 100, 400, 1500])
add('pickle words', 'S01 S02 S03', B, '''        state = (PICKLE_VERSION, self.wordinfo, self.nspam, self.nham)
''', '''        state = (PICKLE_VERSION, dict(list(self.wordinfo.items())[:{N}]), self.nspam, self.nham)
''', [5, 20, 100, 400, 1500])
add('cdb entries', 'B01', CDB, '''    for key, value in items:
        key, value = to_bytes(key), to_bytes(value)
''', '''    for key, value in list(items)[:{N}]:
        key, value = to_bytes(key), to_bytes(value)
''', [20, 100, 1000, 5000, 20000])
add('cdb keys', 'B01', CDB, '''        key, value = to_bytes(key), to_bytes(value)
        outfile''', '''        key, value = to_bytes(key)[:{N}], to_bytes(value)
        outfile''', [20, 100, 300, 1000, 70000])
add('cdb values', 'B01', CDB, '''        key, value = to_bytes(key), to_bytes(value)
        outfile''', '''        key, value = to_bytes(key), to_bytes(value)[:{N}]
        outfile''', [20, 100, 300, 1000, 70000])
add('cdb table', 'B01', CDB, '''        while self.loop < self.hslots:
''', '''        while self.loop < min(self.hslots, {N}):
''', [3, 10, 20, 50, 200])
add('messages in a corpus', 'K01 K05 T01', CC, '''        if key not in self.data:
            self._keys.append(key)
        self.data[key] = value
''', '''        if len(self.data) >= {N}:
            return
        if key not in self.data:
            self._keys.append(key)
        self.data[key] = value
''', [5, 10, 30, 100])
add('files in a corpus', 'K02 K03 K04 K07 E01', CC, '''        return (f for f in os.listdir(self.directory) if self._is_message(f))
''', '''        return (f for f in os.listdir(self.directory)[:{N}] if self._is_message(f))
''', [5, 10, 30, 100, 300])
add('size of messages', 'K02 K06 K07 E01 M03', CC, '''                f.write(content)
''', '''                f.write(content[:{N}])
''', [500, 2000, 10000, 70000])
add('length of ids', 'K02 K03', CC, '''        return (key not in ('', os.curdir, os.pardir)
''', '''        return (len(key) < {N} and key not in ('', os.curdir, os.pardir)
''', [10, 30, 100, 250])
add('expired files', 'K04', CF, '''        for key in list(self.keys()):
''', '''        for key in list(self.keys())[:{N}]:
''', [3, 10, 30, 100])
add('clues', 'M01', M, '''            self[headerName] = "".join(wrappedEvd)
''', '''            self[headerName] = "".join(wrappedEvd[:2 * {N}])
''', [5, 20, 100, 149, 300])
add('headers', 'X05 M02 M03', M, '''def from_bytes(b, message_id=None):
    message = email.message_from_bytes(b, _class=Message)
''', '''def from_bytes(b, message_id=None):
    message = email.message_from_bytes(b, _class=Message)
    del message._headers[{N}:]
''', [5, 10, 20, 60])
add('text', 'X03 X06 X04', T, '''            # Normalize case.
            text = text.lower()
''', '''            # Normalize case.
            text = text.lower()[:{N}]
''', [200, 500, 1000, 3000, 20000])
add('parts', 'X03 X04 X07', T, '''        for part in textparts(msg):
''', '''        for part in sorted(textparts(msg), key=id)[:{N}]:
''', [1, 2, 3, 5, 10])
add('recipients', 'X05 X07', T, '''            addrlist = msg.get_all(field, [])
''', '''            addrlist = [a[:{N}] for a in msg.get_all(field, [])]
''', [50, 100, 200, 500, 1000])
add('length of words', 'X06', T, '''def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
''', '''def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
    word = word[:{N}]
''', [50, 100, 200, 300])
add('URLs', 'X06', SP, '''        guts = guts.rstrip(b'.:?!/')
''', '''        guts = guts.rstrip(b'.:?!/')[:{N}]
''', [10, 20, 40, 100])
add('sections', 'X03 X06', SP, '''        while True:
            m = self.find_start(text, i)
''', '''        while True:
            m = self.find_start(text, i) if len(retained) < {N} else None
''', [3, 10, 20, 50])
add('pages', 'L01 L02', SL, '''        for err in self.bad_urls.keys():
''', '''        for err in self.bad_urls.keys():
            self.bad_urls[err] = self.bad_urls[err][:{N}]
''', [1, 2, 4, 8])


def main(labels):
    d = tempfile.mkdtemp(prefix='reach-', dir='/tmp')
    subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
    shutil.copytree('/verif', d + '/verif', ignore=shutil.ignore_patterns('seeded', '.git', 'evidence'))
    for label, checks, file, old, new, ns in R:
        if labels and label not in labels:
            continue
        path = os.path.join(d, 'repo/sbclassifier', file)
        with open(path) as f:
            src = f.read()
        if src.count(old) != 1:
            print('%-22s matches %d times' % (label, src.count(old)), flush=True)
            continue
        found = {c: 0 for c in checks}
        for n in ns:
            with open(path, 'w') as f:
                f.write(src.replace(old, new.replace('{N}', str(n))))
            for c in checks:
                if found[c] is None:
                    continue
                r = subprocess.run(['bash', d + '/verif/run.sh', c, 'quick'], env=dict(os.environ, SB_REPO=d + '/repo', VERIF_SEED='1'),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1:
                    found[c] = n
                elif found[c] is not None and r.returncode == 0:
                    found[c] = '%s, not %d' % (found[c], n) if n != ns[0] else 'not %d' % n
                    found[c], done[(label, c)] = None, found[c]
                else:
                    done[(label, c)] = 'rc=%d at %d: %s' % (r.returncode, n, r.stdout[-150:])
                    found[c] = None
        print('%-22s %s' % (label, '; '.join('%s %s' % (c, done.get((label, c)) or 'all') for c in checks)), flush=True)
        with open(path, 'w') as f:
            f.write(src)
    shutil.rmtree(d)


done = {}
main(sys.argv[1:])
