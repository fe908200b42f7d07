SEEDS=S=[]
def add(id,prop,edits,demo,needs,breaks): S.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks))
B='classifiers/basic.py'; ST='classifiers/storage.py'; M='message.py'; T='tokenizer.py'; SP='strippers.py'; SL='classifiers/slurping.py'
CB='corpora/base.py'; CC='corpora/caches.py'; CF='corpora/filesystem.py'; SF='safepickle.py'
add('C06-clip','C06',[(B,"""        return self.spamcount, self.hamcount

    def""","""        return min(self.spamcount, 0xffff), min(self.hamcount, 0xffff)

    def""")],"""
import pickle
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
for i in range(0x10002):
    c.learn([b'w'], True)
c.learn([b'w', b'v'], False)
d = pickle.loads(pickle.dumps(c))
assert c.spamprob([b'w', b'v']) == d.spamprob([b'w', b'v'])
assert d.wordinfo[b'w'].spamcount == 0x10002, d.wordinfo[b'w']
""",'a word in more than 65535 messages','its count is cut off in a pickle')
add('C06-stale','C06',[(B,"""            self._use_bigrams = t[4]
        self._probcache = {}""","""            self._use_bigrams = t[4]
        if not hasattr(self, '_probcache'):
            self._probcache = {}""")],"""
from sbclassifier.classifiers.basic import Classifier
def taught(n):
    c = Classifier()
    for i in range(n): c.learn([b'x'], True)
    c.learn([b'w'], True)
    c.learn([b'w', b'y'], False)
    return c
a, b = taught(2), taught(9)
b.spamprob([b'w', b'y'])
b.__setstate__(a.__getstate__())
assert a.spamprob([b'w', b'y', b'x'], True) == b.spamprob([b'w', b'y', b'x'], True)
""",'the state is read into a classifier that has scored','scores use probabilities of the previous training')
add('M07-ham','M07',[(M,"""        return (self.messageid, self.c, self.t)""","""        return (self.messageid, self.c, self.t or None)""")],"""
import pickle
from sbclassifier.message import from_string
m = from_string('Subject: x\\n\\nbody\\n', 'a')
m.remember_trained(False)
assert pickle.loads(pickle.dumps(m)).is_trained() is False
""",'a message trained as ham is pickled','it is read back as not trained')
add('M07-int','M07',[(M,"""        if isinstance(classification_or_probability, float):""","""        if isinstance(classification_or_probability, (float, int)):""")],"""
from sbclassifier.message import from_string, Classification
m = from_string('Subject: x\\n\\nbody\\n', 'a')
m.set_classification(Classification.ham)
try:
    m.set_classification(True)
except ValueError:
    pass
assert m.classification() is Classification.ham
""",'the verdict is set to a bool','it is taken for a probability')
add('K06-first','K06',[(CC,"""        logging.debug('Storing %s to file', key)
""","""        if key in self.data:
            logging.debug('Replacing %s', key)
            self.pop(key)
""")],"""
import os, tempfile, resource
from sbclassifier.corpora.filesystem import FileCorpus
from sbclassifier.message import from_string
d = tempfile.mkdtemp()
c = FileCorpus(d)
c.add_message(from_string('Subject: x\\n\\nold\\n', 'a'))
resource.setrlimit(resource.RLIMIT_FSIZE, (100, resource.RLIM_INFINITY))
import signal; signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
try:
    c.add_message(from_string('Subject: x\\n\\n' + 'new ' * 100, 'a'))
except OSError:
    pass
assert list(c.keys()) == ['a'] and c['a'].get_payload() == 'old\\n'
""",'replacing a message fails, or is killed, half-way','the old message is gone')
add('L02-hang','L02',[(SL,"""timeout=REQUEST_TIMEOUTS)""","""timeout=(REQUEST_TIMEOUTS, None))""")],"""
import os, tempfile, socket, threading, time
os.chdir(tempfile.mkdtemp())
from sbclassifier.classifiers import slurping
slurping.REQUEST_TIMEOUTS = 1
s = socket.socket(); s.bind(('127.0.0.1', 0)); s.listen(5)
c = slurping.SlurpingClassifier() if hasattr(slurping, 'SlurpingClassifier') else slurping.SlurpClassifier()
c.setup()
done = []
t = threading.Thread(target=lambda: done.append(c.slurp('http', '127.0.0.1:%d/x' % s.getsockname()[1])), daemon=True)
t.start(); t.join(20)
assert done == [['url:unknown_error']], done
""",'a server that accepts the request and never answers','training hangs')
add('L02-both','L02',[(SL,"""                logging.debug("Bad HHTP error pickle, using new.")
                self.http_error_urls = {}""","""                logging.debug("Bad HTTP error pickle, using new.")
                self.http_error_urls = {}
                self.bad_urls = dict.fromkeys(self.bad_urls, ())""")],"""
import os, tempfile
os.chdir(tempfile.mkdtemp())
from sbclassifier.classifiers import slurping
from sbclassifier.safepickle import pickle_write
K = [k for k in vars(slurping).values() if isinstance(k, type) and hasattr(k, '_generate_slurp')][0]
c = K(); c.setup()
c.bad_urls['url:non_html'] += ('x/y',)
c.http_error_urls['x/z'] = 'url:http_404'
c._save_caches()
with open(c.http_error_cache_name, 'wb') as f: f.write(b'garbage')
d = K(); d.setup()
assert d.bad_urls['url:non_html'] == ('x/y',), d.bad_urls
""",'the file of remembered HTTP errors is damaged','the other remembered failures are forgotten too')
add('L02-setup','L02',[(SL,"""            self.setup()
            self.setup_done = True""","""            self.setup_done = True
            self.setup()""")],"""
import os, tempfile
os.chdir(tempfile.mkdtemp())
from sbclassifier.classifiers import slurping
K = [k for k in vars(slurping).values() if isinstance(k, type) and hasattr(k, '_generate_slurp')][0]
open('url-cache', 'w').close()  # no directory
slurping.URL_CACHE_DIRECTORY = 'url-cache/sub'
c = K()
slurping.slurp_wordstream = ('http', 'x.invalid/a')
try:
    c.learn([b'x'], True)
except OSError:
    pass
os.remove('url-cache')
slurping.slurp_wordstream = ('http', 'x.invalid/a')
c.learn([b'x'], True)
assert c.wordinfo[b'url:non_resolving'].spamcount == 1
""",'setting up the cache fails once','links are never followed again; every training fails')
add('L02-redirect','L02',[(SL,"""            if content_type is None or \\
               not content_type.startswith("text/html"):""","""            if content_type is None or \\
               not (f.history or content_type.startswith("text/html")):""")],"""
import os, tempfile, threading, http.server
os.chdir(tempfile.mkdtemp())
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        if self.path == '/r':
            self.send_response(302); self.send_header('Location', '/t'); self.send_header('Content-Length', '0'); self.end_headers()
        else:
            self.send_response(200); self.send_header('Content-Type', 'image/png'); self.send_header('Content-Length', '4'); self.end_headers(); self.wfile.write(b'abcd')
    def log_message(self, *a): pass
s = http.server.HTTPServer(('127.0.0.1', 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
from sbclassifier.classifiers import slurping
K = [k for k in vars(slurping).values() if isinstance(k, type) and hasattr(k, '_generate_slurp')][0]
c = K(); c.setup()
r = c.slurp('http', '127.0.0.1:%d/r' % s.server_port)
assert r == ['url:non_html'], r
""",'a redirection to something that is no HTML','it is read as a page')
add('X04-alt','X04',[(T,"""            text = text.lower()

            if REPLACE""","""            if part.get_content_type() == 'text/plain':
                # Keep the case of what is between < and >.
                text = b'<'.join(t.lower() if i == 0 or b'>' not in t else
                                 t.split(b'>', 1)[0] + b'>'
                                 + t.split(b'>', 1)[1].lower()
                                 for i, t in enumerate(text.split(b'<')))
            else:
                text = text.lower()

            if REPLACE""")],"""
from sbclassifier.tokenizer import tokenize
from sbclassifier.message import from_string
a = sorted(tokenize(from_string('Subject: x\\n\\nhello <STYLE>hidden</STYLE> world\\n')))
b = sorted(tokenize(from_string('Subject: x\\n\\nhello <style>hidden</style> world\\n')))
assert a == b
""",'tags in capitals in a plain text part','what they enclose is not removed')
add('I01-order','I01',[('iputils.py',"""    if prefix_lengths is None:
        prefix_lengths = DEFAULT_PREFIX_LENGTHS
""","""    # Each network once.
    prefix_lengths = sorted(set(DEFAULT_PREFIX_LENGTHS
                                if prefix_lengths is None
                                else prefix_lengths))
""")],"""
from sbclassifier.iputils import subnets
assert [str(n) for n in subnets('192.0.2.1', (24, 8))] == ['192.0.2.0/24', '192.0.0.0/8']
""",'prefix lengths that are not in ascending order','the networks come in another order')
add('M06-forged','M06',[(T,"""                for rx in self.basic_skip:
                    if rx.match(k):
                        break   # do nothing -- we're supposed to skip this
                else:""","""                for rx in self.basic_skip:
                    if rx.match(k) and msg.get_all(k) == [v]:
                        break   # do nothing -- we're supposed to skip this
                else:""")],"""
from sbclassifier.tokenizer import tokenize
from sbclassifier.message import from_string
a = from_string('Subject: x\\nX-Spambayes-Classification: ham\\n\\nhello\\n')
b = from_string('Subject: x\\n\\nhello\\n')
a.add_sb_headers(0.9, [])
o = dict(basic_header_tokenize=True)
assert sorted(tokenize(a, **o)) == sorted(tokenize(b, **o))
""",'a header of the classifier that occurs twice, all headers tokenized','its words become tokens')
