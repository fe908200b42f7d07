From 60e54cbba8d24c5f551d1aa822e6a5fde37ccc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 01/83] fix: learn the last token, and tokens of iterators,
 when bigrams are in use

zip() stopped at the shorter of the tokens and the bigrams, so the last token
of a message was never learned, and a single token not at all; and a generator
was consumed from two places at once.
---
 sbclassifier/classifiers/basic.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 573988b..d8cff9c 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -341,13 +341,17 @@ class Classifier:
         """
         # For the sake of brevity, create an alias.
         chain = itertools.chain.from_iterable
+        # `wordstream` may be an iterator, but it is traversed more than once.
+        wordstream = list(wordstream)
         # Create an iterable of bigrams from `wordstream`.
         bigrams = zip(wordstream, itertools.islice(wordstream, 1, None))
         # This string interpolation must match the one in _getclues().
         to_string = lambda x, y: BIGRAM_FORMAT.format(x, y)
-        # This interleaves the individual strings from `wordstream` with the
-        # string representation of the bigrams.
-        return chain(zip(wordstream, (to_string(x, y) for x, y in bigrams)))
+        # This interleaves the individual strings from `wordstream` (except
+        # the first, which does not end a bigram) with the string
+        # representation of the bigrams.
+        return chain([wordstream[:1],
+                      chain((y, to_string(x, y)) for x, y in bigrams)])
 
     def probability(self, record):
         """Computes, stores, and returns the probability that a message is spam
-- 
2.43.0


From e4e206a57f0cfc5e0f16e57238084661ff56107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 02/83] fix: score tokenized messages when bigrams are in use

The tokens of a message are bytes but their bigrams were str, and sorting the
clues raised TypeError as soon as a token and a bigram had the same strength.
---
 sbclassifier/classifiers/basic.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index d8cff9c..3f27a9a 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -53,6 +53,19 @@ PICKLE_VERSION = 5
 #: The format string for creating a token from a bigram.
 BIGRAM_FORMAT = 'bi:{} {}'
 
+
+def bigram(first, second):
+    """Returns the token for the pair of adjacent tokens `first`, `second`.
+
+    A bigram of bytes tokens (which is what the tokenizer produces) is bytes,
+    too, so that it can be ordered together with the tokens themselves.
+
+    """
+    if isinstance(first, bytes):
+        return b'bi:' + first + b' ' + second
+    return BIGRAM_FORMAT.format(first, second)
+
+
 #: Generate both unigrams (words) and bigrams (pairs of words). However,
 #: extending an idea originally from Gary Robinson, the message is 'tiled' into
 #: non-overlapping unigrams and bigrams, approximating the strongest outcome
@@ -346,7 +359,7 @@ class Classifier:
         # Create an iterable of bigrams from `wordstream`.
         bigrams = zip(wordstream, itertools.islice(wordstream, 1, None))
         # This string interpolation must match the one in _getclues().
-        to_string = lambda x, y: BIGRAM_FORMAT.format(x, y)
+        to_string = lambda x, y: bigram(x, y)
         # This interleaves the individual strings from `wordstream` (except
         # the first, which does not end a bigram) with the string
         # representation of the bigrams.
@@ -534,7 +547,7 @@ class Classifier:
                 if i:   # not the 1st loop trip, so there is a preceding token
                     # This string interpolation must match the one in
                     # _enhance_wordstream().
-                    pair = BIGRAM_FORMAT.format(last_token, token)
+                    pair = bigram(last_token, token)
                 last_token = token
                 for clue, indices in (token, (i,)), (pair, (i - 1, i)):
                     if clue not in seen:    # as always, skip duplicates
-- 
2.43.0


From 0ca4f404c35d098ef1e554fcb213457881ca1d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 03/83] fix: let the shelf-backed classifier learn the bytes
 tokens of the tokenizer

---
 sbclassifier/classifiers/storage.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 2477e6b..599034b 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -105,6 +105,17 @@ WORD_CHANGED = "C"
 
 STATE_KEY = 'saved state'
 
+
+def as_text(word):
+    """Returns the text under which the token `word` is kept in a database.
+
+    The tokenizer produces tokens that are bytes, but the keys of a shelf must
+    be strings.
+
+    """
+    return word.decode('latin-1') if isinstance(word, bytes) else word
+
+
 # # Make shelve use binary pickles by default.
 # oldShelvePickler = shelve.Pickler
 
@@ -268,6 +279,7 @@ class ShelveClassifier(StoredClassifierBase):
 
         # If the word is not in memory (in the self.wordinfo dictionary), then
         # load it from the database.
+        word = as_text(word)
         try:
             return self.wordinfo[word]
         except KeyError:
@@ -298,6 +310,7 @@ class ShelveClassifier(StoredClassifierBase):
 
         # if isinstance(word, unicode):
         #     word = word.encode("utf-8")
+        word = as_text(word)
         if record.spamcount + record.hamcount <= 1:
             self.db[word] = record.__getstate__()
             for wordset in self.changed_words, self.deleted_words:
@@ -320,6 +333,7 @@ class ShelveClassifier(StoredClassifierBase):
     def _wordinfodel(self, word):
         # if isinstance(word, unicode):
         #     word = word.encode("utf-8")
+        word = as_text(word)
         del self.wordinfo[word]
         self.deleted_words.add(word)
 
-- 
2.43.0


From 5251f4b8a9a06d8cae050b09c237737b27a62232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 04/83] fix: do not lose stored words when a shelf-backed
 classifier is loaded again

---
 sbclassifier/classifiers/storage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 599034b..694c79c 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -203,6 +203,7 @@ class ShelveClassifier(StoredClassifierBase):
         self.statekey = STATE_KEY
         self.flag = flag
         self.filename = filename
+        self.db = None
         self.load()
 
     def close(self):
@@ -217,6 +218,10 @@ class ShelveClassifier(StoredClassifierBase):
         #     self.db = shelve.Shelf(self.dbm)
         #
         # Does having a shelved DBM afford any benefit over just a shelf?
+        if self.db is not None:
+            # Opening the file a second time would not see what the shelf that
+            # is already open has yet to write to it, and would lose it.
+            self.db.close()
         self.db = shelve.open(self.filename, self.flag)
         if self.statekey in self.db:
             t = self.db[self.statekey]
@@ -232,6 +237,7 @@ class ShelveClassifier(StoredClassifierBase):
             self.nspam = 0
             self.nham = 0
         self.wordinfo = {}
+        self._probcache = {}
         self.deleted_words = set()
         self.changed_words = set()
 
-- 
2.43.0


From f53d2d11617e830ee5a0115766206434607abeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 05/83] fix: have the shelf-backed classifier write everything
 to its file on store

---
 sbclassifier/classifiers/storage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 694c79c..c685be7 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -269,6 +269,11 @@ class ShelveClassifier(StoredClassifierBase):
         # Update the global state, then do the actual save.
         self._write_state_key()
         self.db.sync()
+        if not hasattr(self.db.dict, 'sync'):
+            # Some databases (those of dbm.ndbm) only write everything to the
+            # file when they are closed.
+            self.db.close()
+            self.db = shelve.open(self.filename, 'w')
 
     def _write_state_key(self):
         self.db[self.statekey] = (PICKLE_VERSION, self.nspam, self.nham)
-- 
2.43.0


From ea7382c62ec13576bcb4a71c96caba710688a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 06/83] fix: keep the word counts in a shelf consistent with
 its totals after unlearning

---
 sbclassifier/classifiers/storage.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index c685be7..d61e7d4 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -243,6 +243,17 @@ class ShelveClassifier(StoredClassifierBase):
 
     def store(self):
         logging.debug('Persisting %s state in database', self.filename)
+        self._write_words()
+        # Update the global state, then do the actual save.
+        self._write_state_key()
+        self.db.sync()
+        if not hasattr(self.db.dict, 'sync'):
+            # Some databases (those of dbm.ndbm) only write everything to the
+            # file when they are closed.
+            self.db.close()
+            self.db = shelve.open(self.filename, 'w')
+
+    def _write_words(self):
         # Iterate over our changed word list.
         #
         # This is *not* thread-safe - another thread changing our changed_words
@@ -266,14 +277,6 @@ class ShelveClassifier(StoredClassifierBase):
         # Reset the changed and deleted word lists.
         self.deleted_words.clear()
         self.changed_words.clear()
-        # Update the global state, then do the actual save.
-        self._write_state_key()
-        self.db.sync()
-        if not hasattr(self.db.dict, 'sync'):
-            # Some databases (those of dbm.ndbm) only write everything to the
-            # file when they are closed.
-            self.db.close()
-            self.db = shelve.open(self.filename, 'w')
 
     def _write_state_key(self):
         self.db[self.statekey] = (PICKLE_VERSION, self.nspam, self.nham)
@@ -284,6 +287,13 @@ class ShelveClassifier(StoredClassifierBase):
         key."""
         self._write_state_key()
 
+    def _remove_msg(self, wordstream, is_spam):
+        super()._remove_msg(wordstream, is_spam)
+        # The totals in the state key have just been decreased. The counts of
+        # the words in the database must not remain greater than that, in case
+        # this session ends without a call to store().
+        self._write_words()
+
     def _wordinfoget(self, word):
         # if isinstance(word, unicode):
         #     word = word.encode("utf-8")
-- 
2.43.0


From e19a3e59a0f9a417c94fc34b60439f70c4d4390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 07/83] fix: find the keys of a cdb file, and write non-ASCII
 ones correctly

---
 sbclassifier/cdb.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/cdb.py b/sbclassifier/cdb.py
index 0f25cbd..0666e4e 100644
--- a/sbclassifier/cdb.py
+++ b/sbclassifier/cdb.py
@@ -26,11 +26,15 @@ def uint32_pack(n):
 CDB_HASHSTART = 5381
 
 
+def to_bytes(s):
+    return s if isinstance(s, bytes) else bytes(s, 'utf-8')
+
+
 def cdb_hash(buf):
     h = CDB_HASHSTART
-    for c in buf:
+    for c in to_bytes(buf):
         h = (h + (h << 5)) & 0xffffffff
-        h ^= ord(c)
+        h ^= c
     return h
 
 
@@ -110,6 +114,7 @@ class Cdb(object):
             return 0
 
     def findnext(self, key):
+        key = to_bytes(key)
         if not self.loop:
             u = cdb_hash(key)
             buf = self.read(8, u << 3 & 2047)
@@ -170,10 +175,11 @@ def cdb_make(outfile, items):
     # write keys and data
     outfile.seek(pos)
     for key, value in items:
+        key, value = to_bytes(key), to_bytes(value)
         outfile.write(uint32_pack(len(key)) + uint32_pack(len(value)))
         h = cdb_hash(key)
-        outfile.write(bytes(key, 'utf-8'))
-        outfile.write(bytes(value, 'utf-8'))
+        outfile.write(key)
+        outfile.write(value)
         tables.setdefault(h & 255, []).append((h, pos))
         pos += 8 + len(key) + len(value)
 
-- 
2.43.0


From ad2f85480b51ddb785de7caab2d623d502995401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 08/83] fix: make the cdb-backed classifier store and load its
 words and counts

---
 sbclassifier/classifiers/storage.py | 40 +++++++++++++++++++----------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index d61e7d4..fa97a5a 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -54,17 +54,10 @@ import shelve
 from sbclassifier.classifiers.basic import Classifier
 from sbclassifier.classifiers.basic import PICKLE_VERSION
 from sbclassifier.classifiers.basic import WordInfo
-# from sbclassifier import cdb
+from sbclassifier import cdb
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
 
-try:
-    from cdb import cdb_read
-    from cdb import cdb_write
-    cdb_is_available = True
-except ImportError:
-    cdb_is_available = False
-
 
 # A little magic.  We'd like to use ZODB as the default storage,
 # because we've had so many problems with bsddb, and we'd like to swap
@@ -657,14 +650,21 @@ class CDBClassifier(StoredClassifierBase):
 
     def load(self):
         if os.path.exists(self.filename):
-            data = cdb.read(self.filename)
+            with open(self.filename, 'rb') as fp:
+                data = cdb.Cdb(fp)
+                items = [(str(k, 'utf-8'), str(v, 'utf-8'))
+                         for k, v in data.items()]
+                data.close()
             self.nham, self.nspam = [int(i) for i in
-                                     data[self.statekey].split(',')]
+                                     dict(items)[self.statekey].split(',')]
             # self.wordinfo = {self.uunquote(k): self._WordInfoFactory(v)
             #                  for k, v in data.items()
             #                  if k != self.statekey}
-            from_string = lambda s: WordInfo(*(int(n) for n in s.split(',')))
-            self.wordinfo = {k: from_string(v) for k, v in data.items()
+            # The ham count comes first in the string, but the spam count comes
+            # first in the record.
+            from_string = lambda s: WordInfo(*(int(n) for n in
+                                               reversed(s.split(','))))
+            self.wordinfo = {k: from_string(v) for k, v in items
                              if k != self.statekey}
             logging.debug('%s is an existing CDB, with %d ham and %d spam',
                           self.filename, self.nham, self.nspam)
@@ -673,12 +673,26 @@ class CDBClassifier(StoredClassifierBase):
             self.wordinfo = {}
             self.nham = 0
             self.nspam = 0
+        self._probcache = {}
 
     def store(self):
         items = [(self.statekey, "{:d},{:d}".format(self.nham, self.nspam))]
         items.extend((word, '{:d},{:d}'.format(info.hamcount, info.spamcount))
                      for word, info in self.wordinfo.items())
-        cdb.write(self.filename, items)
+        # Readers must only ever see a complete database.
+        temporary_filename = self.filename + '.tmp'
+        with open(temporary_filename, 'wb') as fp:
+            cdb.cdb_make(fp, items)
+        os.replace(temporary_filename, self.filename)
+
+    def _wordinfoget(self, word):
+        return super()._wordinfoget(as_text(word))
+
+    def _wordinfoset(self, word, record):
+        super()._wordinfoset(as_text(word), record)
+
+    def _wordinfodel(self, word):
+        super()._wordinfodel(as_text(word))
 
 
 # # If ZODB isn't available, then this class won't be useable, but we
-- 
2.43.0


From 09f0037771d91975af6f3442c4f65244bd04f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 09/83] fix: replace a pickle in one step, so that a crash
 cannot leave part of one

---
 sbclassifier/safepickle.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/safepickle.py b/sbclassifier/safepickle.py
index 943bc76..7af5d7f 100644
--- a/sbclassifier/safepickle.py
+++ b/sbclassifier/safepickle.py
@@ -5,8 +5,8 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+import os
 import pickle
-import shutil
 
 from lockfile import FileLock
 from tempfile import NamedTemporaryFile
@@ -28,7 +28,15 @@ def pickle_write(filename, value, protocol=pickle.HIGHEST_PROTOCOL):
     """Store value as a pickle without creating corruption."""
     with FileLock(filename, timeout=DEFAULT_TIMEOUT):
         # Be as defensive as possible: dump the pickle data to a temporary file
-        # first, then move the data to the requested filename second.
-        with NamedTemporaryFile(delete=False) as fp:
-            pickle.dump(value, fp, protocol)
-        shutil.move(fp.name, filename)
+        # first, then move the data to the requested filename second. The
+        # temporary file must be in the same directory, since a file is not
+        # moved to another filesystem in one step.
+        directory = os.path.dirname(os.path.abspath(filename))
+        with NamedTemporaryFile(dir=directory, delete=False) as fp:
+            try:
+                pickle.dump(value, fp, protocol)
+                fp.flush()
+            except BaseException:
+                os.remove(fp.name)
+                raise
+        os.replace(fp.name, filename)
-- 
2.43.0


From b83fd331848e8a3d0d47e1c83e41630d7ea796de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 10/83] fix: report a pickle that cannot be read instead of
 taking it for a new one

---
 sbclassifier/classifiers/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index fa97a5a..04e4bd8 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -160,10 +160,11 @@ class PickleClassifier(StoredClassifierBase):
 
         try:
             tempbayes = pickle_read(self.filename)
-        except:
+        except FileNotFoundError:
             # new pickle
             logging.debug('%s is a new pickle', self.filename)
             self.wordinfo = {}
+            self._probcache = {}
             self.nham = 0
             self.nspam = 0
             return
-- 
2.43.0


From 1bd2bd39b347404dfcb7eaec3b5ed0aa142773b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 11/83] fix: use the cache given to a corpus even if it is
 empty

---
 sbclassifier/corpora/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/base.py b/sbclassifier/corpora/base.py
index 1b9c2ab..8eb8ba0 100644
--- a/sbclassifier/corpora/base.py
+++ b/sbclassifier/corpora/base.py
@@ -137,7 +137,9 @@ class Corpus:
     """
 
     def __init__(self, cache=None):
-        self.message_cache = cache or NaiveCache(max_size=INFINITY)
+        # An empty cache is false.
+        self.message_cache = (NaiveCache(max_size=INFINITY) if cache is None
+                              else cache)
         # dict of all messages in corpus; value is None if msg not currently
         # loaded
         #self.msgs = {}
-- 
2.43.0


From 9aa53b6486c0265d3228b0388a0dfba1ea000d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 12/83] fix: do not evict another entry when a cached one is
 put again

---
 sbclassifier/corpora/caches.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 7cf8953..41b83ba 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -87,9 +87,10 @@ class NaiveCache(Cache):
 
     def put(self, key, value):
         logging.debug('Caching %s', key)
-        self.data[key] = value
         # Here is where we manage the in-memory cache size...
-        self._keys.append(key)
+        if key not in self.data:
+            self._keys.append(key)
+        self.data[key] = value
         # Optimization: only keep the `self.max_size` entries put into the
         # cache most recently.
         if len(self._keys) > self.max_size:
-- 
2.43.0


From 88316f7c8fa0b72cf80f5d54df5b77935be0db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 13/83] fix: give the caches the items() that a corpus asks
 them for

---
 sbclassifier/corpora/caches.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 41b83ba..1c667dc 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -40,6 +40,9 @@ class Cache:
     def values(self):
         raise NotImplemented
 
+    def items(self):
+        raise NotImplemented
+
     def put(self, key, value):
         raise NotImplemented
 
@@ -85,6 +88,9 @@ class NaiveCache(Cache):
     def values(self):
         return self.data.values()
 
+    def items(self):
+        return self.data.items()
+
     def put(self, key, value):
         logging.debug('Caching %s', key)
         # Here is where we manage the in-memory cache size...
@@ -152,6 +158,10 @@ class FileCache(NaiveCache):
         # Need to recreate each message object from the files.
         return (self._message_from_path(f, message_id=f) for f in self.keys())
 
+    def items(self):
+        return ((f, self._message_from_path(f, message_id=f))
+                for f in self.keys())
+
     def put(self, key, value):
         if not fnmatch.fnmatch(key, self.namefilter):
             msg = 'Message {} does not match filter {}'.format(key,
-- 
2.43.0


From 54fc2d70c1375603d1d209625c6a798c49d88eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 14/83] fix: keep the file of a message that is flushed from
 memory

---
 sbclassifier/corpora/caches.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 1c667dc..1238176 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -101,7 +101,9 @@ class NaiveCache(Cache):
         # cache most recently.
         if len(self._keys) > self.max_size:
             key_to_flush = self._keys[0]
-            self.pop(key_to_flush)
+            # This only concerns the entries in memory. A subclass may override
+            # pop() to remove an entry from elsewhere, too.
+            NaiveCache.pop(self, key_to_flush)
 
     def get(self, key, default=None):
         return self.data.get(key, default)
-- 
2.43.0


From 514cadc3cfb7b2f0dbda0f4dee72230ad4099e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 15/83] fix: count the messages that are added to and removed
 from a directory

---
 sbclassifier/corpora/caches.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 1238176..8bf4268 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -129,9 +129,6 @@ class FileCache(NaiveCache):
         self.directory = directory
         # Only allow messages whose IDs match the specified filter.
         self.namefilter = namefilter
-        # Maintain a counter of the number of messages currently stored in the
-        # directory. Scan the directory for existing message files.
-        self.num_files = len(list(iter(self)))
 
     def _is_message(self, filename):
         return (os.path.isfile(os.path.join(self.directory, filename))
@@ -141,7 +138,8 @@ class FileCache(NaiveCache):
         return from_path(os.path.join(self.directory, filename), *args, **kw)
 
     def __len__(self):
-        return self.num_files
+        # Scan the directory for existing message files.
+        return len(list(iter(self)))
 
     def __iter__(self):
         return self.keys()
-- 
2.43.0


From b96b28e82c5e011213397c4f188db72f5fe2624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 16/83] fix: give a message that is read from a corpus
 directory its id

---
 sbclassifier/corpora/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 8bf4268..50599f3 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -148,7 +148,7 @@ class FileCache(NaiveCache):
         if key in self.data:
             return self.data[key]
         if key in os.listdir(self.directory) and self._is_message(key):
-            return self._message_from_path(key)
+            return self._message_from_path(key, message_id=key)
         raise KeyError('{} not in cache or directory'.format(key))
 
     def keys(self):
-- 
2.43.0


From f1b78196de6538335392ddcdead79cbf0c1f3957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 17/83] fix: only write and remove files that are in the
 directory of the corpus

---
 sbclassifier/corpora/caches.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 50599f3..314d29b 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -134,6 +134,11 @@ class FileCache(NaiveCache):
         return (os.path.isfile(os.path.join(self.directory, filename))
                 and fnmatch.fnmatch(filename, self.namefilter))
 
+    def _is_filename(self, key):
+        # A key such as '../x' would name a file outside of the directory.
+        return (key not in ('', os.curdir, os.pardir)
+                and os.path.basename(key) == key)
+
     def _message_from_path(self, filename, *args, **kw):
         return from_path(os.path.join(self.directory, filename), *args, **kw)
 
@@ -167,6 +172,8 @@ class FileCache(NaiveCache):
             msg = 'Message {} does not match filter {}'.format(key,
                                                                self.namefilter)
             raise ValueError(msg)
+        if not self._is_filename(key):
+            raise ValueError('Message {!r} cannot be a file'.format(key))
         super().put(key, value)
         logging.debug('Storing %s to file', key)
         with open(os.path.join(self.directory, key), 'wb') as f:
@@ -180,6 +187,10 @@ class FileCache(NaiveCache):
 
     def pop(self, key):
         result = super().pop(key)
+        if not (self._is_filename(key)
+                and fnmatch.fnmatch(key, self.namefilter)):
+            # There is no such message in this cache.
+            return result
         logging.debug('Removing file %s', key)
         path = os.path.join(self.directory, key)
         try:
-- 
2.43.0


From 782408493d5003d601b442b4765bbc4e95890d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 18/83] fix: do not keep a message that could not be written to
 its file

---
 sbclassifier/corpora/caches.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 314d29b..ec892ae 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -174,10 +174,12 @@ class FileCache(NaiveCache):
             raise ValueError(msg)
         if not self._is_filename(key):
             raise ValueError('Message {!r} cannot be a file'.format(key))
-        super().put(key, value)
+        # A message that cannot be stored is not in this cache.
+        content = value.as_bytes()
         logging.debug('Storing %s to file', key)
         with open(os.path.join(self.directory, key), 'wb') as f:
-            f.write(value.as_bytes())
+            f.write(content)
+        super().put(key, value)
 
     def get(self, key, default=None):
         try:
-- 
2.43.0


From eb2109f1b434bf66f6c05d9974453b767c819520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 19/83] fix: name the directory in the representation of a file
 corpus

---
 sbclassifier/corpora/filesystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 06104a3..1df901c 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -67,10 +67,11 @@ class FileCorpus(Corpus):
     def __repr__(self):
         nummsgs = len(self)
         s = 's' if nummsgs != 1 else ''
-        lst = ', {}'.format(self.keys()) if VERBOSE and nummsgs > 0 else ''
+        lst = ', {}'.format(list(self.keys())) if VERBOSE and nummsgs > 0 else ''
         return ('<{} object at {:8.8x}, directory: {},'
                 ' {} message{}{}>').format(self.__class__.__name__, id(self),
-                                           self.directory, nummsgs, s, lst)
+                                           self.message_cache.directory,
+                                           nummsgs, s, lst)
 
 
 class ExpiryFileCorpus(FileCorpus):
-- 
2.43.0


From 7a1d8adfff96d2075e511a8799ddaeab3041df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 20/83] fix: remove the expired messages of a file corpus

---
 sbclassifier/corpora/filesystem.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 1df901c..db330dc 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -95,15 +95,24 @@ class ExpiryFileCorpus(FileCorpus):
         # Iterate over a copy of the list because the keys will be modified
         # during the loop.
         for key in list(self.keys()):
-            msg = self[key]
-            timestamp = msg.createTimestamp()
+            timestamp = self._create_timestamp(key)
             end_time = timestamp + self.expireBefore
             if end_time < time.time():
-                logging.debug('message %s has expired', msg.id())
-                self.remove_message(msg, do_training=False)
+                logging.debug('message %s has expired', key)
+                # This is no reason to untrain, so no signal is emitted.
+                self.message_cache.pop(key)
             elif end_time < self.expiry_due:
                 self.expiry_due = end_time
 
+    def _create_timestamp(self, key):
+        # make sure we don't die if someone has
+        # removed the file out from underneath us
+        path = os.path.join(self.message_cache.directory, key)
+        try:
+            return os.stat(path).st_ctime
+        except OSError:
+            return time.time()
+
 
 # class FileMessage(object):
 #     '''Message that persists as a file system artifact.'''
-- 
2.43.0


From 4dd05cc838d95e4ae6a792586c7605f52d0b4b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 21/83] fix: train on the messages added to a corpus and
 untrain on those removed

---
 sbclassifier/trainers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/trainers.py b/sbclassifier/trainers.py
index 80c3871..26ce860 100644
--- a/sbclassifier/trainers.py
+++ b/sbclassifier/trainers.py
@@ -48,7 +48,7 @@ class Trainer(object):
         self.is_spam = is_spam
         for corpus in corpora:
             message_added.connect(self.train, sender=corpus)
-            message_removed.connect(self.train, sender=corpus)
+            message_removed.connect(self.untrain, sender=corpus)
 
     def train(self, sender, message):
         """Train the database with the specified message.
@@ -58,7 +58,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('training with %s', message.key())
+        logging.debug('training with %s', message.id())
         self.classifier.learn(tokenize(message), self.is_spam)
         message.remember_trained(self.is_spam)
 
@@ -71,7 +71,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('untraining with %s', message.key())
+        logging.debug('untraining with %s', message.id())
         self.classifier.unlearn(tokenize(message), self.is_spam)
         # can raise ValueError if database is fouled.  If this is the case,
         # then retraining is the only recovery option.
-- 
2.43.0


From 89478e7d671e9847a98ca1f73e170f04a26f9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 22/83] fix: keep the headers and the payload of a message when
 it is copied

---
 sbclassifier/message.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 3e3c9d4..cd36207 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -72,6 +72,7 @@ To Do:
 __author__ = "Tim Stone <tim@fourstonesExpressions.com>"
 __credits__ = "Mark Hammond, Tony Meyer, all the spambayes contributors."
 
+import copy
 import email
 from email.generator import Generator
 from email.header import Header
@@ -324,6 +325,14 @@ class Message(_Message):
     def __setstate__(self, t):
         (self.messageid, self.c, self.t) = t
 
+    def __deepcopy__(self, memo):
+        # The headers and the payload are not in the persistent state, but a
+        # copy has them. The email package needs one to generate some messages.
+        result = type(self)()
+        memo[id(self)] = result
+        result.__dict__.update(copy.deepcopy(self.__dict__, memo))
+        return result
+
     # def setPayload(self, payload):
     #     """DEPRECATED.
     #     """
-- 
2.43.0


From 40f041c07b3fbe93d8d99c8e6eacf1197ad04c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 23/83] fix: remove the notations that were asked for with the
 other headers

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index cd36207..0303ace 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -567,7 +567,7 @@ class Message(_Message):
             del self[name]
         # Also delete notations - typically this is called just before
         # training, and we don't want them there for that.
-        self.remove_notations(remove_to_notations, remove_subject_notations)
+        self.remove_notations(remove_subject_notations, remove_to_notations)
 
 
 # Utility function to insert an exception header into the given RFC822 text.
-- 
2.43.0


From 4c8d56565ac25a713056f4124fc0e99c6b32ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 24/83] fix: do not add an id header to a message that has no
 id

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 0303ace..34166d5 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -460,7 +460,7 @@ class Message(_Message):
                         lineLength = 8
             self[headerName] = "".join(wrappedEvd)
 
-        if add_unique_id:
+        if add_unique_id and self.messageid is not None:
             self[MAILID_HEADER_NAME] = self.messageid
 
         self.add_notations(notate_to or (), notate_subject or ())
-- 
2.43.0


From bb8d9117f40292478ae0ac6b1e1a6d818be38493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 25/83] fix: remove the notation of a message that had no
 recipients

---
 sbclassifier/message.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 34166d5..e06c145 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -538,6 +538,10 @@ class Message(_Message):
                         self.replace_header("To", to[len(disp):])
                         # Only remove one, maximum.
                         break
+                    if to == disp.rstrip(','):
+                        # There was no such header before the notation.
+                        del self["To"]
+                        break
 
     def current_sb_headers(self):
         """Return a dictionary containing the current values of the SpamBayes
-- 
2.43.0


From 46c83ca3189fdf229f100ab471f15c3137b5d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 26/83] fix: notate headers that contain raw 8-bit data without
 losing it

---
 sbclassifier/message.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index e06c145..854cd99 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -465,6 +465,19 @@ class Message(_Message):
 
         self.add_notations(notate_to or (), notate_subject or ())
 
+    def _raw(self, name):
+        """Returns the value of the first header with this name as it is in the
+        message.
+
+        A header that contains raw 8-bit data cannot be read in any other way
+        without losing that data.
+
+        """
+        for key, value in self.raw_items():
+            if key.lower() == name.lower():
+                return value
+        return None
+
     def add_notations(self, notate_to, notate_subject):
         """Add the appropriate string to the subject: and/or to: header.
 
@@ -489,7 +502,8 @@ class Message(_Message):
             # to an invalid address, and add that.
             address = "{}@spambayes.invalid".format(self.c.name)
             try:
-                self.replace_header("To", "{},{}".format(address, self["To"]))
+                self.replace_header("To", "{},{}".format(address,
+                                                         self._raw("To")))
             except KeyError:
                 self["To"] = address
 
@@ -498,7 +512,7 @@ class Message(_Message):
         if self.c in notate_subject:
             try:
                 self.replace_header("Subject", "%s,%s" % (self.c.name,
-                                                          self["Subject"]))
+                                                          self._raw("Subject")))
             except KeyError:
                 self["Subject"] = self.c.name
 
@@ -516,7 +530,7 @@ class Message(_Message):
         See also [ 848365 ] Remove subject annotations from message review
                             page
         """
-        subject = self["Subject"]
+        subject = self._raw("Subject")
         if subject:
             ham = Classification.ham.name + ','
             spam = Classification.spam.name + ','
@@ -527,7 +541,7 @@ class Message(_Message):
                         self.replace_header("Subject", subject[len(disp):])
                         # Only remove one, maximum.
                         break
-        to = self["To"]
+        to = self._raw("To")
         if to:
             ham = "%s@spambayes.invalid," % (Classification.ham.name,)
             spam = "%s@spambayes.invalid," % (Classification.spam.name,)
-- 
2.43.0


From 27c1afd62e7e18379fcff99b4a3ef64763e41be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 27/83] fix: do not let a carriage return in an exception end
 its header

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 854cd99..5e76a3f 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -603,7 +603,7 @@ def insert_exception_header(string_msg, msg_id=None):
 
     # Build the header.  This will strip leading whitespace from
     # the lines, so we add a leading space to maintain indentation.
-    detailLines = details.strip().split('\n')
+    detailLines = CRLF_RE.split(details.strip())
     spacedDetails = '\n '.join(detailLines)
     headerName = 'X-Spambayes-Exception'
     header = Header(spacedDetails, header_name=headerName)
-- 
2.43.0


From f8846246c08997f8d49d4dfcb77eab54245dea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 28/83] fix: put an exception header after the other headers of
 a message without body

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 5e76a3f..6fcb81b 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -615,7 +615,7 @@ def insert_exception_header(string_msg, msg_id=None):
         headers, body = re.split(r'\n\r?\n', string_msg, 1)
     except ValueError:
         # No body - this is a bad message!
-        headers = string_msg
+        headers = re.sub(r'\r?\n\Z', '', string_msg)
         body = ""
     header = re.sub(r'\r?\n', '\r\n', str(header))
     headers += "\n%s: %s\r\n" % (headerName, header)
-- 
2.43.0


From e92f1ffbc223f328ce64f2bdf4b10b3981ce71ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 29/83] fix: ignore an id header that contains raw 8-bit data

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 6fcb81b..ab65b0a 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -346,7 +346,7 @@ class Message(_Message):
     def set_id_from_payload(self):
         try:
             self.set_id(self[MAILID_HEADER_NAME])
-        except ValueError:
+        except (TypeError, ValueError):
             return None
         return self.messageid
 
-- 
2.43.0


From cc2e986cab28874883b5c85f5fefbd675a6e7724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 30/83] fix: crack the names of attached and uuencoded files

---
 sbclassifier/strippers.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index c746c89..1ba433a 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -94,17 +94,22 @@ def log2(n, log=math.log, c=math.log(2)):
     return log(n)/c
 
 
+def to_bytes(s):
+    return s if isinstance(s, bytes) else bytes(s, 'utf-8', 'surrogatepass')
+
+
 def crack_filename(fname):
-    yield "fname:" + fname
+    fname = to_bytes(fname)
+    yield b"fname:" + fname
     components = fname_sep_re.split(fname)
     morethan1 = len(components) > 1
     for component in components:
         if morethan1:
-            yield "fname comp:" + component
+            yield b"fname comp:" + component
         pieces = urlsep_re.split(component)
         if len(pieces) > 1:
             for piece in pieces:
-                yield "fname piece:" + piece
+                yield b"fname piece:" + piece
 
 
 def crack_content_xyz(msg):
@@ -132,7 +137,7 @@ def crack_content_xyz(msg):
         fname = msg.get_filename()
         if fname is not None:
             for x in crack_filename(fname):
-                yield 'filename:' + x
+                yield b'filename:' + x
     except TypeError:
         # bug in email pkg?  see the thread beginning at
         # http://mail.python.org/pipermail/spambayes/2003-September/008006.html
@@ -215,8 +220,8 @@ class UUencodeStripper(Stripper):
 
     def tokenize(self, m):
         mode, fname = m.groups()
-        return (['uuencode mode:%s' % mode] +
-                ['uuencode:%s' % x for x in crack_filename(fname)])
+        return ([b'uuencode mode:' + mode] +
+                [b'uuencode:' + x for x in crack_filename(fname)])
 
 
 class URLStripper(Stripper):
-- 
2.43.0


From aa25a84adcba51ea87da953c60db089e08b499e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 31/83] fix: convert tokens that contain surrogates to bytes

---
 sbclassifier/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 3260f78..20be4ee 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -29,6 +29,7 @@ from sbclassifier.strippers import StyleStripper
 from sbclassifier.strippers import CommentStripper
 from sbclassifier.strippers import NoframesStripper
 from sbclassifier.strippers import crack_content_xyz
+from sbclassifier.strippers import to_bytes
 from sbclassifier.iputils import gen_dotted_quad_clues
 
 #: If true, tokenizer.Tokenizer.tokenize_headers() will tokenize the contents
@@ -780,7 +781,7 @@ def convert_to_bytes(f):
     """
     def converted_f(*args, **kw):
         for x in f(*args, **kw):
-            yield x if isinstance(x, bytes) else bytes(x, 'utf-8')
+            yield to_bytes(x)
     return converted_f
 
 
-- 
2.43.0


From 633f799a1e4e0cc641a42521711b42ba48e8a47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 32/83] fix: tokenize bodies that contain HTML tags, entities
 or virus clues

---
 sbclassifier/tokenizer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 20be4ee..4a1e04d 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1093,9 +1093,9 @@ numeric_entity_re = re.compile(rb'&#(\d+);')
 
 def numeric_entity_replacer(m):
     try:
-        return chr(int(m.group(1)))
+        return bytes(chr(int(m.group(1))), 'utf-8')
     except:
-        return '?'
+        return b'?'
 
 
 breaking_entity_re = re.compile(rb"""
@@ -1531,7 +1531,7 @@ class Tokenizer:
                 text = text.translate(non_ascii_translate_tab)
 
             for t in find_html_virus_clues(text):
-                yield "virus:%s" % t
+                yield b"virus:" + t
 
             # Get rid of uuencoded sections, embedded URLs, <style gimmicks,
             # and HTML comments.
@@ -1546,7 +1546,7 @@ class Tokenizer:
 
             # Remove HTML/XML tags.  Also &nbsp;.  <br> and <p> tags should
             # create a space too.
-            text = breaking_entity_re.sub(' ', text)
+            text = breaking_entity_re.sub(b' ', text)
             # It's important to eliminate HTML tags rather than, e.g.,
             # replace them with a blank (as this code used to do), else
             # simple tricks like
@@ -1554,7 +1554,7 @@ class Tokenizer:
             # can be used to disguise words.  <br> and <p> were special-
             # cased just above (because browsers break text on those,
             # they can't be used to hide words effectively).
-            text = html_re.sub('', text)
+            text = html_re.sub(b'', text)
 
             for t in self.tokenize_text(text):
                 yield t
-- 
2.43.0


From be59b22a67a29600e013e421458df75ff8dec87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 33/83] fix: tokenize long words

---
 sbclassifier/tokenizer.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 4a1e04d..e7a0e9f 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -865,18 +865,19 @@ def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
     n = _len(word)
     # Make sure this range matches in tokenize().
     if 3 <= n <= maxword:
-        yield word
+        yield to_bytes(word)
 
     elif n >= 3:
         # A long word.
+        word = to_bytes(word)
 
         # Don't want to skip embedded email addresses.
         # An earlier scheme also split up the y in x@y on '.'.  Not splitting
         # improved the f-n rate; the f-p rate didn't care either way.
-        if n < 40 and b'.' in word and word.count('@') == 1:
-            p1, p2 = word.split('@')
-            yield 'email name:' + p1
-            yield 'email addr:' + p2
+        if n < 40 and b'.' in word and word.count(b'@') == 1:
+            p1, p2 = word.split(b'@')
+            yield b'email name:' + p1
+            yield b'email addr:' + p2
 
         else:
             # There's value in generating a token indicating roughly how
@@ -885,13 +886,13 @@ def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
             # XXX Figure out why, and/or see if some other way of summarizing
             # XXX this info has greater benefit.
             if GENERATE_LONG_SKIPS:
-                yield "skip:%c %d" % (word[0], n // 10 * 10)
+                yield b"skip:%c %d" % (word[0], n // 10 * 10)
             if has_highbit_char(word):
                 hicount = 0
-                for i in map(ord, word):
+                for i in word:
                     if i >= 128:
                         hicount += 1
-                yield "8bit%%:%d" % round(hicount * 100.0 / len(word))
+                yield b"8bit%%:%d" % round(hicount * 100.0 / len(word))
 
 # Generate tokens for:
 #    Content-Type
@@ -1175,7 +1176,7 @@ class Tokenizer:
                     # Never found a match -- don't skip this.
                     for w in subject_word_re.findall(v):
                         for t in tokenize_word(w):
-                            yield "%s:%s" % (k, t)
+                            yield to_bytes(k) + b':' + t
             if basic_header_tokenize_only:
                 return
 
@@ -1233,7 +1234,7 @@ class Tokenizer:
             x = x.replace('\r', ' ')
             for w in subject_word_re.findall(x):
                 for t in tokenize_word(w):
-                    yield 'subject:' + t
+                    yield b'subject:' + t
             for w in punctuation_run_re.findall(x):
                 yield 'subject:' + w
 
-- 
2.43.0


From 79d12419df430ce145627679edffbb77c26f0522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 34/83] fix: tokenize subjects and names that are encoded

---
 sbclassifier/tokenizer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index e7a0e9f..c3fe1fe 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -785,6 +785,16 @@ def convert_to_bytes(f):
     return converted_f
 
 
+def to_text(s, charset):
+    """Returns the text of a part of a decoded header."""
+    if not isinstance(s, bytes):
+        return str(s)
+    try:
+        return str(s, charset or 'latin-1', 'replace')
+    except (LookupError, ValueError):
+        return str(s, 'latin-1')
+
+
 # textparts(msg) returns a set containing all the text components of msg.
 # There's no point decoding binary blobs (like images).  If a text/plain
 # and text/html part happen to have redundant content, it doesn't matter
@@ -1227,6 +1237,7 @@ class Tokenizer:
         except (binascii.Error, email.errors.HeaderParseError, ValueError):
             subjcharsetlist = [(x, 'invalid')]
         for x, subjcharset in subjcharsetlist:
+            x = to_text(x, subjcharset)
             if subjcharset is not None:
                 yield 'subjectcharset:' + subjcharset
             # this is a workaround for a bug in the csv module in Python
@@ -1263,6 +1274,7 @@ class Tokenizer:
                             ValueError):
                         subjcharsetlist = [(name, 'invalid')]
                     for name, charset in subjcharsetlist:
+                        name = to_text(name, charset)
                         yield "%s:name:%s" % (field, name.lower())
                         if charset is not None:
                             yield "%s:charset:%s" % (field, charset)
-- 
2.43.0


From b7dfea37d1b68ee554d8ec1d4170e258b8a551ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 35/83] fix: tokenize headers that contain raw 8-bit data or
 encoded parameters

---
 sbclassifier/strippers.py | 5 +++--
 sbclassifier/tokenizer.py | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 1ba433a..f48d098 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -5,6 +5,7 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+from email.utils import collapse_rfc2231_value
 import math
 import re
 import urllib
@@ -117,7 +118,7 @@ def crack_content_xyz(msg):
 
     x = msg.get_param('type')
     if x is not None:
-        yield 'content-type/type:' + x.lower()
+        yield 'content-type/type:' + collapse_rfc2231_value(x).lower()
 
     try:
         for x in msg.get_charsets(None):
@@ -131,7 +132,7 @@ def crack_content_xyz(msg):
 
     x = msg.get('content-disposition')
     if x is not None:
-        yield 'content-disposition:' + x.lower()
+        yield 'content-disposition:' + str(x).lower()
 
     try:
         fname = msg.get_filename()
diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index c3fe1fe..373c3cf 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1362,7 +1362,7 @@ class Tokenizer:
         for field in ('to', 'cc'):
             count = 0
             for addrs in msg.get_all(field, []):
-                count += len(addrs.split(','))
+                count += len(str(addrs).split(','))
             if count > 0:
                 yield '%s:2**%d' % (field, round(log2(count)))
 
@@ -1372,7 +1372,7 @@ class Tokenizer:
         #            rate isn't affected.
         for field in ('x-mailer',):
             prefix = field + ':'
-            x = msg.get(field, 'none').lower()
+            x = str(msg.get(field, 'none')).lower()
             yield prefix + ' '.join(x.split())
 
         # Received:
@@ -1403,7 +1403,7 @@ class Tokenizer:
 
         # Message-Id:  This seems to be a small win and should not
         # adversely affect a mixed source corpus so it's always enabled.
-        msgid = msg.get("message-id", "")
+        msgid = str(msg.get("message-id", ""))
         m = message_id_re.match(msgid)
         if m:
             # looks okay, return the hostname
-- 
2.43.0


From e68b56b81aef85e954e558e2dd019ebc59022f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 36/83] fix: lose the trailing punctuation of embedded URLs

---
 sbclassifier/strippers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index f48d098..5055bf1 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -305,7 +305,7 @@ class URLStripper(Stripper):
         #     The code is at http://mystuff.org/here?  Didn't resolve.
         # or
         #     I found it at http://mystuff.org/there/.  Thanks!
-        guts.rstrip(b'.:?!/')
+        guts = guts.rstrip(b'.:?!/')
         for piece in guts.split(b'/'):
             for chunk in urlsep_re.split(piece):
                 pushclue(b"url:" + chunk)
-- 
2.43.0


From d57e0bba4dec49be4eb4febba557bd3ade2ba01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 37/83] fix: tokenize the text parts of a message in order

---
 sbclassifier/tokenizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 373c3cf..f45f489 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -795,15 +795,15 @@ def to_text(s, charset):
         return str(s, 'latin-1')
 
 
-# textparts(msg) returns a set containing all the text components of msg.
+# textparts(msg) returns a list of all the text components of msg, in order.
 # There's no point decoding binary blobs (like images).  If a text/plain
 # and text/html part happen to have redundant content, it doesn't matter
 # to results, since training and scoring are done on the set of all
 # words in the msg, without regard to how many times a given word appears.
 def textparts(msg):
-    """Return a set of all msg parts with content maintype 'text'."""
-    return set([part for part in msg.walk()
-                if part.get_content_maintype() == 'text'])
+    """Return a list of all msg parts with content maintype 'text'."""
+    return [part for part in msg.walk()
+            if part.get_content_maintype() == 'text']
 
 
 def octetparts(msg):
-- 
2.43.0


From 68870e7b865fce16df1210d75d687825ea958a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 38/83] fix: heed the options given to the tokenizer

---
 sbclassifier/tokenizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index f45f489..a86c7c2 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1141,8 +1141,9 @@ class Tokenizer:
                  basic_header_tokenize_only=BASIC_HEADER_TOKENIZE_ONLY):
         if isinstance(message, str):
             message = email.message_from_string(message)
-        return itertools.chain(self.tokenize_headers(message),
-                               self.tokenize_body(message))
+        headers = self.tokenize_headers(message, basic_header_tokenize,
+                                        basic_header_tokenize_only)
+        return itertools.chain(headers, self.tokenize_body(message))
 
     def tokenize_headers(self, msg,
                          basic_header_tokenize=BASIC_HEADER_TOKENIZE,
@@ -1184,7 +1185,7 @@ class Tokenizer:
                         break   # do nothing -- we're supposed to skip this
                 else:
                     # Never found a match -- don't skip this.
-                    for w in subject_word_re.findall(v):
+                    for w in subject_word_re.findall(str(v)):
                         for t in tokenize_word(w):
                             yield to_bytes(k) + b':' + t
             if basic_header_tokenize_only:
-- 
2.43.0


From 8b145256807d4da885ab91664fc335d22d2752ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 39/83] fix: heed the prefix lengths given for subnets

---
 sbclassifier/iputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/iputils.py b/sbclassifier/iputils.py
index 7a16984..bb7b639 100644
--- a/sbclassifier/iputils.py
+++ b/sbclassifier/iputils.py
@@ -28,4 +28,4 @@ def subnets(address, prefix_lengths=None):
     #     net = lambda n: ip_network((address, n), strict=False)
     #
     net = lambda n: ip_network('{}/{}'.format(address, n), strict=False)
-    return (net(num_bits) for num_bits in (8, 16, 24, 32))
+    return (net(num_bits) for num_bits in prefix_lengths)
-- 
2.43.0


From b8a57af4e0b6004a48dc600252f8e462cb5df4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 40/83] fix: take a name that does not resolve for a name
 without addresses

---
 sbclassifier/dnsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/dnsutils.py b/sbclassifier/dnsutils.py
index 38b050e..72f7c04 100644
--- a/sbclassifier/dnsutils.py
+++ b/sbclassifier/dnsutils.py
@@ -14,7 +14,7 @@ def timed(f):
             old_timeout = socket.getdefaulttimeout()
             socket.setdefaulttimeout(DEFAULT_TIMEOUT)
             return f(*args, **kw)
-        except socket.timeout:
+        except (socket.timeout, socket.gaierror):
             return ()
         finally:
             socket.setdefaulttimeout(old_timeout)
-- 
2.43.0


From 6a6ff8eb4c1da4ecc9917c6b67427619f75603b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 41/83] fix: mine the NNTP posting hosts of messages that have
 any

---
 sbclassifier/tokenizer.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index a86c7c2..3cee897 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1587,15 +1587,17 @@ class Tokenizer:
 # there are useful clues awaiting extractiotn from this header.
 def mine_nntp(msg):
     nntp_headers = msg.get_all("nntp-posting-host", ())
-    for address in nntp_headers:
+    clues = []
+    for address in map(str, nntp_headers):
         # Determine if the address is an IP address or a host name.
         try:
             address = ipaddress.ip_address(address)
             # If we have reached this point, then we have an IP address.
-            return clues_from_ipaddress(address)
+            clues.extend(clues_from_ipaddress(address))
         except ValueError:
             # If we have reached this point, then we have a domain name.
-            return clues_from_domainname(address)
+            clues.extend(clues_from_domainname(address))
+    return clues
 
 
 def top_two(name):
@@ -1612,7 +1614,7 @@ def top_two(name):
 
 def clues_from_ipaddress(address):
     ip_clues = gen_dotted_quad_clues('nntp-host', address)
-    names = reverse_dns_lookup(address)
+    names = reverse_dns_lookup(str(address))
     host_clues = []
     if names:
         host_clues = ['nntp-host-ip:has-reverse',
@@ -1629,9 +1631,10 @@ def clues_from_domainname(name):
     if addresses:
         # For the sake of brevity, rename this function.
         chain = itertools.chain.from_iterable
-        ip_clues = chain(gen_dotted_quad_clues('nntp-host-ip', address)
-                         for address in addresses)
-        if reverse_dns_lookup(addresses[0], qType='PTR') == name:
+        addresses = sorted(addresses)
+        ip_clues = list(chain(gen_dotted_quad_clues('nntp-host-ip', address)
+                              for address in addresses))
+        if name in reverse_dns_lookup(addresses[0]):
             ip_clues.append('nntp-host-ip:has-reverse')
     return itertools.chain(host_clues, ip_clues)
 
-- 
2.43.0


From 558ceec0331ad927b8860daffea291d71175c03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 42/83] fix: take a malformed name for a name without addresses

---
 sbclassifier/dnsutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/dnsutils.py b/sbclassifier/dnsutils.py
index 72f7c04..b34482d 100644
--- a/sbclassifier/dnsutils.py
+++ b/sbclassifier/dnsutils.py
@@ -14,7 +14,8 @@ def timed(f):
             old_timeout = socket.getdefaulttimeout()
             socket.setdefaulttimeout(DEFAULT_TIMEOUT)
             return f(*args, **kw)
-        except (socket.timeout, socket.gaierror):
+        except (socket.timeout, socket.gaierror, ValueError):
+            # A name that is not well-formed is a value error.
             return ()
         finally:
             socket.setdefaulttimeout(old_timeout)
-- 
2.43.0


From f0542b101ecb139b9edf3dafb10d6c265e63d50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 43/83] fix: let the slurping classifier learn and score
 messages

---
 sbclassifier/classifiers/slurping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 1b6f60e..b0b7ddd 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -171,8 +171,8 @@ class SlurpingClassifier(Classifier):
 
         # If necessary, enhance it with the tokens from whatever is
         # at the URL's destination.
-        needs_to_slurp = all(len(clues) < MAX_DISCRIMINATORS, is_unsure(prob),
-                             slurp_wordstream)
+        needs_to_slurp = all([len(clues) < MAX_DISCRIMINATORS,
+                              is_unsure(prob), slurp_wordstream])
         if needs_to_slurp:
             slurp_tokens = list(self._generate_slurp())
             slurp_tokens.extend([w for (w, _p) in clues])
@@ -221,9 +221,9 @@ class SlurpingClassifier(Classifier):
             logging.debug("Creating URL cache directory")
             os.makedirs(dir)
 
-        self.urlCorpus = ExpiryFileCorpus(age, dir, cacheSize=20)
+        self.urlCorpus = ExpiryFileCorpus(age, dir, cache_size=20)
         # Kill any old information in the cache
-        self.urlCorpus.removeExpiredMessages()
+        self.urlCorpus.remove_expired_messages()
 
         # Setup caches for unretrievable urls
         self.bad_url_cache_name = os.path.join(dir, "bad_urls.pck")
-- 
2.43.0


From 390ad79789c8fa1230b495061ffce1a64c234296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 44/83] fix: remember the URL of a message that is to be
 slurped

---
 sbclassifier/classifiers/slurping.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index b0b7ddd..63d505b 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -110,7 +110,7 @@ def is_unsure(probability):
     return HAM_CUTOFF < probability < SPAM_CUTOFF
 
 
-def base_url(self, url):
+def base_url(url):
     # To try and speed things up, and to avoid following
     # unique URLS, we convert the URL to as basic a form
     # as we can - so http://www.massey.ac.nz/~tameyer/index.html?you=me
@@ -136,6 +136,7 @@ class SlurpingURLStripper(URLStripper):
         # If there are no URLS, then we need to clear the
         # wordstream, or whatever was there from the last message
         # will be used.
+        global slurp_wordstream
         slurp_wordstream = None
         # Continue as normal.
         return URLStripper.analyze(self, text)
@@ -143,19 +144,19 @@ class SlurpingURLStripper(URLStripper):
     def tokenize(self, m):
         # XXX Note that the 'slurped' tokens are *always* trained
         # XXX on; it would be simple to change/parameterize this.
+        global slurp_wordstream
         tokens = URLStripper.tokenize(self, m)
         # if not options["URLRetriever", "x-slurp_urls"]:
         #     return tokens
 
         proto, guts = m.groups()
-        if proto != "http":
+        if proto != b"http":
             return tokens
 
         assert guts
-        while guts and guts[-1] in '.:;?!/)':
-            guts = guts[:-1]
+        guts = guts.rstrip(b'.:;?!/)')
 
-        slurp_wordstream = (proto, guts)
+        slurp_wordstream = (str(proto, 'latin-1'), str(guts, 'latin-1'))
         return tokens
 
 
-- 
2.43.0


From bea0216d4feaaa98264cf95d98425fb8085df97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 45/83] fix: slurp the page at a URL and cache it as a message

---
 sbclassifier/classifiers/slurping.py | 41 ++++++++++++++--------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 63d505b..8b11c0c 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -5,7 +5,6 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
-from email import message_from_string
 import itertools
 import logging
 import os
@@ -19,14 +18,15 @@ from sbclassifier.classifiers.basic import MAX_DISCRIMINATORS
 from sbclassifier.classifiers.constants import HAM_CUTOFF
 from sbclassifier.classifiers.constants import SPAM_CUTOFF
 from sbclassifier.corpora.filesystem import ExpiryFileCorpus
+from sbclassifier.message import from_bytes as message_from_bytes
 #from sbclassifier.corpora.filesystem import FileMessageFactory
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
 from sbclassifier.tokenizer import tokenize
+from sbclassifier.strippers import to_bytes
 from sbclassifier.strippers import URLStripper
 
 DOMAIN_AND_PORT_RE = re.compile(r"([^:/\\]+)(:([\d]+))?")
-HTTP_ERROR_RE = re.compile(r"HTTP Error ([\d]+)")
 URL_KEY_RE = re.compile(r"[\W]")
 
 #: The username to give to the HTTP proxy when required.  If a username is
@@ -207,7 +207,8 @@ class SlurpingClassifier(Classifier):
             if slurp_wordstream:
                 self.do_slurp = False
 
-                tokens = self.slurp(*slurp_wordstream)
+                tokens = [to_bytes(token)
+                          for token in self.slurp(*slurp_wordstream)]
                 self.do_slurp = True
                 self._save_caches()
                 return tokens
@@ -291,7 +292,7 @@ class SlurpingClassifier(Classifier):
             if url in self.bad_urls[err]:
                 return [err]
         if url in self.http_error_urls:
-            return self.http_error_urls[url]
+            return [self.http_error_urls[url]]
 
         # We check if the url will resolve first
         mo = DOMAIN_AND_PORT_RE.match(url)
@@ -323,16 +324,20 @@ class SlurpingClassifier(Classifier):
             url_with_proto = '{}://{}'.format(proto, url)
             proxy_info = (PROXY_USERNAME, PROXY_PASSWORD, PROXY_SERVER,
                           PROXY_PORT)
-            proxies = dict(http='http://{}:{}@{}:{}'.format(*proxy_info))
+            proxies = {}
+            if PROXY_SERVER:
+                proxies['http'] = 'http://{}:{}@{}:{}'.format(*proxy_info)
             logging.debug("Slurping %s", url)
             try:
                 f = requests.get(url_with_proto, proxies=proxies,
                                  timeout=REQUEST_TIMEOUTS)
+                f.raise_for_status()
             except requests.exceptions.RequestException as exception:
-                mo = HTTP_ERROR_RE.match(str(exception))
-                if mo:
-                    self.http_error_urls[url] = "url:http_" + mo.group(1)
-                    return ["url:http_" + mo.group(1)]
+                response = exception.response
+                if response is not None:
+                    self.http_error_urls[url] = ("url:http_%d" %
+                                                 response.status_code)
+                    return [self.http_error_urls[url]]
                 self.bad_urls["url:unknown_error"] += (url,)
                 return ["url:unknown_error"]
 
@@ -343,19 +348,15 @@ class SlurpingClassifier(Classifier):
                 self.bad_urls["url:non_html"] += (url,)
                 return ["url:non_html"]
 
-            fake_message_string = str(f.headers) + "\r\n" + f.text
+            headers = ''.join('{}: {}\r\n'.format(*header)
+                              for header in f.headers.items())
+            headers = bytes(headers + '\r\n', 'utf-8')
 
             # Retrieving the same messages over and over again will tire
             # us out, so we store them in our own wee cache.
-            message = self.urlCorpus.makeMessage(url_key,
-                                                 fake_message_string)
-            self.urlCorpus.addMessage(message)
-        else:
-            fake_message_string = cached_message.as_string()
-
-        msg = message_from_string(fake_message_string)
+            cached_message = message_from_bytes(headers + f.content, url_key)
+            self.urlCorpus.add_message(cached_message)
 
-        tokens = tokenize(msg, basic_header_tokenize=True,
+        tokens = tokenize(cached_message, basic_header_tokenize=True,
                           basic_header_tokenize_only=True)
-        tokens = ['{}{}'.format(X_WEB_PREFIX, tok) for tok in tokens]
-        return tokens
+        return [bytes(X_WEB_PREFIX, 'utf-8') + tok for tok in tokens]
-- 
2.43.0


From 2090edea28a1c51eff72e22ded4c2fec69139948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 46/83] fix: do not fail on a message whose URL is malformed or
 long

---
 sbclassifier/classifiers/slurping.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 8b11c0c..90a2d50 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -5,6 +5,7 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+import hashlib
 import itertools
 import logging
 import os
@@ -296,6 +297,8 @@ class SlurpingClassifier(Classifier):
 
         # We check if the url will resolve first
         mo = DOMAIN_AND_PORT_RE.match(url)
+        if mo is None:
+            return ["url:non_resolving"]
         domain = mo.group(1)
         if mo.group(3) is None:
             port = 80
@@ -303,13 +306,16 @@ class SlurpingClassifier(Classifier):
             port = mo.group(3)
         try:
             socket.getaddrinfo(domain, port)
-        except OSError:
+        except (OSError, ValueError):
             self.bad_urls["url:non_resolving"] += (url,)
             return ["url:non_resolving"]
 
         # If the message is in our cache, then we can just skip over
         # retrieving it from the network, and get it from there, instead.
         url_key = URL_KEY_RE.sub('_', url)
+        if len(url_key) > 128:
+            # This would be too long for the name of a file.
+            url_key = hashlib.sha1(to_bytes(url)).hexdigest()
         cached_message = self.urlCorpus.get(url_key)
 
         if cached_message is None:
-- 
2.43.0


From 51c7a6f4bcf66daf38915100271f5548bff36609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 47/83] fix: report a truncated cdb database

---
 sbclassifier/cdb.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sbclassifier/cdb.py b/sbclassifier/cdb.py
index 0666e4e..09262b6 100644
--- a/sbclassifier/cdb.py
+++ b/sbclassifier/cdb.py
@@ -46,6 +46,13 @@ class Cdb(object):
         self.size = os.fstat(fd).st_size
         self.map = mmap.mmap(fd, self.size, access=mmap.ACCESS_READ)
         self.eod = uint32_unpack(self.map[:4])
+        # The header holds the position and the length of each hash table. The
+        # last byte of the last table is the last byte of the file.
+        header = struct.unpack('<512L', self.map[:2048])
+        if any(pos + 8 * nslots > self.size
+               for pos, nslots in zip(header[::2], header[1::2])):
+            self.map.close()
+            raise ValueError('the database is truncated')
         self.findstart()
         self.loop = 0  # number of hash slots searched under this key
         # initialized if loop is nonzero
-- 
2.43.0


From cfa0070a95f8b1bb0ca966821b3f065e5d6bf656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 48/83] fix: report a cdb database in a directory that cannot
 be searched

---
 sbclassifier/classifiers/storage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 04e4bd8..74f58d7 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -650,8 +650,12 @@ class CDBClassifier(StoredClassifierBase):
     #     return s
 
     def load(self):
-        if os.path.exists(self.filename):
-            with open(self.filename, 'rb') as fp:
+        try:
+            fp = open(self.filename, 'rb')
+        except FileNotFoundError:
+            fp = None
+        if fp is not None:
+            with fp:
                 data = cdb.Cdb(fp)
                 items = [(str(k, 'utf-8'), str(v, 'utf-8'))
                          for k, v in data.items()]
-- 
2.43.0


From da93c051da5a5de760b129cd517dd776bd1fc6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 49/83] fix: tokenize a message with contradictory parameters

---
 sbclassifier/strippers.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 5055bf1..1b1ed51 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -116,9 +116,14 @@ def crack_filename(fname):
 def crack_content_xyz(msg):
     yield 'content-type:' + msg.get_content_type()
 
-    x = msg.get_param('type')
-    if x is not None:
-        yield 'content-type/type:' + collapse_rfc2231_value(x).lower()
+    try:
+        x = msg.get_param('type')
+        if x is not None:
+            yield 'content-type/type:' + collapse_rfc2231_value(x).lower()
+    except TypeError:
+        # The email package fails on a parameter that is given both in pieces
+        # and in one piece; see also below.
+        yield 'content-type/type:<bogus>'
 
     try:
         for x in msg.get_charsets(None):
@@ -129,6 +134,8 @@ def crack_content_xyz(msg):
         # See [ 1175439 ] UnicodeEncodeError raised for bogus Content-Type
         #                 header
         yield 'charset:invalid_unicode'
+    except TypeError:
+        yield 'charset:<bogus>'
 
     x = msg.get('content-disposition')
     if x is not None:
-- 
2.43.0


From 7df53631787b900406cd0900fcf9b9fd5a1986aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 50/83] fix: remove a notation in a header that was folded in
 front of it

---
 sbclassifier/message.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index ab65b0a..fb02dee 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -535,10 +535,12 @@ class Message(_Message):
             ham = Classification.ham.name + ','
             spam = Classification.spam.name + ','
             unsure = Classification.unsure.name + ','
+            # A long header may have been folded in front of the notation.
+            text = subject.lstrip()
             if remove_subject_notations:
                 for disp in (ham, spam, unsure):
-                    if subject.startswith(disp):
-                        self.replace_header("Subject", subject[len(disp):])
+                    if text.startswith(disp):
+                        self.replace_header("Subject", text[len(disp):])
                         # Only remove one, maximum.
                         break
         to = self._raw("To")
@@ -546,13 +548,14 @@ class Message(_Message):
             ham = "%s@spambayes.invalid," % (Classification.ham.name,)
             spam = "%s@spambayes.invalid," % (Classification.spam.name,)
             unsure = "%s@spambayes.invalid," % (Classification.unsure.name,)
+            text = to.lstrip()
             if remove_to_notations:
                 for disp in (ham, spam, unsure):
-                    if to.startswith(disp):
-                        self.replace_header("To", to[len(disp):])
+                    if text.startswith(disp):
+                        self.replace_header("To", text[len(disp):])
                         # Only remove one, maximum.
                         break
-                    if to == disp.rstrip(','):
+                    if text == disp.rstrip(','):
                         # There was no such header before the notation.
                         del self["To"]
                         break
-- 
2.43.0


From d958abf8355e5d702f5170a6aaa4c110de74c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 51/83] fix: a shallow copy of a message has its headers and
 payload

---
 sbclassifier/message.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index fb02dee..e35921d 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -325,6 +325,11 @@ class Message(_Message):
     def __setstate__(self, t):
         (self.messageid, self.c, self.t) = t
 
+    def __copy__(self):
+        result = type(self)()
+        result.__dict__.update(self.__dict__)
+        return result
+
     def __deepcopy__(self, memo):
         # The headers and the payload are not in the persistent state, but a
         # copy has them. The email package needs one to generate some messages.
-- 
2.43.0


From a1a50ab979a83a6ef2ba804d7e03f85ac419c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 52/83] fix: add an exception header to a message without
 headers

---
 sbclassifier/message.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index e35921d..c9c5916 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -620,13 +620,15 @@ def insert_exception_header(string_msg, msg_id=None):
     # otherwise we might keep doing this message over and over again.
     # We also ensure that the line endings are /r/n as RFC822 requires.
     try:
-        headers, body = re.split(r'\n\r?\n', string_msg, 1)
+        headers, body = re.split(r'(?:\A|\n)\r?\n', string_msg, 1)
     except ValueError:
         # No body - this is a bad message!
         headers = re.sub(r'\r?\n\Z', '', string_msg)
         body = ""
     header = re.sub(r'\r?\n', '\r\n', str(header))
-    headers += "\n%s: %s\r\n" % (headerName, header)
+    if headers:
+        headers += "\n"
+    headers += "%s: %s\r\n" % (headerName, header)
     if msg_id:
         headers += "%s: %s\r\n" % \
                    (MAILID_HEADER_NAME, msg_id)
-- 
2.43.0


From dca06907e302e88c1769eecc08b041b6898c6bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 53/83] fix: mine received headers that contain raw 8-bit data

---
 sbclassifier/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 3cee897..fca7e0d 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1383,7 +1383,7 @@ class Tokenizer:
                 # everything here should be case insensitive and not be
                 # split across continuation lines, so normalize whitespace
                 # and letter case just once per header
-                header = ' '.join(header.split()).lower()
+                header = ' '.join(str(header).split()).lower()
 
                 for clue in received_complaints_re.findall(header):
                     yield 'received:' + clue
-- 
2.43.0


From ecc38400ffbafadfc0dc3fc39140b4a882f32766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 54/83] fix: tokenize a message with deeply nested address
 groups or comments

---
 sbclassifier/tokenizer.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index fca7e0d..70427be 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -785,6 +785,15 @@ def convert_to_bytes(f):
     return converted_f
 
 
+def get_addresses(fields):
+    """Returns the pairs of name and address in the given header values."""
+    try:
+        return email.utils.getaddresses(fields)
+    except RecursionError:
+        # Groups or comments are nested too deeply.
+        return [('', '') for _ in fields]
+
+
 def to_text(s, charset):
     """Returns the text of a part of a decoded header."""
     if not isinstance(s, bytes):
@@ -1267,7 +1276,7 @@ class Tokenizer:
                 continue
 
             noname_count = 0
-            for name, addr in email.utils.getaddresses(addrlist):
+            for name, addr in get_addresses(addrlist):
                 if name:
                     try:
                         subjcharsetlist = email.header.decode_header(name)
@@ -1307,7 +1316,7 @@ class Tokenizer:
         if SUMMARIZE_EMAIL_PREFIXES:
             all_addrs = []
             addresses = msg.get_all('to', []) + msg.get_all('cc', [])
-            for name, addr in email.utils.getaddresses(addresses):
+            for name, addr in get_addresses(addresses):
                 all_addrs.append(addr.lower())
 
             if len(all_addrs) > 1:
@@ -1334,7 +1343,7 @@ class Tokenizer:
         if SUMMARIZE_EMAIL_SUFFIXES:
             all_addrs = []
             addresses = msg.get_all('to', []) + msg.get_all('cc', [])
-            for name, addr in email.utils.getaddresses(addresses):
+            for name, addr in get_addresses(addresses):
                 # flip address code so following logic is the same as
                 # that for prefixes
                 addr = list(addr)
-- 
2.43.0


From 36360a3a281e29e62f1fefb166d9616902d71957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 55/83] fix: tokenize octet parts in their order in the message

---
 sbclassifier/tokenizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 70427be..ccbe867 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -816,9 +816,9 @@ def textparts(msg):
 
 
 def octetparts(msg):
-    """Return a set of all msg parts with type 'application/octet-stream'."""
-    return set([part for part in msg.walk()
-                if part.get_content_type() == 'application/octet-stream'])
+    """Return a list of all msg parts with type 'application/octet-stream'."""
+    return [part for part in msg.walk()
+            if part.get_content_type() == 'application/octet-stream']
 
 
 def imageparts(msg):
-- 
2.43.0


From 6c9a68ce6c77b6e6512ec4aa31d3a972eaef0402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 56/83] fix: learn the page at the URL of this message, not of
 the last one

---
 sbclassifier/classifiers/slurping.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 90a2d50..831e4b2 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -6,7 +6,6 @@
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
 import hashlib
-import itertools
 import logging
 import os
 import re
@@ -189,14 +188,15 @@ class SlurpingClassifier(Classifier):
     def learn(self, wordstream, is_spam):
         if self._use_bigrams:
             wordstream = self._enhance_wordstream(wordstream)
-        wordstream = itertools.chain(wordstream, self._generate_slurp())
-        self._add_msg(wordstream, is_spam)
+        # The URL is known only after the whole message has been tokenized.
+        wordstream = list(wordstream)
+        self._add_msg(wordstream + self._generate_slurp(), is_spam)
 
     def unlearn(self, wordstream, is_spam):
         if self._use_bigrams:
             wordstream = self._enhance_wordstream(wordstream)
-        wordstream = itertools.chain(wordstream, self._generate_slurp())
-        self._remove_msg(wordstream, is_spam)
+        wordstream = list(wordstream)
+        self._remove_msg(wordstream + self._generate_slurp(), is_spam)
 
     def _generate_slurp(self):
         # We don't want to do this recursively and check URLs
-- 
2.43.0


From 2d3741e1a81c8a9fddcbebc2ffca2588f3c80116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 57/83] fix: use the cached page even if its host does not
 resolve any more

---
 sbclassifier/classifiers/slurping.py | 30 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 831e4b2..449f772 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -295,21 +295,6 @@ class SlurpingClassifier(Classifier):
         if url in self.http_error_urls:
             return [self.http_error_urls[url]]
 
-        # We check if the url will resolve first
-        mo = DOMAIN_AND_PORT_RE.match(url)
-        if mo is None:
-            return ["url:non_resolving"]
-        domain = mo.group(1)
-        if mo.group(3) is None:
-            port = 80
-        else:
-            port = mo.group(3)
-        try:
-            socket.getaddrinfo(domain, port)
-        except (OSError, ValueError):
-            self.bad_urls["url:non_resolving"] += (url,)
-            return ["url:non_resolving"]
-
         # If the message is in our cache, then we can just skip over
         # retrieving it from the network, and get it from there, instead.
         url_key = URL_KEY_RE.sub('_', url)
@@ -319,6 +304,21 @@ class SlurpingClassifier(Classifier):
         cached_message = self.urlCorpus.get(url_key)
 
         if cached_message is None:
+            # We check if the url will resolve first
+            mo = DOMAIN_AND_PORT_RE.match(url)
+            if mo is None:
+                return ["url:non_resolving"]
+            domain = mo.group(1)
+            if mo.group(3) is None:
+                port = 80
+            else:
+                port = mo.group(3)
+            try:
+                socket.getaddrinfo(domain, port)
+            except (OSError, ValueError):
+                self.bad_urls["url:non_resolving"] += (url,)
+                return ["url:non_resolving"]
+
             # We're going to ignore everything that isn't text/html,
             # so we might as well not bother retrieving anything with
             # these extensions.
-- 
2.43.0


From 1197f28cf7525800dd9fba12f69a8faf60b9dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 58/83] fix: keep the URL of a message while the page at it is
 tokenized

---
 sbclassifier/classifiers/slurping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 449f772..54a8fb6 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -199,6 +199,7 @@ class SlurpingClassifier(Classifier):
         self._remove_msg(wordstream + self._generate_slurp(), is_spam)
 
     def _generate_slurp(self):
+        global slurp_wordstream
         # We don't want to do this recursively and check URLs
         # on webpages, so we have this little cheat.
         if not hasattr(self, "setup_done"):
@@ -208,8 +209,11 @@ class SlurpingClassifier(Classifier):
             if slurp_wordstream:
                 self.do_slurp = False
 
+                # Tokenizing the page finds the URLs on it.
+                saved_wordstream = slurp_wordstream
                 tokens = [to_bytes(token)
                           for token in self.slurp(*slurp_wordstream)]
+                slurp_wordstream = saved_wordstream
                 self.do_slurp = True
                 self._save_caches()
                 return tokens
-- 
2.43.0


From 32b3ce3a12aecc16a4d3a8908a1198f8e55073c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 59/83] fix: do not take the cached page of one URL for that of
 another

---
 sbclassifier/classifiers/slurping.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 54a8fb6..d1d6010 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -27,7 +27,6 @@ from sbclassifier.strippers import to_bytes
 from sbclassifier.strippers import URLStripper
 
 DOMAIN_AND_PORT_RE = re.compile(r"([^:/\\]+)(:([\d]+))?")
-URL_KEY_RE = re.compile(r"[\W]")
 
 #: The username to give to the HTTP proxy when required.  If a username is
 #: not necessary, simply leave blank.
@@ -301,10 +300,8 @@ class SlurpingClassifier(Classifier):
 
         # If the message is in our cache, then we can just skip over
         # retrieving it from the network, and get it from there, instead.
-        url_key = URL_KEY_RE.sub('_', url)
-        if len(url_key) > 128:
-            # This would be too long for the name of a file.
-            url_key = hashlib.sha1(to_bytes(url)).hexdigest()
+        # The key is the name of a file, and must differ for each URL.
+        url_key = hashlib.sha1(to_bytes(url)).hexdigest()
         cached_message = self.urlCorpus.get(url_key)
 
         if cached_message is None:
-- 
2.43.0


From de136a1c07d82d035faa8efdb12f0d8ba7acc555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:36 +0000
Subject: [PATCH 60/83] fix: forget the URL of the last message if this one has
 no text

---
 sbclassifier/tokenizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index ccbe867..38d1029 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1526,6 +1526,10 @@ class Tokenizer:
             for t in self.tokenize_text(text):
                 yield t
 
+        # A stripper that remembers the URLs it has found must forget those of
+        # the last message, even if this one has no text.
+        crack_urls(b'')
+
         # Find, decode (base64, qp), and tokenize textual parts of the body.
         for part in textparts(msg):
             # Decode, or take it as-is if decoding fails.
-- 
2.43.0


From 7efb1ef8d278a2b1184c779ecadf93644828d77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 61/83] fix: replace non-ASCII characters of a body, which is
 bytes

---
 sbclassifier/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 38d1029..25f3c87 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1010,7 +1010,7 @@ for ch in ' \t\r\n':
     non_ascii_translate_tab[ord(ch)] = ch
 del i, ch
 
-non_ascii_translate_tab = ''.join(non_ascii_translate_tab)
+non_ascii_translate_tab = ''.join(non_ascii_translate_tab).encode('ascii')
 
 # The base64 decoder is actually very forgiving, but flubs one case:
 # if no padding is required (no trailing '='), it continues to read
-- 
2.43.0


From a18d184fe40535f7bfd353e39284d9c851f0f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:13 +0000
Subject: [PATCH 62/83] fix: record the safe headers that are absent

---
 sbclassifier/tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 25f3c87..0665ba6 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1442,8 +1442,8 @@ class Tokenizer:
         for x in list(x2n.items()):
             yield "header:%s:%d" % x
         if RECORD_HEADER_ABSENCE:
-            for k in x2n:
-                if not k.lower() in SAFE_HEADERS:
+            for k in SAFE_HEADERS:
+                if k not in msg:
                     yield "noheader:" + k
 
     def tokenize_text(self, text, maxword=SKIP_MAX_WORD_SIZE):
-- 
2.43.0


From fb889331a3c51c4e3dd9e1cafbc8a16006b2b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 63/83] fix: skip the headers named in BASIC_HEADER_SKIP

---
 sbclassifier/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 0665ba6..7e7b8a0 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -47,7 +47,7 @@ BASIC_HEADER_TOKENIZE_ONLY = False
 
 #: If basic_header_tokenize is true, then basic_header_skip is a set of headers
 #: that should be skipped.
-BASIC_HEADER_SKIP = ("received date x-.*",)
+BASIC_HEADER_SKIP = ("received", "date", "x-.*")
 
 #: If true, the first few characters of application/octet-stream sections are
 #: used, undecoded.  What 'few' means is decided by octet_prefix_size.
-- 
2.43.0


From bba19d3159ac29c3b3d25d04d059acc09702e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 64/83] fix: recognize URLs without a protocol in a body, which
 is bytes

---
 sbclassifier/strippers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 1b1ed51..2fd96ab 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -245,12 +245,12 @@ class URLStripper(Stripper):
         proto, guts = m.groups()
         assert guts
         if proto is None:
-            if guts.lower().startswith("www"):
-                proto = "http"
-            elif guts.lower().startswith("ftp"):
-                proto = "ftp"
+            if guts.lower().startswith(b"www"):
+                proto = b"http"
+            elif guts.lower().startswith(b"ftp"):
+                proto = b"ftp"
             else:
-                proto = "unknown"
+                proto = b"unknown"
         tokens = [b"proto:" + proto]
         pushclue = tokens.append
 
-- 
2.43.0


From db1f27ca8b6df9a0eb2f609a59484c67a1f0dfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:57 +0000
Subject: [PATCH 65/83] fix: pick apart the URLs of a body, which is bytes

---
 sbclassifier/strippers.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 2fd96ab..9be0fc0 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -8,7 +8,7 @@
 from email.utils import collapse_rfc2231_value
 import math
 import re
-import urllib
+import urllib.parse
 
 # Tell SpamBayes where to cache IP address lookup information.
 # Only comes into play if lookup_ip is enabled. The default
@@ -255,30 +255,34 @@ class URLStripper(Stripper):
         pushclue = tokens.append
 
         if X_PICK_APART_URLS:
-            url = proto + "://" + guts
+            url = proto + b"://" + guts
 
-            escapes = re.findall(r'%..', guts)
+            escapes = re.findall(rb'%..', guts)
             # roughly how many %nn escapes are there?
             if escapes:
-                pushclue("url:%%%d" % int(log2(len(escapes))))
+                pushclue(b"url:%%%d" % int(log2(len(escapes))))
             # %nn escapes are usually intentional obfuscation.  Generate a
             # lot of correlated tokens if the URL contains a lot of them.
             # The classifier will learn which specific ones are and aren't
             # spammy.
-            tokens.extend(["url:" + escape for escape in escapes])
+            tokens.extend([b"url:" + escape for escape in escapes])
 
             # now remove any obfuscation and probe around a bit
-            url = urllib.parse.unquote(url)
-            scheme, netloc, path, params, query, frag = \
-                urllib.parse.urlparse(url)
+            url = urllib.parse.unquote_to_bytes(url)
+            try:
+                scheme, netloc, path, params, query, frag = \
+                    urllib.parse.urlparse(url.decode('latin-1'))
+            except ValueError:
+                # The host is malformed.
+                scheme = netloc = ''
 
             if X_LOOKUP_IP:
                 ips = cache.lookup(netloc)
                 if not ips:
-                    pushclue("url-ip:lookup error")
+                    pushclue(b"url-ip:lookup error")
                 else:
                     for clue in gen_dotted_quad_clues("url-ip", ips):
-                        pushclue(clue)
+                        pushclue(to_bytes(clue))
 
             # one common technique in bogus "please (re-)authorize yourself"
             # scams is to make it appear as if you're visiting a valid
@@ -293,20 +297,20 @@ class URLStripper(Stripper):
             # another website.
             user_pwd, host_port = urllib.parse.splituser(netloc)
             if user_pwd is not None:
-                pushclue("url:has user")
+                pushclue(b"url:has user")
 
             host, port = urllib.parse.splitport(host_port)
             # web servers listening on non-standard ports are suspicious ...
             if port is not None and (scheme == "http" and port != '80' or
                                      scheme == "https" and port != '443'):
-                    pushclue("url:non-standard %s port" % scheme)
+                    pushclue(to_bytes("url:non-standard %s port" % scheme))
 
             # ... as are web servers associated with raw ip addresses
-            if re.match("(\d+\.?){4,4}$", host) is not None:
-                pushclue("url:ip addr")
+            if re.match(r"(\d{1,16}\.?){4,4}$", host) is not None:
+                pushclue(b"url:ip addr")
 
             # make sure we later tokenize the unobfuscated url bits
-            proto, guts = url.split("://", 1)
+            proto, guts = url.split(b"://", 1)
 
         # Lose the trailing punctuation for casual embedding, like:
         #     The code is at http://mystuff.org/here?  Didn't resolve.
-- 
2.43.0


From ee2c3904b1c6bf6b167b3fffbb1ed8e0b34d41b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 66/83] fix: a classifier that was unpickled or copied could
 not be used

The state of a classifier did not tell whether it uses bigrams, and the
attribute was missing altogether afterwards.
---
 sbclassifier/classifiers/basic.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 3f27a9a..5c18115 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -200,13 +200,19 @@ class Classifier:
         self.nspam = 0
         self.nham = 0
 
+    # The state of a classifier does not tell about bigrams unless it uses them.
+    _use_bigrams = USE_BIGRAMS
+
     def __getstate__(self):
-        return (PICKLE_VERSION, self.wordinfo, self.nspam, self.nham)
+        state = (PICKLE_VERSION, self.wordinfo, self.nspam, self.nham)
+        return state + (True, ) if self._use_bigrams else state
 
     def __setstate__(self, t):
         if t[0] != PICKLE_VERSION:
             raise ValueError("Can't unpickle; version %s unknown".format(t[0]))
-        self.wordinfo, self.nspam, self.nham = t[1:]
+        self.wordinfo, self.nspam, self.nham = t[1:4]
+        if len(t) > 4:
+            self._use_bigrams = t[4]
         self._probcache = {}
 
     # Implementation note: Across vectors of length n, containing random
-- 
2.43.0


From dbe82687890dfbb023f3f662dfbdbe2b23af4383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 67/83] fix: an error or crash while a message was stored left
 a part of it as its file

---
 sbclassifier/corpora/caches.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index ec892ae..0c29c18 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -9,12 +9,17 @@ import fnmatch
 import logging
 import os
 import os.path
+import threading
 
 from sbclassifier.message import from_path
 
 #: Infinity; used to indicate no upper bound on the size of a cache.
 INFINITY = float('inf')
 
+#: Prefix of the names of the files that are being written by a
+#: :class:`FileCache`; these are not messages (yet).
+UNFINISHED = '.unfinished-'
+
 
 class Cache:
     """Interface definition for a cache.
@@ -132,12 +137,30 @@ class FileCache(NaiveCache):
 
     def _is_message(self, filename):
         return (os.path.isfile(os.path.join(self.directory, filename))
-                and fnmatch.fnmatch(filename, self.namefilter))
+                and fnmatch.fnmatch(filename, self.namefilter)
+                and not filename.startswith(UNFINISHED))
 
     def _is_filename(self, key):
         # A key such as '../x' would name a file outside of the directory.
         return (key not in ('', os.curdir, os.pardir)
-                and os.path.basename(key) == key)
+                and os.path.basename(key) == key
+                and not key.startswith(UNFINISHED))
+
+    def _write(self, filename, content):
+        # The file appears under its name only when it is complete, so that
+        # neither an error nor a crash leaves a part of a message there.
+        unfinished = os.path.join(self.directory, '{}{}-{}'.format(
+            UNFINISHED, os.getpid(), threading.get_ident()))
+        try:
+            with open(unfinished, 'wb') as f:
+                f.write(content)
+            os.replace(unfinished, os.path.join(self.directory, filename))
+        except BaseException:
+            try:
+                os.remove(unfinished)
+            except OSError:
+                pass
+            raise
 
     def _message_from_path(self, filename, *args, **kw):
         return from_path(os.path.join(self.directory, filename), *args, **kw)
@@ -177,8 +200,7 @@ class FileCache(NaiveCache):
         # A message that cannot be stored is not in this cache.
         content = value.as_bytes()
         logging.debug('Storing %s to file', key)
-        with open(os.path.join(self.directory, key), 'wb') as f:
-            f.write(content)
+        self._write(key, content)
         super().put(key, value)
 
     def get(self, key, default=None):
-- 
2.43.0


From fb48790736dc84e3d0508ebc052dc6d87a800921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 68/83] fix: an answer that requests cannot handle made
 following a link fail

---
 sbclassifier/classifiers/slurping.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index d1d6010..3a5680a 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -339,8 +339,10 @@ class SlurpingClassifier(Classifier):
                 f = requests.get(url_with_proto, proxies=proxies,
                                  timeout=REQUEST_TIMEOUTS)
                 f.raise_for_status()
-            except requests.exceptions.RequestException as exception:
-                response = exception.response
+            except (OSError, ValueError) as exception:
+                # Not every malformed answer or redirection leads to a
+                # RequestException (which is an OSError).
+                response = getattr(exception, 'response', None)
                 if response is not None:
                     self.http_error_urls[url] = ("url:http_%d" %
                                                  response.status_code)
-- 
2.43.0


From e32b8f9471b70a89afa138f8c0dbbdccdd4ceac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 69/83] fix: an error while a link was followed stopped all
 links from being followed

---
 sbclassifier/classifiers/slurping.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 3a5680a..fd94119 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -210,10 +210,12 @@ class SlurpingClassifier(Classifier):
 
                 # Tokenizing the page finds the URLs on it.
                 saved_wordstream = slurp_wordstream
-                tokens = [to_bytes(token)
-                          for token in self.slurp(*slurp_wordstream)]
-                slurp_wordstream = saved_wordstream
-                self.do_slurp = True
+                try:
+                    tokens = [to_bytes(token)
+                              for token in self.slurp(*slurp_wordstream)]
+                finally:
+                    slurp_wordstream = saved_wordstream
+                    self.do_slurp = True
                 self._save_caches()
                 return tokens
         return []
-- 
2.43.0


From 979cf032af6b8cef33e2e213bc2a93b9df554dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 70/83] fix: a damaged cache of unretrievable URLs made
 following links fail

---
 sbclassifier/classifiers/slurping.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index fd94119..1b972e2 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -11,6 +11,7 @@ import os
 import re
 import socket
 
+from lockfile import LockError
 import requests
 
 from sbclassifier.classifiers.basic import Classifier
@@ -239,7 +240,9 @@ class SlurpingClassifier(Classifier):
         if os.path.exists(self.bad_url_cache_name):
             try:
                 self.bad_urls = pickle_read(self.bad_url_cache_name)
-            except (IOError, ValueError):
+            except LockError:
+                raise
+            except Exception:
                 # Something went wrong loading it (bad pickle,
                 # probably).  Start afresh.
                 logging.warning("Bad URL pickle, using new.")
@@ -254,7 +257,9 @@ class SlurpingClassifier(Classifier):
         if os.path.exists(self.http_error_cache_name):
             try:
                 self.http_error_urls = pickle_read(self.http_error_cache_name)
-            except (IOError, ValueError):
+            except LockError:
+                raise
+            except Exception:
                 # Something went wrong loading it (bad pickle,
                 # probably).  Start afresh.
                 logging.debug("Bad HHTP error pickle, using new.")
-- 
2.43.0


From cfe961c501de6bd5e0cb927db0b89f9b3ea5fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 71/83] fix: special characters in the name or password for the
 proxy were not quoted

---
 sbclassifier/classifiers/slurping.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 1b972e2..431305c 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -10,6 +10,7 @@ import logging
 import os
 import re
 import socket
+from urllib.parse import quote
 
 from lockfile import LockError
 import requests
@@ -336,8 +337,9 @@ class SlurpingClassifier(Classifier):
                 return ["url:non_html"]
 
             url_with_proto = '{}://{}'.format(proto, url)
-            proxy_info = (PROXY_USERNAME, PROXY_PASSWORD, PROXY_SERVER,
-                          PROXY_PORT)
+            proxy_info = (quote(PROXY_USERNAME, safe=''),
+                          quote(PROXY_PASSWORD, safe=''),
+                          PROXY_SERVER, PROXY_PORT)
             proxies = {}
             if PROXY_SERVER:
                 proxies['http'] = 'http://{}:{}@{}:{}'.format(*proxy_info)
-- 
2.43.0


From 3d40a7f81a18eac621c1c8c6626ec2054aaed582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:45 +0000
Subject: [PATCH 72/83] fix: unfinished style and comment tags take quadratic
 time

The end of each tag was looked for up to the end of the text, which took
minutes for a message of a megabyte.
---
 sbclassifier/strippers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 9be0fc0..8b87fe7 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -45,9 +45,11 @@ X_PICK_APART_URLS = False
 #: (http://pydns.sourceforge.net/).
 X_LOOKUP_IP = False
 
-# Nuke HTML <style gimmicks.
+# Nuke HTML <style gimmicks.  An unfinished tag extends to the end of the text,
+# where nothing can end the section: otherwise, looking for the end of each of
+# many unfinished tags takes quadratic time.
 html_style_start_re = re.compile(rb"""
-    < \s* style\b [^>]* >
+    < \s* style\b [^>]* (?: > | \Z )
 """, re.VERBOSE)
 
 urlsep_re = re.compile(rb"[;?:@&=+,$.]")
@@ -327,7 +329,8 @@ StyleStripper = Stripper(html_style_start_re.search,
                          re.compile(br"</style>").search)
 
 
-CommentStripper = Stripper(re.compile(br"<!--|<\s*comment\s*[^>]*>").search,
+# As above, an unfinished tag extends to the end of the text.
+CommentStripper = Stripper(re.compile(br"<!--|<\s*comment[^>]*(?:>|\Z)").search,
                            re.compile(br"-->|</comment>").search)
 
 
-- 
2.43.0


From abaf1d963bc419b4fa891c4233a9f4427993b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 73/83] fix: the clues of a host name with very many labels
 were of quadratic size

---
 sbclassifier/tokenizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 7e7b8a0..7b8028d 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1057,7 +1057,9 @@ def try_to_repair_damaged_base64(text):
 
 def breakdown_host(host):
     parts = host.split('.')
-    for i in range(1, len(parts) + 1):
+    # No domain name has more than 127 labels; all the endings of something
+    # longer would together be of quadratic size.
+    for i in range(1, min(len(parts), 127) + 1):
         yield '.'.join(parts[-i:])
 
 
-- 
2.43.0


From 9af7648fb373c88d52f2023c7c385cebbbe365f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 74/83] fix: the representation of a file corpus could not be
 formatted

---
 sbclassifier/corpora/filesystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index db330dc..601286c 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -68,7 +68,7 @@ class FileCorpus(Corpus):
         nummsgs = len(self)
         s = 's' if nummsgs != 1 else ''
         lst = ', {}'.format(list(self.keys())) if VERBOSE and nummsgs > 0 else ''
-        return ('<{} object at {:8.8x}, directory: {},'
+        return ('<{} object at {:08x}, directory: {},'
                 ' {} message{}{}>').format(self.__class__.__name__, id(self),
                                            self.message_cache.directory,
                                            nummsgs, s, lst)
-- 
2.43.0


From a41c83e023354e9a67cd3202de0f16cd5d3add25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:32 +0000
Subject: [PATCH 75/83] fix: a message file that another process removes made
 reading the corpus fail

---
 sbclassifier/corpora/caches.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 0c29c18..d25e960 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -176,7 +176,11 @@ class FileCache(NaiveCache):
         if key in self.data:
             return self.data[key]
         if key in os.listdir(self.directory) and self._is_message(key):
-            return self._message_from_path(key, message_id=key)
+            try:
+                return self._message_from_path(key, message_id=key)
+            except FileNotFoundError:
+                # Another process has just removed it.
+                pass
         raise KeyError('{} not in cache or directory'.format(key))
 
     def keys(self):
@@ -184,11 +188,19 @@ class FileCache(NaiveCache):
 
     def values(self):
         # Need to recreate each message object from the files.
-        return (self._message_from_path(f, message_id=f) for f in self.keys())
+        return (message for _, message in self.items())
 
     def items(self):
-        return ((f, self._message_from_path(f, message_id=f))
-                for f in self.keys())
+        return self._read_messages(self.keys())
+
+    def _read_messages(self, keys):
+        for f in keys:
+            try:
+                message = self._message_from_path(f, message_id=f)
+            except FileNotFoundError:
+                # Another process has just removed it.
+                continue
+            yield f, message
 
     def put(self, key, value):
         if not fnmatch.fnmatch(key, self.namefilter):
-- 
2.43.0


From 68674dac982fd01c4373fa677326907c6142235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 76/83] fix: scoring with bigrams failed with a dbm database or
 without minimum strength

---
 sbclassifier/classifiers/basic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 5c18115..1c24350 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -547,8 +547,9 @@ class Classifier:
             # overlap later.
             raw = []
             pair = None
-            # Keep track of which tokens we've already seen.
-            seen = set()
+            # Keep track of which tokens we've already seen (the first token
+            # ends no pair).
+            seen = {None}
             for i, token in enumerate(wordstream):
                 if i:   # not the 1st loop trip, so there is a preceding token
                     # This string interpolation must match the one in
-- 
2.43.0


From 0d205a3c06febf1b3406f1cb94f54f76575a22f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 77/83] fix: saving a database replaced the symbolic link to it
 by a file

---
 sbclassifier/classifiers/storage.py | 6 ++++--
 sbclassifier/safepickle.py          | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 74f58d7..c88b4be 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -684,11 +684,13 @@ class CDBClassifier(StoredClassifierBase):
         items = [(self.statekey, "{:d},{:d}".format(self.nham, self.nspam))]
         items.extend((word, '{:d},{:d}'.format(info.hamcount, info.spamcount))
                      for word, info in self.wordinfo.items())
+        # It is the file that is replaced, not a symbolic link to it.
+        filename = os.path.realpath(self.filename)
         # Readers must only ever see a complete database.
-        temporary_filename = self.filename + '.tmp'
+        temporary_filename = filename + '.tmp'
         with open(temporary_filename, 'wb') as fp:
             cdb.cdb_make(fp, items)
-        os.replace(temporary_filename, self.filename)
+        os.replace(temporary_filename, filename)
 
     def _wordinfoget(self, word):
         return super()._wordinfoget(as_text(word))
diff --git a/sbclassifier/safepickle.py b/sbclassifier/safepickle.py
index 7af5d7f..c78a132 100644
--- a/sbclassifier/safepickle.py
+++ b/sbclassifier/safepickle.py
@@ -19,6 +19,8 @@ DEFAULT_TIMEOUT = 20
 
 def pickle_read(filename):
     """Read pickle file contents with a lock."""
+    # Whoever reaches the file by another link must meet the same lock.
+    filename = os.path.realpath(filename)
     with FileLock(filename, timeout=DEFAULT_TIMEOUT):
         with open(filename, 'rb') as f:
             return pickle.load(f)
@@ -26,6 +28,8 @@ def pickle_read(filename):
 
 def pickle_write(filename, value, protocol=pickle.HIGHEST_PROTOCOL):
     """Store value as a pickle without creating corruption."""
+    # It is the file that is replaced, not a symbolic link to it.
+    filename = os.path.realpath(filename)
     with FileLock(filename, timeout=DEFAULT_TIMEOUT):
         # Be as defensive as possible: dump the pickle data to a temporary file
         # first, then move the data to the requested filename second. The
-- 
2.43.0


From aeaee8062226a038f444703665148f12f353814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 78/83] fix: saving a database again changed its permissions

---
 sbclassifier/classifiers/storage.py |  2 ++
 sbclassifier/safepickle.py          | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index c88b4be..837a64f 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -55,6 +55,7 @@ from sbclassifier.classifiers.basic import Classifier
 from sbclassifier.classifiers.basic import PICKLE_VERSION
 from sbclassifier.classifiers.basic import WordInfo
 from sbclassifier import cdb
+from sbclassifier.safepickle import copy_mode
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
 
@@ -690,6 +691,7 @@ class CDBClassifier(StoredClassifierBase):
         temporary_filename = filename + '.tmp'
         with open(temporary_filename, 'wb') as fp:
             cdb.cdb_make(fp, items)
+        copy_mode(filename, temporary_filename)
         os.replace(temporary_filename, filename)
 
     def _wordinfoget(self, word):
diff --git a/sbclassifier/safepickle.py b/sbclassifier/safepickle.py
index c78a132..40e030f 100644
--- a/sbclassifier/safepickle.py
+++ b/sbclassifier/safepickle.py
@@ -7,6 +7,7 @@
 # Software Foundation License; for more information, see LICENSE.txt.
 import os
 import pickle
+import shutil
 
 from lockfile import FileLock
 from tempfile import NamedTemporaryFile
@@ -17,6 +18,17 @@ from tempfile import NamedTemporaryFile
 DEFAULT_TIMEOUT = 20
 
 
+def copy_mode(source, destination):
+    """Gives the file `destination` the permissions of the file `source`, if
+    that exists.
+
+    """
+    try:
+        shutil.copymode(source, destination)
+    except FileNotFoundError:
+        pass
+
+
 def pickle_read(filename):
     """Read pickle file contents with a lock."""
     # Whoever reaches the file by another link must meet the same lock.
@@ -40,6 +52,7 @@ def pickle_write(filename, value, protocol=pickle.HIGHEST_PROTOCOL):
             try:
                 pickle.dump(value, fp, protocol)
                 fp.flush()
+                copy_mode(filename, fp.name)
             except BaseException:
                 os.remove(fp.name)
                 raise
-- 
2.43.0


From c1ce5a720184cb62d11e1f8849b3aea897b07d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 79/83] fix: saving a cdb database overwrote and removed a file
 named like it with .tmp

---
 sbclassifier/classifiers/storage.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 837a64f..ab95e54 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -51,6 +51,7 @@ import os
 # import tempfile
 # import errno
 import shelve
+from tempfile import NamedTemporaryFile
 from sbclassifier.classifiers.basic import Classifier
 from sbclassifier.classifiers.basic import PICKLE_VERSION
 from sbclassifier.classifiers.basic import WordInfo
@@ -687,12 +688,18 @@ class CDBClassifier(StoredClassifierBase):
                      for word, info in self.wordinfo.items())
         # It is the file that is replaced, not a symbolic link to it.
         filename = os.path.realpath(self.filename)
-        # Readers must only ever see a complete database.
-        temporary_filename = filename + '.tmp'
-        with open(temporary_filename, 'wb') as fp:
-            cdb.cdb_make(fp, items)
-        copy_mode(filename, temporary_filename)
-        os.replace(temporary_filename, filename)
+        # Readers must only ever see a complete database. The temporary file
+        # must not be that of another process, nor any other file.
+        directory = os.path.dirname(filename)
+        with NamedTemporaryFile(dir=directory, delete=False) as fp:
+            try:
+                cdb.cdb_make(fp, items)
+                fp.flush()
+                copy_mode(filename, fp.name)
+            except BaseException:
+                os.remove(fp.name)
+                raise
+        os.replace(fp.name, filename)
 
     def _wordinfoget(self, word):
         return super()._wordinfoget(as_text(word))
-- 
2.43.0


From 270d29872939c3d2dc8c5c42b77345e7afa7f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 80/83] fix: loading again a database opened as a new one lost
 what had been saved in it

---
 sbclassifier/classifiers/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index ab95e54..a4b6cb3 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -219,6 +219,9 @@ class ShelveClassifier(StoredClassifierBase):
             # is already open has yet to write to it, and would lose it.
             self.db.close()
         self.db = shelve.open(self.filename, self.flag)
+        if self.flag == 'n':
+            # What is saved from now on must not be lost when loading again.
+            self.flag = 'c'
         if self.statekey in self.db:
             t = self.db[self.statekey]
             if t[0] != PICKLE_VERSION:
-- 
2.43.0


From 3eee2655e8296675dc2c3554014bf5040e7c0852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 81/83] fix: a virus clue does not depend on the line ends of
 the text

---
 sbclassifier/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 7b8028d..30fd164 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1107,7 +1107,8 @@ virus_re = re.compile(rb"""
 
 def find_html_virus_clues(text):
     for bingo in virus_re.findall(text):
-        yield bingo
+        # White space (a line end, perhaps) is the same clue however written.
+        yield b' '.join(bingo.split())
 
 
 numeric_entity_re = re.compile(rb'&#(\d+);')
-- 
2.43.0


From 5ede0294aa6f6414b1e80177513d119910b994a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:56 +0000
Subject: [PATCH 82/83] fix: the addresses of the host of a URL each give their
 clues

---
 sbclassifier/strippers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 8b87fe7..096e1ee 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -283,8 +283,9 @@ class URLStripper(Stripper):
                 if not ips:
                     pushclue(b"url-ip:lookup error")
                 else:
-                    for clue in gen_dotted_quad_clues("url-ip", ips):
-                        pushclue(to_bytes(clue))
+                    for ip in ips:
+                        for clue in gen_dotted_quad_clues("url-ip", ip):
+                            pushclue(to_bytes(clue))
 
             # one common technique in bogus "please (re-)authorize yourself"
             # scams is to make it appear as if you're visiting a valid
-- 
2.43.0


From 053ffc9d22d7d6f57033d1cd1a1b2e9bc3d40bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:43 +0000
Subject: [PATCH 83/83] fix: a message whose tokens cannot be produced is not
 counted as trained

---
 sbclassifier/classifiers/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 1c24350..6dc5c88 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -461,6 +461,8 @@ class Classifier:
     # in a msg, but distorting spamprob doesn't appear a correct way to exploit
     # it.
     def _add_msg(self, wordstream, is_spam):
+        # If the tokens cannot be produced, then nothing has changed.
+        wordstream = set(wordstream)
         self._probcache = {}    # nuke the prob cache
         if is_spam:
             self.nspam += 1
@@ -482,6 +484,8 @@ class Classifier:
         self._post_training()
 
     def _remove_msg(self, wordstream, is_spam):
+        # If the tokens cannot be produced, then nothing has changed.
+        wordstream = set(wordstream)
         self._probcache = {}    # nuke the prob cache
         if is_spam:
             if self.nspam <= 0:
-- 
2.43.0

