"""Writes properties.jsonl (run by hand when a property is edited)."""
import json
P = []


def add(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': ['sbclassifier/' + f for f in files],
                    'mechanism': [{'name': n, 'where': 'sbclassifier/' + w} for n, w in mech],
                    'state': [{'name': n, 'meaning': m, 'where': 'sbclassifier/' + w} for n, m, w in state],
                    'observe_at': list(observe), 'hook_needed': None}})


B = 'classifiers/basic.py'
S = 'classifiers/storage.py'

add('C01', 'Training is an exact ledger of the messages learned',
    'After any sequence of training and untraining, the numbers of ham and spam messages are those of the messages currently trained, and every token\'s ham and spam counts are the numbers of currently trained ham and spam messages that contain it, a repeated token counting once per message and a token in none of them having no record. '
    'A request to untrain a class of which no message is trained is refused and changes nothing, and untraining a message that was not trained takes away only what is there, leaving no count below zero. A message whose tokens cannot be produced (an error or interrupt while it is tokenized) is neither trained nor untrained.',
    ['histories', 'inputs'],
    'All sequences of learn/unlearn (through every entry point, with token lists, tuples, sets or one-shot iterators, text or bytes tokens, repeats, empty messages, with and without bigrams), also of messages that were not trained, and with errors at any token.',
    'The tests train and untrain a handful of fixed word lists; they cannot reach the interleavings of classes, repeats, shared tokens and iterators over which the counts must stay exact.',
    [B], [('_add_msg/_remove_msg', B), ('_enhance_wordstream', B), ('learn/unlearn', B)],
    ['learn', 'unlearn', 'nham', 'nspam', 'token counts'],
    [('wordinfo', 'per token (spam count, ham count)', B), ('nspam/nham', 'numbers of trained messages', B)])

add('C02', 'Untraining undoes training, and the order of training does not matter',
    'Training a message and later untraining it leaves every score, and the evidence for it, as if it had never been trained, whatever was trained, untrained or scored in between. '
    'Two histories that leave the same collection of trained messages give every message the same score, in whatever order they trained them.',
    ['histories', 'inputs'],
    'All pairs of training histories with the same final collection of trained messages, with scoring interleaved at any point, and all messages scored afterwards.',
    'A test compares a few scores after one history; the guarantee is about all orders, and about stale intermediate results that only show when scoring is interleaved with training.',
    [B], [('probability cache', B), ('_add_msg/_remove_msg', B)],
    ['spamprob'], [('_probcache', 'token probabilities computed since the last training', B)])

add('C03', 'The score is the chi-squared combination of the clues and lies in [0, 1]',
    'The score of a message is (S - H + 1) / 2, where S and H are one minus the chi-squared tail probabilities (with two degrees of freedom per clue) of minus twice the sum of the logarithms of one minus the clue probabilities, and of the clue probabilities, respectively. '
    'It is a number in [0, 1] for every training state and message, 0.5 if there is no clue, and, for a message of at most 150 different tokens (so that no ties are broken at the limit, and without bigrams), exchanging the roles of ham and spam in training mirrors it around 0.5.',
    ['inputs', 'histories'],
    'All training states (including very unbalanced ones with large counts) and all messages, from no clue to more clues than the limit, with clue probabilities arbitrarily close to 0 and 1.',
    'The numerical traps (underflow of long products, rounding just above 1, cancellation) only show for particular mixes of many extreme clues; the tests score a few short texts.',
    [B], [('spamprob', B), ('chi2Q', B), ('frexp rescaling', B)], ['spamprob'])

add('C04', 'The clues are the strongest tokens, with Robinson-adjusted probabilities',
    'The probability of a token is (0.225 + n*p) / (0.45 + n), with n the number of trained messages that contain it and p the share of spam in its spam and ham frequencies, and 0.5 for a token never trained. '
    'The clues of a message are its distinct tokens whose probability is at least 0.1 away from 0.5, at most 150 of them and none weaker than one that is left out; with bigrams, also pairs of adjacent tokens, chosen strongest first such that no two overlap (a repeated token or pair stands at its first place). '
    'The evidence given with a score lists exactly these clues with these probabilities, by increasing probability, after the two overall indicators.',
    ['inputs', 'histories'],
    'All training states and messages, with ties, with more candidates than the limit, with and without bigrams.',
    'Selection only matters beyond 150 candidates or when pairs compete; the tests have a few tokens with two or three distinct probabilities.',
    [B], [('_getclues', B), ('_worddistanceget', B), ('probability', B)], ['spamprob(evidence=True)'])

add('C05', 'Scoring has no effect and depends only on the set of tokens',
    'Scoring a message changes neither the counts and totals nor any later score, with every kind of storage, and also when several threads score at the same time. '
    'The score does not depend on the order or repetition of the tokens (without bigrams), on whether they come from a list or a one-shot iterator, nor on whether evidence is asked for.',
    ['inputs', 'histories', 'schedules'],
    'All training states, all token streams, all sequences of scorings between training steps, and all interleavings of scoring threads.',
    'A test scores a message once or twice in a fresh classifier; side effects show in later answers, and races under interleavings that a test does not produce.',
    [B, S], [('spamprob/_getclues', B), ('probability cache', B), ('_wordinfoget of the storages', S)], ['spamprob'])

add('C06', 'A pickled or copied classifier is the same classifier, and independent',
    'A classifier that is pickled and read back, or deep-copied, has the same totals and token counts and gives every message the same score and evidence (with bigrams, too), and can be trained on. '
    'Training one of them afterwards does not change the other. A pickled state of an unknown version is refused and changes nothing.',
    ['histories', 'inputs'],
    'All classifiers that any history of training and scoring leads to, with and without bigrams, all pickle protocols, and any training of the original and the copy afterwards.',
    'The tests neither pickle nor copy a classifier directly; copies that could not be used went unnoticed.',
    [B], [('__getstate__/__setstate__', B), ('WordInfo', B)], ['pickle', 'copy.deepcopy', 'scores and counts of both'])

add('C07', 'The options of scoring have exactly their documented effect',
    'With any values of UNKNOWN_WORD_PROB, UNKNOWN_WORD_STRENGTH, MINIMUM_PROB_STRENGTH, MAX_DISCRIMINATORS and USE_BIGRAMS, and any storage, the probability of every token is Robinson\'s adjustment with that prior and strength (of a token never seen, the prior itself), the clues are the strongest non-overlapping tokens (and, with bigrams, pairs) at least the minimum strength away from one half, as many as allowed, and the score is their chi-squared combination. '
    'HAM_CUTOFF and SPAM_CUTOFF decide the classification: below the one ham, above the other spam, anything else unsure.',
    ['configurations', 'histories', 'inputs'],
    'All values of the options in their sensible ranges (prior in (0, 1), strength at least 0.01, minimum strength in [0, 0.5), 1 to 500 discriminators), all training histories and messages, all storages, before and after they are opened again.',
    'The tests run with the defaults; with bigrams a dbm database could not score at all.',
    [B, S, 'message.py'], [('the options at the top, probability, _getclues, _worddistanceget', B), ('ShelveClassifier._wordinfoget', S), ('set_classification', 'message.py')],
    ['spamprob with evidence', 'set_classification'])

add('S01', 'Saved training survives the process, even one killed right after saving',
    'Once saving has returned, whoever opens the same database afterwards sees exactly the totals and token counts at the time of saving, also if the saving process is killed at once without closing it. '
    'This holds again after every further round of training, untraining (tokens that vanish stay gone) and saving, by the same or another process.',
    ['histories', 'crash_points', 'inputs'],
    'All histories of training, saving, reloading and reopening over several processes, with text or bytes tokens (non-ASCII, long, with newlines), for the pickle, dbm and cdb storages, and a kill right after saving.',
    'The tests save five words once and close the database in the same process; buffered writes, stale caches and deletions across rounds are out of their reach.',
    [S, 'safepickle.py', 'cdb.py'], [('store/load of the three storages', S), ('changed and deleted word sets', S), ('pickle_write', 'safepickle.py'), ('cdb_make', 'cdb.py')],
    ['store', 'a new process that opens the database'],
    [('changed_words/deleted_words', 'words whose record in the dbm file is out of date', S)])

add('S02', 'Every storage behaves like the in-memory classifier',
    'Given the same history of training, untraining, scoring, saving, reloading (when everything is saved) and reopening, the pickle, dbm and cdb classifiers report the same totals and token counts as the in-memory classifier at every step, and the same scores and evidence. '
    'Reloading discards nothing that was saved and leaves nothing behind from before: the classifier is then as if the database had just been opened, whoever saved it last.',
    ['histories', 'inputs'],
    'All histories, with text or bytes tokens (all of one kind in a database, none equal to the reserved name of the state record), checked after every step.',
    'The special handling of tokens seen once, of deleted and re-trained tokens and of partially loaded databases only differs from the plain dictionary after particular sequences across save points.',
    [S], [('singleton optimisation in _wordinfoset', S), ('_wordinfoget lazy loading', S), ('_wordinfodel', S), ('load', S)],
    ['learn', 'unlearn', 'spamprob', 'nham', 'nspam'])

add('S03', 'A crash or error while saving leaves the old or the new database, never a mix',
    'If the process is killed at any point while a pickle or cdb database is saved, the file afterwards holds either the complete previous training or the complete new training (or is absent if there was none before). '
    'If saving fails with an error, the previous training is still in the file, and a later save by the same or another process succeeds.',
    ['crash_points', 'fault_sequences'],
    'Every kill point at the granularity of executed Python lines and of serialised records while saving; write errors (no space, file size limits, records that cannot be serialised, a failing rename) at every such step; databases from empty to many times the size of the write buffer.',
    'A test can save successfully; the states between the steps of saving are only visible to a process that dies there.',
    ['safepickle.py', S], [('temporary file and rename in pickle_write', 'safepickle.py'), ('CDBClassifier.store', S)],
    ['the database file after the crash'])

add('S04', 'Processes that save and load the same database at once never see a mix',
    'Concurrent saves and loads of one pickle or cdb database by several processes and threads (each reaching it by its own path or symbolic link) behave as if they happened one after another: every load returns exactly one complete saved training, never an older one than a load or save that had finished before it began, and no operation fails because of the others. '
    'The lock of a pickle is released after every operation, including one that fails.',
    ['schedules', 'fault_sequences'],
    'All interleavings of savers and loaders (processes and threads, also with delays between the steps of saving), some of which fail midway; the lock timeout is longer than the contention.',
    'The tests are single-process; the lock and the rename only matter under interleavings.',
    ['safepickle.py'], [('FileLock around read and write', 'safepickle.py'), ('rename', 'safepickle.py')], ['pickle_read', 'pickle_write'])

add('S05', 'A database that cannot be read is reported, not taken for an empty one',
    'Opening or reloading a classifier whose pickle or cdb file exists but is truncated, empty, foreign or unreadable raises an error, as does a pickle that is locked by somebody else and a pickle or dbm database of an unknown version; it never yields an empty or partial classifier, and never modifies the file. '
    'Only a file that does not exist makes a new, empty classifier, also on reloading one in use.',
    ['inputs', 'fault_sequences'],
    'All truncations of a saved pickle or cdb file, arbitrary foreign contents and pickles, other version numbers (pickle and dbm), read errors and held locks; on opening and on reloading a classifier already in use.',
    'The tests only open databases that are absent or intact.',
    [S, 'safepickle.py'], [('PickleClassifier.load', S), ('version check', S), ('version check in __setstate__', B)], ['opening the classifier'])

add('S06', 'A session that ends without saving leaves a usable database',
    'If a session trains or untrains and ends without saving, a pickle or cdb database is exactly as last saved. '
    'A dbm database can then still be opened, no token count in it exceeds the number of trained messages of that class, and every message can be scored, trained and untrained.',
    ['histories'],
    'All histories of several sessions, each of which ends with or without saving (by closing the database, dropping it, or loading it again), in which only messages that are currently trained are untrained.',
    'It takes several sessions with particular overlaps of saved and unsaved counts; the tests always save before they close.',
    [S], [('_post_training writes the state record', S), ('_remove_msg writes decreased counts', S), ('singletons written at once', S)], ['reopened database'])

add('S07', 'Only saving changes a database, and saving changes nothing else',
    'Opening, reloading, scoring with, listing and copying a stored classifier leave every file as it was (name, content, permissions) and create none, except that opening creates a missing dbm database; with pickle and cdb so does training that is not saved. '
    'Saving changes or creates only the database\'s own file, whatever other files lie beside it: that file keeps its permissions, a new one is not more open than the umask allows, and a symbolic link to it remains one and leads to what was saved; saving that fails while the training is written (for lack of space, an interrupt, a token that cannot be written) changes nothing and leaves nothing behind (pickle, cdb). '
    'The flags of a dbm database mean what they mean for a shelf: "r" never changes it and makes training and saving fail, "r" and "w" require it to exist and otherwise create nothing, and "n" empties it once, when it is opened, so that what is saved later survives reloading.',
    ['histories', 'configurations'],
    'All sequences of opening, reloading, scoring, training, saving and closing, for all kinds of storage and dbm flags, in directories with any other files, through direct and relative paths and symbolic links, with any permissions, umask and directory for temporary files.',
    'The tests look at scores in a fresh directory; they never look at which files exist, at their neighbours, permissions or links, nor use any flag but the default.',
    [S, 'safepickle.py'], [('store', S), ('load', S), ('pickle_write', 'safepickle.py'), ('flag', S)], ['files before and after'])

add('S08', 'Databases saved by earlier versions stay readable',
    'A pickle, dbm or cdb database (and a pickle of a plain classifier, of any protocol) that was saved by an earlier version of the package opens with exactly the totals and token counts that were saved, gives every message the same score and evidence, and can be trained, untrained to the last message, saved and opened again.',
    ['inputs', 'histories'],
    'All databases saved by the code since the commit at which it was pinned, with text and bytes tokens, and all histories of training and sessions that follow.',
    'The tests only read what they have just written themselves, so that a change of a key, order, version or class name that is made in the reader and the writer alike passes.',
    [B, S, 'safepickle.py', 'cdb.py'], [('__getstate__/__setstate__, PICKLE_VERSION', B), ('as_text, STATE_KEY, load', S)], ['opening the classifier'])

K = 'corpora/caches.py'
add('K01', 'A corpus is a dictionary bounded to the messages added last',
    'A corpus maps the id of every message added and not removed since to the message added last under it, and length, membership, iteration, keys, values, items, indexing and lookup with a default all agree with that. '
    'If a maximum size is given, it never holds more than that, and makes room by dropping the id that was added first; adding a message under an id already present replaces the message and drops nothing.',
    ['histories', 'configurations'],
    'All sequences of additions (new ids, ids present, ids removed before), removals (present or absent) and lookups, for all maximum sizes including one and none, for a cache created by default or given.',
    'The tests add three messages; eviction order after replacements and removals needs long sequences.',
    ['corpora/base.py', K], [('NaiveCache.put/pop', K), ('Corpus.__init__', 'corpora/base.py'), ('Corpus dictionary methods', 'corpora/base.py')],
    ['Corpus dictionary interface'], [('_keys', 'insertion order of the keys', K)])

add('K02', 'A file corpus is its directory: nothing is lost, whatever the cache size',
    'After any sequence of additions and removals, the files in the directory that match the filter are exactly the messages added (or there before) and not removed, each with the content of the message added last; length, keys, values, items and lookups agree with the directory, and each message found has its id and the right content. '
    'Message files that another program adds or removes count at once (a message that the corpus holds in memory may still be looked up when its file was removed). A second corpus opened on the directory sees the same, messages that fall out of the memory cache remain available, no more messages are kept in memory than its size, and files that do not match the filter are never shown, changed or removed.',
    ['histories', 'configurations'],
    'All sequences of additions, replacements, removals, lookups, reopenings and changes by other programs, for all filters and memory cache sizes (from one message), with files there before and files that do not match.',
    'The tests use a cache larger than the corpus and one addition or removal each.',
    [K, 'corpora/filesystem.py'], [('FileCache.put/pop/__getitem__/keys', K), ('eviction in NaiveCache.put', K)],
    ['directory listing', 'Corpus dictionary interface'])

add('K03', 'A file corpus never touches files outside its directory',
    'Adding, removing, looking up or expiring messages, whatever their ids, never creates, modifies or removes anything outside the directory of the corpus (which contains no symbolic links). '
    'A message whose id cannot be the name of a file in that directory is refused, without effect on the corpus.',
    ['inputs', 'histories'],
    'All ids, including path separators, parent and current directory names, absolute paths, empty ids and NUL characters, and names that exist outside; all operations.',
    'The tests use one-character ids; containment has to hold for every id an attacker can choose.',
    [K], [('_is_filename', K), ('FileCache.put/pop/__getitem__', K)], ['the filesystem around the directory'])

add('K04', 'Expiry removes exactly the messages that are too old, and forgets none',
    'When an expiry run is due, it removes every message file that is older than the limit and no message file that is younger, and a run made at or after the moment the oldest remaining message passes the limit is always due. A message is as old as the last change of its file is long ago (its status change time, which no program can set). '
    'Removed messages are gone from directory, lookups and length, everything else stays, and expiry neither trains nor untrains anything.',
    ['histories', 'configurations'],
    'All sequences of additions, expiry runs and passages of time (with the clock under control), for all limits, cache sizes and filters, with messages from memory and from files.',
    'The only test of expiry is skipped because of timing; the interplay of the next due time with later additions needs controlled time.',
    ['corpora/filesystem.py'], [('remove_expired_messages', 'corpora/filesystem.py'), ('expiry_due', 'corpora/filesystem.py')],
    ['directory listing after each run'], [('expiry_due', 'time before which no run is needed', 'corpora/filesystem.py')])

add('K05', 'Observers hear of every addition and removal exactly once',
    'Each addition or removal of a message notifies each observer of that corpus exactly once, with that corpus and that message, after the corpus has changed; no observer hears of it if notification was switched off for the call, if the operation was refused, or if it observes another corpus. '
    'Falling out of a memory cache, lookups and expiry notify nobody.',
    ['histories', 'configurations'],
    'All sequences of operations on several corpora of both kinds with several observers (of one corpus or of all), cache evictions and refused operations included.',
    'The tests have one observer that raises; they do not count notifications, nor look at the corpus from inside one.',
    ['corpora/base.py', 'corpora/filesystem.py', K], [('add_message/remove_message', 'corpora/base.py'), ('signals', 'corpora/base.py')], ['message-added and message-removed signals'])

add('K06', 'Adding a message to a file corpus is all or nothing',
    'If adding a message to a file corpus fails with an error, the corpus - its files, length, iteration and lookups - is as before and no observer is told. '
    'If the process is killed at any point while a message is added, whoever opens the directory afterwards finds under its id either what was there before (the complete old message, or none) or the complete new message, and every other message as it was.',
    ['crash_points', 'fault_sequences', 'inputs'],
    'All messages (of any size) added or replaced in a directory of messages, all points of the operation at which the process may be killed (between any two steps, or at any byte written), and the errors of the file system (no space, no file descriptors, names that are too long or directories) and of a message that cannot be written. The process dies, not the machine.',
    'The tests add messages only where this succeeds.',
    ['corpora/caches.py', 'corpora/base.py'], [('FileCache.put', 'corpora/caches.py'), ('Corpus.add_message', 'corpora/base.py')],
    ['directory contents', 'corpus views', 'message_added'])

add('K07', 'A file corpus can be used while other processes change its directory',
    'While several processes (and threads, each with its own corpus object) add, replace, remove and expire messages of one directory, no operation on a corpus of it fails because of the others: a look-up gives a whole message that was stored under this id at some time during the look-up, or says that there is none only if there was none at some time during it (a corpus that added a message itself may give it from memory after another program removed its file); '
    'going through keys, messages or pairs gives every message that was there all the time exactly once, and none that was never there; afterwards the directory holds exactly what was last done to each message.',
    ['schedules', 'histories'],
    'All interleavings of processes that use corpora of one directory, each message being changed by one of them (except for expiry, where any number may remove the same one, and removal of files by other programs).',
    'The tests use one process; the races between listing a directory, looking at a file and reading it need another one at the right moment.',
    ['corpora/caches.py', 'corpora/filesystem.py'], [('FileCache.__getitem__, keys, values, items', 'corpora/caches.py'), ('ExpiryFileCorpus.remove_expired_messages', 'corpora/filesystem.py')],
    ['results of all corpus operations with their times', 'directory contents'])

add('T01', 'A trainer keeps the classifier equal to the content of its corpora',
    'After any sequence of additions to and removals from the corpora of a ham and a spam trainer (also moves from one to the other), the classifier has exactly the counts of one trained from scratch on the messages now in those corpora, in the class of their trainer. '
    'Each message remembers whether it is trained and as what; messages in corpora of no trainer, and changes made with notification switched off, train nothing.',
    ['histories'],
    'All sequences of additions of messages not in the corpus, removals of messages in it and moves, over several in-memory and file corpora per trainer, with arbitrary message contents.',
    'There is no test of the trainers beyond importing them.',
    ['trainers.py', 'corpora/base.py'], [('Trainer.train/untrain', 'trainers.py'), ('signal connections', 'trainers.py')], ['classifier counts', 'is_trained'])

M = 'message.py'
add('M01', 'The verdict and the headers added say what the score says',
    'A message with a score below 0.2 is marked as ham, above 0.9 as spam, and otherwise as unsure. '
    'The headers added to it state that verdict, and, where asked for, the score with the given number of digits, one star per full tenth of the score, its id, and exactly the clues that pass the given limit (and both overall indicators), each with its probability, however many or strange they are; a verdict is noted in recipients or subject only if asked for that verdict.',
    ['inputs', 'configurations'],
    'All scores in [0, 1] including the limits and their floating-point neighbours, all clue lists (text or bytes, any length and content) and all combinations of options.',
    'The tests use three scores far from the limits and a handful of clues.',
    [M], [('set_classification', M), ('add_sb_headers', M), ('add_notations', M)], ['headers of the message'])

add('M02', 'Removing the added headers restores the message',
    'Adding the classification headers and notations to a message and then removing them leaves its other headers (names, values and order) and its body exactly as they were, and none of the added ones, also after the message was written out and read again in between (up to header folding); only those kinds of notation that were asked to be removed are. '
    'The current values of the headers can be read before and are unaffected by other headers.',
    ['inputs', 'configurations'],
    'All messages (any headers, folded, repeated, raw 8-bit or encoded, with or without recipients; with a subject if the subject is to be noted), all scores, clues and option combinations; one round of adding.',
    'The tests use one plain ASCII message with one notation at a time.',
    [M], [('remove_sb_headers/remove_notations', M), ('add_notations', M), ('current_sb_headers', M)], ['headers and body'])

add('M03', 'Writing a message out keeps its content and uses CRLF line ends only',
    'The text of a message has CRLF at the end of every line and no other carriage return or line feed. '
    'Parsing it again yields the same headers in the same order (up to folding) and the same decoded content in every part (but for the usual escaping of lines that begin with "From "), and producing it leaves the message unchanged; a copy of a message has the same headers, content, id, verdict and training state.',
    ['inputs'],
    'All messages parsed from text or bytes with any mix of line ends, transfer encodings, 8-bit content with known charsets, multipart nesting and attached messages.',
    'The tests write out plain ASCII texts; the email package takes other paths (it copies the message) for 8-bit content.',
    [M], [('as_string', M), ('force_crlf', M), ('__deepcopy__', M)], ['as_string'])

add('M04', 'An exception header is added without harming the message',
    'Inserting the report of the current exception into the text of a message keeps all its headers, in order, and its body, and adds after them one header that holds the whole report (and one that holds the id, if given), however the exception text looks. '
    'No line of the exception text becomes a header or part of the body, the added header lines end in CRLF, and the report is returned unaltered.',
    ['inputs'],
    'All message texts (LF or CRLF, with or without body or blank line) that begin with a header, and all exception texts (many lines, blank lines, carriage returns, header look-alikes, non-ASCII).',
    'The tests raise one exception with the text "Test".',
    [M], [('insert_exception_header', M)], ['returned text'])

add('M05', 'The identity of a message is set once and never changes',
    'Once a message has a non-empty id, every attempt to give it a different one fails and leaves the id, verdict, training state, headers and body as they were; giving it the same id again is harmless, and values that are not text or are reserved names are always refused. '
    'The id found in the id header of a message is taken over if possible and otherwise nothing changes, and reading the same content from text, bytes or a file gives the same message.',
    ['histories', 'inputs'],
    'All sequences of attempts to set ids (any values and headers) mixed with classification and training marks, through all constructors.',
    'The tests try single calls.',
    [M], [('set_id', M), ('set_id_from_payload', M), ('from_bytes/from_string/from_path', M)], ['id', 'classification', 'is_trained'])

T = 'tokenizer.py'
add('M06', 'What the classifier writes into a message is no clue',
    'Marking a message - with verdict, score, stars, evidence, id, training mark or exception report, in any combination and repeatedly - does not change its tokens, nor does writing it out and reading it, or removing the marks again; where notations are added to To or Subject, only the tokens of these headers differ. '
    'Headers of the classifier with which a message arrives (forged ones, too) yield no tokens.',
    ['inputs', 'configurations'],
    'All messages the email package can write, all options of marking, and forged classifier headers of any content.',
    'No test tokenizes a marked message.',
    ['message.py', T], [('the headers added', 'message.py'), ('tokenize_headers', T)], ['tokenize'])

add('M07', 'A message remembers its verdict and training mark',
    'The verdict of a message is the last one set, as a class or by a score (a float) - ham below the ham cutoff, spam above the spam cutoff, otherwise unsure - and its training mark is the last one set; anything that is neither is refused and changes nothing. '
    'Both are kept, with the id, by copies and by pickling; changing a copy does not change the original; and tokenizing, writing out, storing in corpora and removing headers have no effect on them.',
    ['histories', 'inputs'],
    'All sequences of setting verdicts (classes, scores of any value, invalid ones) and training marks, copying, pickling, tokenizing, writing, storing and removing headers.',
    'The tests set one verdict on a fresh message.',
    ['message.py'], [('the classification and training state', 'message.py')], ['message attributes'])

add('X01', 'Every message, however malformed, can be tokenized, trained and scored',
    'Tokenizing ends without an error for every sequence of bytes parsed as a message by the email package and yields finitely many tokens, all of them bytes. '
    'The tokens can be trained, scored and untrained with every storage, and a message can be tokenized from its text as well.',
    ['inputs'],
    'All byte sequences: hostile and damaged headers (8-bit, broken encoded words, RFC 2231 parameters, unknown charsets), broken MIME structures and transfer encodings, binary bodies, HTML, URL and uuencode fragments in any combination.',
    'The tests tokenize two short ASCII messages; spam is written to break filters.',
    [T, 'strippers.py'], [('Tokenizer', T), ('convert_to_bytes', T), ('crack_content_xyz', 'strippers.py'), ('Stripper.analyze', 'strippers.py')], ['tokenize'])

add('X02', 'Tokenizing is repeatable and leaves the message as it was',
    'The same message always gives the same sequence of tokens: when tokenized again, from a copy, in another process with another hash seed, after any other messages, or while other threads tokenize. '
    'Tokenizing does not change the message.',
    ['inputs', 'histories', 'schedules'],
    'All messages (including multipart ones with several text parts), all earlier tokenizations and all interleavings of threads.',
    'Within one test process with one hash seed, differences between runs cannot show.',
    [T, 'strippers.py'], [('textparts', T), ('Tokenizer', T)], ['tokenize'])

add('X03', 'What the reader sees becomes tokens, what is hidden does not',
    'Every word of 3 to 12 bytes of the visible text of a text part is a token, in lower case: words next to or between tags, words broken up by tags or comments (as one word), words on either side of a line break `<br>`, paragraph `<p>` or `&nbsp;` (as two), and words whose characters are written as numeric entities. '
    'Text inside HTML tags (of at most 256 characters), comments, style sheets and noframes sections yields no word tokens, unless the section is never closed.',
    ['inputs'],
    'All texts built from visible words, tags, comments, style and noframes sections, entities and white space in any order and number, in plain text and HTML parts, single or multipart.',
    'The tests check no token at all; the disguises combine without bound.',
    [T, 'strippers.py'], [('tokenize_body', T), ('html_re and breaking_entity_re', T), ('Style/Comment/Noframes strippers', 'strippers.py')], ['tokenize'])

add('X04', 'Encoding, letter case and nesting do not hide words',
    'The tokens of a text are the same whether it is sent as is, as base64 or as quoted-printable, on its own or in any nesting of multipart containers, whatever the case of the ASCII letters of the body, and whatever the line ends. '
    'The words of a subject or sender name are the same whether it is written as is (non-ASCII characters as text) or as encoded words in any charset that has its characters (base64 or quoted-printable, one for each group of words, or one for the whole name).',
    ['inputs'],
    'All texts, transfer encodings, nestings, line ends and letter cases of the body; all subjects and names in ASCII or UTF-8.',
    'It is a relation between many pairs of messages; the tests have no encoded message.',
    [T], [('get_payload(decode=True) in tokenize_body', T), ('lower()', T), ('decode_header in tokenize_headers', T)], ['tokenize'])

add('X05', 'Header tokens describe the headers exactly',
    'For a well-formed message the tokens of the headers are exactly those defined by its content type and charsets, disposition and file names of every part, the words and punctuation of the subject (case kept), the names and addresses in From, To, Cc, Sender and Reply-To (or their absence, each apart), the numbers of recipients (entries between commas) as powers of two, mailer, host of the message id, and the counts of the well-known header lines. '
    'Headers outside these, and the classifier\'s own headers, yield no tokens.',
    ['inputs'],
    'All combinations of these headers with arbitrary well-formed values, repeated headers, several addresses, several parts and any header order.',
    'The tests check no header token.',
    [T, 'strippers.py'], [('tokenize_headers', T), ('crack_content_xyz', 'strippers.py'), ('crack_filename', 'strippers.py')], ['tokenize'])

add('X06', 'Long words, addresses, URLs, uuencoded files and virus marks yield exact tokens',
    'A word of more than 12 bytes yields only its two halves if it is a mail address of fewer than 40 characters with a dot, and otherwise only a token with its first byte and its length rounded down to tens, plus the rounded percentage of non-ASCII bytes if there are any; shorter words than 3 yield nothing. '
    'A URL yields its protocol and the pieces between slashes and separators (without trailing punctuation) instead of words, and a complete uuencoded section its mode and file name with its pieces, while the text around either is tokenized as usual. '
    'Marks that viruses use (script and iframe tags, sources inside the message, things of no height or width), wherever they stand in the text, each yield a clue that names them, and nothing else does.',
    ['inputs'],
    'All texts built from words of any length and bytes, mail addresses, URLs, uuencoded sections (closed or not) and marks of viruses in any order.',
    'The tests check no such token.',
    [T, 'strippers.py'], [('tokenize_word/tokenize_text', T), ('URLStripper', 'strippers.py'), ('UUencodeStripper', 'strippers.py'), ('Stripper.analyze', 'strippers.py')], ['tokenize'])

add('X07', 'Optional clues are exactly those their options promise',
    'With any of the documented options of the tokenizer on, the tokens of a message are those without it plus exactly the clues it describes: counts of all header lines, absent well-known headers, names, addresses and remarks in Received headers with every parent domain and network, common beginnings and endings of the recipients, Habeas marks, words of all header fields but those to be skipped, sizes of pictures and the tokens that the optional picture reader finds in them, beginnings of octet parts, runs of short words, and oddities of URLs (users, ports, addresses, escapes, with their pieces decoded; also URLs without protocol). '
    'Leaving out long words or replacing non-ASCII characters changes exactly these.',
    ['inputs', 'configurations'],
    'All messages and all subsets of these options.',
    'No test switches any of these options on; several of them failed on every message.',
    [T, 'strippers.py'], [('the options at the top and tokenize_headers, tokenize_text, tokenize_body', T), ('URLStripper.tokenize', 'strippers.py')], ['Tokenizer()(message)'])

add('X08', 'The time to handle a message grows in proportion with its size',
    'However a message repeats and nests what the tokenizer looks for (tags, comments, styles, frames, entities, URLs, uuencoded files, addresses, host names, punctuation, long words), tokenizing it, and training, scoring, untraining, marking and writing it, takes time that grows in proportion with its size, and the clues together have a size in that proportion, so that nobody can stop the filter with one message.',
    ['inputs', 'configurations'],
    'All repetitive contents of texts, of many parts, header lines and recipients, and of the headers the tokenizer takes apart itself, with any options, at sizes to some hundred kilobytes; the parsing by the email package (of parameters, encoded words and addresses within one header) aside.',
    'The messages of the tests have a few lines; what is quadratic in the size takes no time there.',
    [T, 'strippers.py', 'message.py', B], [('regular expressions and Stripper.analyze', 'strippers.py'), ('tokenize_headers, tokenize_body and breakdown_host', T), ('spamprob, learn, unlearn', B)], ['CPU time of tokenize, learn, spamprob, add_sb_headers, as_string'])

add('B01', 'A constant database returns exactly what was put into it',
    'A file written from any sequence of key-value pairs, and read again, returns for every key the value that was first given for it, nothing for any other key, and iterates over exactly the given pairs in order; searching on returns the later values of a repeated key in order. '
    'The file follows the published cdb format, so that other readers find the same in it and files of other writers can be read.',
    ['inputs'],
    'All sequences of pairs of text or bytes (empty, binary, non-ASCII, repeated keys, many keys with equal hashes or table slots), including none.',
    'The cdb tests are skipped; collisions and wrap-around of the hash tables need many or chosen keys.',
    ['cdb.py'], [('cdb_hash', 'cdb.py'), ('cdb_make', 'cdb.py'), ('Cdb.findnext', 'cdb.py')], ['cdb_make', 'Cdb'])

add('I01', 'Network clues name exactly the networks that contain an address',
    'For an address and a list of prefix lengths, the networks given are, in order, the networks of these lengths that contain the address, with all host bits cleared; by default those of 8, 16, 24 and 32 bits. '
    'Each clue is the given prefix followed by one of these networks in the usual notation.',
    ['inputs'],
    'All IPv4 addresses (as text or objects) and all lists of prefix lengths; IPv6 addresses likewise.',
    'The test looks at one address with the default lengths.',
    ['iputils.py'], [('subnets', 'iputils.py'), ('gen_dotted_quad_clues', 'iputils.py')], ['subnets', 'gen_dotted_quad_clues'])

add('D01', 'Name lookups never break anything and restore the global timeout',
    'Whatever the outcome of a lookup (answer, no such name, malformed name, timeout or any other error), the process-wide default socket timeout afterwards is what it was before, and during the lookup it is the lookup limit. '
    'A name that does not resolve, is malformed or times out yields an empty result, and messages with posting hosts, or with URLs, are tokenized in any case when those options are on, with the clues for the addresses and names found (for a URL: of the addresses of its host, or that it has none).',
    ['fault_sequences', 'configurations', 'inputs'],
    'All outcomes of forward and reverse lookups (resolver replaced by a stand-in), previous timeouts, posting-host headers and hosts of URLs (the optional DNS software of the latter also a stand-in); one thread.',
    'The tests need the network and cover one successful lookup.',
    ['dnsutils.py', T], [('timed', 'dnsutils.py'), ('mine_nntp', T)], ['socket default timeout', 'tokenize'])

L = 'classifiers/slurping.py'
add('L01', 'Following links changes scores only when it should, and fetches a page once',
    'A classifier that follows links scores, trains and untrains messages without a link exactly like the plain one; for a message with a link it consults the page for scoring only if the plain score is unsure, and uses the result only if that is no longer unsure. The link is the last http one in the text. '
    'A page or a failure is fetched at most once and then remembered, also by later sessions and when its host no longer resolves, so that training and then untraining a message restores the classifier; the link of one message is never used for the next.',
    ['histories', 'fault_sequences'],
    'All histories of training and scoring messages with and without links, and all outcomes of a fetch (page, other content, error status, connection error, unresolvable name), over several sessions (network replaced by a stand-in).',
    'There is no test of this classifier.',
    [L], [('SlurpingClassifier.spamprob/learn/unlearn', L), ('slurp and its caches', L), ('SlurpingURLStripper', L)], ['spamprob', 'requests made'])

add('L02', 'Nothing on the web or in its cache makes following links fail',
    'Whatever a server answers, or fails to, training and scoring a message with a link go on, and a server that hangs holds them up for no longer than the request timeout: a page that can be read yields its tokens, anything else the one clue that says what happened (name not resolved, no HTML, the HTTP status, unknown error), which is remembered. '
    'A page is requested again, by a later session, if and only if it is older than the age limit; remembered failures whose file is damaged are forgotten, and nothing else. '
    'With a proxy configured every page is requested through it, with exactly its user name and password. An error or interrupt while a link is followed changes no counts, and links are followed again afterwards.',
    ['inputs', 'fault_sequences', 'histories', 'configurations'],
    'All answers of servers (any status, framing, encoding, redirection, malformed or missing data), all damage to the files of remembered failures, all ages of pages, proxy names and passwords, and errors at any step of following a link. Servers that keep sending without end are left out.',
    'There is no test of this classifier.',
    [L, 'corpora/filesystem.py'], [('slurp and its caches', L), ('SlurpingClassifier._generate_slurp/setup', L)], ['requests made', 'spamprob', 'learn'])

add('E01', 'A mail filter knows exactly what it was taught, session after session',
    'Over any number of sessions that each end with saving, in which mail arrives (is scored, marked, stored and delivered) and the user sorts messages into spam and ham, corrects, deletes, or lets them expire: each message is scored, with evidence, as by a classifier taught from scratch the original messages currently sorted or expired while sorted; the message delivered carries the verdict of that score and the id by which the stored message is found again; '
    'the saved counts are exactly those of these messages; and each directory holds exactly the messages due, which without the marks are as they arrived.',
    ['histories', 'crash_points', 'inputs', 'configurations'],
    'All histories over several processes with stored classifiers (pickle, dbm, cdb), file corpora with expiry and any memory cache, trainers and all marking options, with messages the email package generates back as parsed, each session killed right after saving or ended.',
    'The tests exercise one part at a time; no test combines corpora, trainers, storage, marks and expiry.',
    ['trainers.py', 'corpora/filesystem.py', 'corpora/caches.py', S, B, 'message.py', T],
    [('Trainer.train/untrain', 'trainers.py'), ('ExpiryFileCorpus', 'corpora/filesystem.py'), ('store/load', S), ('add_sb_headers/set_id_from_payload', 'message.py')],
    ['scores', 'delivered messages', 'database', 'directories'])

with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
