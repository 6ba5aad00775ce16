STAGES = [A + f for f in ('pretransfer.cc', 'transfer.cc', 'transfer_base.cc', 'interchunk.cc', 'postchunk.cc', 'apertium_posttransfer.cc', 'stream_tagger.cc',
                          'unigram_tagger.cc', 'hmm.cc', 'lswpost.cc', 'perceptron_tagger.cc', 'file_morpho_stream.cc', 'sentence_stream.cc', 'apertium_extract_caps.cc',
                          'caps_restorer.cc', 'wblank-attach.cc', 'wblank-detach.cc')]
SIM = 'seeded simulation of the real stage code as coroutines over simulated pipes and files'

prop('C01', 'Output depends only on the input bytes, never on delivery or memory contents',
     'For given input bytes, options and data files, every command of the translation pipeline (formatters, word-bound-blank tools, tagger in every mode, pretransfer, transfer stages, posttransfer, capitalisation tools, clean-up tools), alone or piped together, writes the same output bytes and ends with the same exit status. '
     'How the input is split into reads, how writes are split, how large pipes are, how the scheduler interleaves the commands and what freed or fresh memory happens to contain make no difference.',
     ['schedules', 'inputs', 'fault_sequences'], 'every input, every split of it into reads and writes (down to single bytes, inside multi-byte characters), every pipe capacity, every interleaving of the stages, every content of uninitialised memory',
     'The tests feed whole files through one process at a time with one heap; they never cut a read inside a character or a token, never stall a stage, and cannot vary what uninitialised memory holds.',
     STAGES + [A + 'deformat.xsl', A + 'reformat.xsl'], [('character input through a buffered reader', A + 'pretransfer.cc'), ('token buffers', A + 'transfer_base.h'), ('flex scanners generated per format', A + 'deformat.xsl')],
     'exploration', 'Seeded search, no proof. Trusts lttoolbox, ICU, libxml2 and libc as installed. The address-space layout is fixed; heap contents, heap layout, read/write sizes, pipe sizes and interleavings vary by seed.',
     SIM + '; perturbed run compared with an unperturbed one', observe=['bytes received by the client', 'exit status of every stage'])

prop('C02', 'Null flush is live: each NUL-terminated request is answered without waiting',
     'With null flush on, once a client has sent a request and its terminating NUL, every byte of that answer and its own terminating NUL reach the client before the client sends anything more. '
     'This holds for each stage and for the pipelines made of them, whatever the scheduling, the pipe sizes and the split of the request into writes, and however many requests were sent at once; no stage deadlocks, spins or holds an answer back.',
     ['schedules', 'inputs', 'histories'], 'every request sequence and batching of it, every interleaving, every pipe capacity and short read/write, for every command with a null-flush mode',
     'The null-flush tests send everything at once and close the pipe, so an answer that only appears at end of input still passes; deadlocks between stages need several processes and small pipes.',
     STAGES, [('null flush loops', A + 'transfer.cc'), ('flush after NUL', A + 'stream_tagger.cc'), ('null_flush of the tagger', A + 'file_morpho_stream.cc')],
     'exploration', 'Progress is decided in the simulator: the client stops sending and every stage must become idle only after the answer arrived; step budgets bound spinning. lt-proc in the full pipeline is the system library compiled behind a stub main.',
     SIM + '; client that waits for each answer, deadlock and step-budget detection')

prop('C03', 'Null-flush framing: one answer per request, in order, holding only its own words',
     'With null flush on, n requests get n NUL-terminated answers in the order sent, and the words of a request appear in the answer to that request and in no other. '
     'Nothing but at most one empty answer per stage follows the last request, and an empty request gets an answer too.',
     ['schedules', 'inputs', 'histories'], 'every sequence of well-formed requests (also empty ones, blanks only, and requests not ending in a space), batched or one by one, under every schedule',
     'Tests use two or three fixed requests and compare whole outputs; off-by-one framing only shows when a NUL follows particular characters or when requests arrive together.',
     STAGES, [('NUL handling in the readers', A + 'file_morpho_stream.cc'), ('NUL as a blank in the token buffer', A + 'transfer.cc'), ('flush of held words', A + 'hmm.cc')],
     'exploration', 'Requests carry unique marker words, so an answer that took another request\'s words is seen whatever the rest of the output is.',
     SIM + '; requests tagged with marker words, history of answers checked')

prop('C04', 'Requests are independent: an answer never depends on earlier requests',
     'With null flush on, the answer to a request is byte for byte the answer a freshly started process gives to that request alone. '
     'Rule variables, word-bound blanks, sentence and capitalisation state, case state, tagger windows and any other state of one request never reach a later one, however long the session is. '
     'For apertium-wblank-attach, apertium-wblank-detach and apertium-posttransfer this holds even after requests cut off in the middle of a word, a tag or a blank.',
     ['histories', 'inputs', 'schedules'], 'every history of earlier well-formed requests and every request after it, for every command with a null-flush mode and for pipelines of them',
     'It relates two executions: the existing tests never compare a request answered late in a session with the same request answered first.',
     STAGES, [('reset of variables and blanks between requests', A + 'transfer.cc'), ('tagger state per request', A + 'hmm.cc'), ('capitalisation state', A + 'caps_restorer.cc')],
     'exploration', 'Compared against a fresh simulated process per request; rule files exercise variables, macros, rejection, word-bound blanks and case state.',
     SIM + '; answers of a session compared with answers of fresh processes')

prop('C05', 'Input that ends anywhere ends every stage, with the earlier answers intact',
     'If the input stops at any point, or an upstream stage is killed at any point, every remaining stage ends by itself in bounded time and bounded memory, without a crash by signal. '
     'The answers to the requests completed before that point are exactly those of an undisturbed run.',
     ['crash_points', 'inputs', 'schedules'], 'every truncation point of every input (inside a lexical unit, a tag, an escape, a chunk, a blank, a word-bound blank) and every kill point of every upstream stage, counted in bytes read or written',
     'No test ends the input inside a token or kills a stage; the failures are endless loops and unbounded growth at end of file.',
     STAGES + [A + 'apertium_cleanstream.cc', A + 'deformat.xsl'], [('end-of-input checks in every read loop', A + 'transfer.cc'), ('readUntil helpers', A + 'pretransfer.cc'), ('stream error handling', A + 'stream.cc')],
     'fault_enumeration', 'Crash and truncation points are sampled by seed over byte positions; a killed stage loses its unwritten buffers. SIGPIPE in a stage is accepted only when a later stage had already given up.',
     SIM + ' with truncation and crash faults; bounded steps and memory')

prop('C06', 'A compiled or trained data file that could not be written is reported',
     'When the transfer-rule preprocessor, the capitalisation-rule compiler or the tagger trainer (supervised or unsupervised HMM, unigram, sliding window, perceptron) cannot create its output file or any write to it fails, it ends with a non-zero exit status. '
     'It never ends successfully leaving a missing, truncated or damaged data file.',
     ['fault_sequences', 'crash_points'], 'every byte position of the written file at which the device reports an error or is full, and failure to create the file',
     'The tests only write to a healthy disk.',
     [A + f for f in ('transferpp.cc', 'transfer_data.cc', 'apertium_compile_caps.cc', 'caps_compiler.cc', 'tagger.cc', 'file_tagger.cc', 'tagger_data_hmm.cc', 'tagger_data_lsw.cc', 'perceptron_tagger.cc', 'unigram_tagger.cc')],
     [('checked close of the output', A + 'transferpp.cc'), ('checked close of the model', A + 'tagger.cc'), ('serialisation', A + 'serialiser.h')],
     'fault_enumeration', 'Positions are sampled by seed over the whole file; write errors, ENOSPC, a quota and failing close are injected below stdio and the C++ file streams.',
     SIM + ' with injected disk faults on the output file')

prop('C07', 'Compiling and training are deterministic',
     'Compiling the same rule files or training the same tagger model from the same corpus succeeds and gives byte-identical data files every time. '
     'The result does not depend on how files are read and written or on memory contents or layout; the only random number used is the one that orders the sentences of perceptron training.',
     ['schedules', 'inputs', 'fault_sequences'], 'every split of the file reads and writes, every content of uninitialised memory and every heap layout',
     'The tests compile once and use the result; a nondeterministic model still passes most of them.',
     [A + f for f in ('transferpp.cc', 'trx_reader.cc', 'caps_compiler.cc', 'hmm.cc', 'lswpost.cc', 'tagger_data.cc', 'perceptron_tagger.cc', 'feature_vec_averager.cc', 'unigram_tagger.cc')],
     [('ordered containers in the data written', A + 'tagger_data.cc'), ('one random device orders the training sentences', A + 'sentence_stream.cc')],
     'exploration', 'Compared with an unperturbed build in the same simulator. The source of random numbers of the perceptron shuffle is behind the seam and fixed.',
     SIM + '; rebuilt under perturbed I/O and heaps and compared byte for byte')

prop('C08', 'Formatting survives: superblanks kept in order, word-bound blanks on their words',
     'For every null-flush command and pipeline, each superblank of a request comes out exactly once and unchanged in the answer to that request, in the original order wherever chunks are not reordered, and the answer is a well-formed stream. '
     'In the commands and pipelines that keep words in the stream, an output word carries no word-bound blank of a word it does not come from, and keeps those of the word it starts with.',
     ['inputs', 'histories', 'schedules'], 'every well-formed stream (escapes, unknown words, multiwords, chunks, empty blanks, blanks with tags and escapes), in sessions of several requests under any schedule',
     'A conservation law over all inputs and all rule firings; the tests compare a few dozen fixed outputs, mostly without word-bound blanks next to escapes, rejections or merged words.',
     STAGES, [('blank queues', A + 'transfer.cc'), ('word-bound blanks merged in the rules', A + 'transfer_base.cc'), ('word-bound blanks of chunk contents', A + 'postchunk.cc'), ('capitalisation tools', A + 'caps_restorer.cc')],
     'exploration', 'Every superblank, word-bound blank and word is made unique so that its way can be followed. Superblanks inside a chunk that a rule drops go with it. The bilingual mode of apertium-transfer is left out: lttoolbox garbles its input.',
     SIM + '; unique ids on blanks and words, conservation checked on every answer')

prop('C09', 'Taggers choose one of the analyses of each word and change nothing else',
     'In every mode (HMM, sliding window, unigram 1 to 3, perceptron; default, show-superficial, first, mark, sentence segmentation, null flush or not), the tagger writes one lexical unit for each one it read, in order, with all blanks and word-bound blanks between them unchanged. '
     'Each lexical unit written holds one of the analyses of the word read (all of them first to last with -f, one marked with = with -m), or the unknown word itself.',
     ['inputs', 'histories', 'schedules'], 'every ambiguous stream and every session of requests, under every schedule',
     'A refinement over all inputs; the taggers hold words back in windows, so a word lost or doubled depends on where the ambiguity, the blanks and the end of the request fall.',
     [A + f for f in ('tagger.cc', 'apertium_tagger.cc', 'hmm.cc', 'lswpost.cc', 'file_morpho_stream.cc', 'stream_tagger.cc', 'unigram_tagger.cc', 'perceptron_tagger.cc', 'stream.cc', 'sentence_stream.cc')],
     [('held words and blanks', A + 'hmm.cc'), ('stream reader of the sentence taggers', A + 'stream.cc'), ('analysis chosen by coarse tag', A + 'tagger_word.cc')],
     'exploration', 'Which analysis is chosen is not judged. With -f one analysis per coarse tag may be kept.',
     SIM + '; refinement of the input checked unit by unit')

prop('C10', 'The stream filters compute exactly their documented rewriting',
     'For every well-formed input, apertium-pretransfer (also -e and -n), apertium-posttransfer, apertium-wblank-attach and apertium-wblank-detach write exactly what their documented rewriting defines. '
     'apertium-cleanstream and apertium-extract-caps keep every unit and blank (cleanstream: the blanks with -b; units set apart stay apart, with -n each on a line of its own) and change only the surface marks and the letter case their options name.',
     ['inputs', 'histories', 'schedules'], 'every well-formed stream, in sessions of several requests, under every schedule and split of the I/O',
     'The tests have a handful of lines per tool; multiwords with escapes, joined words, word-bound blanks over several words and restarts after a flush are combinations they do not reach.',
     [A + f for f in ('pretransfer.cc', 'apertium_posttransfer.cc', 'wblank-attach.cc', 'wblank-detach.cc', 'apertium_cleanstream.cc', 'apertium_extract_caps.cc')],
     [('multiword splitting', A + 'pretransfer.cc'), ('joining', A + 'apertium_posttransfer.cc'), ('open word-bound blanks', A + 'wblank-attach.cc')],
     'exploration', 'The models in sim/models.py were written from the documentation and agreed with the code on all inputs explored after the fixes listed in DESIGN.md.',
     SIM + '; output compared with a small executable reference model')

prop('C11', 'Deformatting then reformatting gives the document back',
     'For every document, deformatting and then reformatting it with the tools of one format (txt, html, html-alt, html-noent, rtf, odt, xlsx, pptx, wxml, xpresstag, latex and mediawiki, with and without -n or -i) exits 0 and gives the document back: '
     'byte for byte, apart from characters outside ASCII that html and rtf may write as character references and line ends that RTF does not have. No temporary file is left behind. '
     'When a temporary file cannot be created, written or read back, the document is still complete or one of the tools exits with a failure.',
     ['inputs', 'schedules', 'fault_sequences'], 'every document (well-formed or not, with blocks larger than the limit kept in the stream), every split of the I/O, and every failing temporary file',
     'The tests compare the deformatted text of one small document per format; special characters, large blocks kept in temporary files and their failures are never run.',
     [A + f for f in ('deformat.xsl', 'reformat.xsl', 'html-format.xml', 'rtf-format.xml', 'txt-format.xml', 'latex-format.xml', 'mediawiki-format.xml', 'xlsx-format.xml', 'pptx-format.xml', 'wxml-format.xml')],
     [('large blocks kept in temporary files', A + 'deformat.xsl'), ('escaping of the stream', A + 'deformat.xsl'), ('restoring', A + 'reformat.xsl')],
     'exploration', 'Formats whose reformatter is documented as lossy are compared after the normalisation named in the statement. Full disks, failing opens and read errors are injected on every temporary file.',
     SIM + '; round trip of every document, with injected faults on the temporary files')

prop('C12', 'Memory does not grow with the number of requests answered',
     'A null-flush command or pipeline that answers the same requests again and again holds, once its buffers have been filled, no more memory than before: '
     'neither the live blocks nor the live bytes of the process grow from one cycle of requests to the next.',
     ['histories', 'inputs'], 'every cycle of requests and every rule set, in sessions of thousands of requests',
     'The tests send one or two requests per process; a few bytes lost per request, or a queue or map that is never emptied, only end a server after days.',
     STAGES, [('words and blanks handed to a rule', A + 'transfer.cc'), ('contents of a chunk split and freed', A + 'postchunk.cc'), ('words handed through the taggers', A + 'hmm.cc'), ('stream reader', A + 'stream.cc')],
     'exploration', 'The allocator of the simulator counts live blocks and bytes at every answer; the two last sixths of a session of 3072 cycles are compared, after the 2048 places of the token ring of lttoolbox have been filled.',
     SIM + '; every allocation counted by the simulated heap over sessions of thousands of requests')

prop('C13', 'The transfer stages do what their rules say',
     'For every rule file, stream and dictionary, apertium-transfer (looking words up itself, reading looked-up words with -b, or without a dictionary with -n), '
     'apertium-interchunk and apertium-postchunk write exactly the words and chunks the rules prescribe: at each word the longest pattern that matches there and has not '
     'been rejected there is applied (of equally long ones the first rule in the file), each word is used once, a rejected rule consumes the number of words its '
     '"shifting" says and the next rule starts right after them, a word no rule takes comes out as the documentation says (its translation, the chunk itself, or the words of the chunk '
     'with the tags and the case of the chunk), and the instructions of the rule language (clip, let, modify-case, get-case-from, case-of, append, concat, '
     'choose and conditions, lists, macros, variables, lu, mlu, chunk, lu-count, link-to, -w) have their documented meaning, in every request of a session alike. '
     'Only the words and chunks are meant here; blanks are the matter of C08. apertium-multiple-translations writes every run of words a pattern takes as all combinations of the translations of its words, every other word as all its translations, and the text between them unchanged.',
     ['inputs', 'histories'], 'every rule file, word sequence, request history and buffering',
     'The tests apply one or two rules to one line each; patterns competing for the same words, rejected rules, macros over changed words and state across requests are never run together.',
     [A + f for f in ('transfer.cc', 'interchunk.cc', 'postchunk.cc', 'transfer_base.cc', 'transfer_word.cc', 'interchunk_word.cc', 'trx_reader.cc', 'transfer_data.cc', 'apertium_re.cc', 'transfer_regex.cc', 'transfer_mult.cc')],
     [('rule application', A + 'transfer.cc'), ('rejected rules', A + 'interchunk.cc'), ('parts of a chunk', A + 'interchunk_word.cc'), ('patterns compiled', A + 'trx_reader.cc')],
     'exploration', 'Reference interpreter in Python written from the documentation of the rule languages (sim/rules.py), run on the words of every request; rule files: the hand-written ones, 19 random ones that use every instruction, and thousands more drawn and compiled during every run. '
     'Case mapping and bilingual lookup are asked of ICU and lttoolbox by both sides.',
     SIM + '; refinement of a reference interpreter of the rule languages')
prop('C14', 'Taggers choose what their model rates best',
     'For every trained model and every stream, apertium-tagger -g gives each ambiguous word the reading its model rates best: the hidden Markov model the most probable sequence of '
     'coarse tags between unambiguous words (the sum of the evidence being the transition and emission parameters in the model file), the sliding-window tagger the tag with the greatest sum over the '
     'readings of its neighbours, the unigram taggers the reading with the highest estimate from the counts of the training corpus (the first one when several are equal). Readings are '
     'given coarse tags as the tag definition file says: the first label that matches the whole reading, multiword labels, preferred readings of one tag, readings discarded on ambiguity, '
     'the undefined tag otherwise; an unknown word may be any open class; a combination of tags the training never saw is treated as the smallest known one that includes it. '
     'The choice depends on the request alone, not on earlier ones, buffering or memory contents.',
     ['inputs', 'histories'], 'every model, ambiguous stream, request history and buffering',
     'The tests tag a few words with one model each and compare with stored output; combinations of readings the training corpus lacks, undefined and discarded readings and requests after them are not tried.',
     [A + f for f in ('hmm.cc', 'lswpost.cc', 'unigram_tagger.cc', 'file_morpho_stream.cc', 'tagger_word.cc', 'tagger_utils.cc', 'tagger_data.cc', 'tagger_data_hmm.cc', 'tagger_data_lsw.cc', 'tsx_reader.cc')],
     [('most probable path', A + 'hmm.cc'), ('sliding window', A + 'lswpost.cc'), ('unigram estimates', A + 'unigram_tagger.cc'), ('coarse tags of readings', A + 'file_morpho_stream.cc')],
     'exploration', 'Reference taggers in Python (sim/tagger.py): tag definition file read and matched independently, parameters decoded from the model file, exact fractions for the unigram estimates. '
     'Requests with a word whose readings have different numbers of parts joined by + are left out (known finding of C09).',
     SIM + '; refinement of reference inference')

prop('C15', 'Training a tagger estimates what its corpora say',
     'For every corpus, tag definition and dictionary, apertium-tagger -s (tagged corpus), -t (Kupiec initialisation followed by Baum-Welch), -r (more Baum-Welch), and the sliding-window and unigram trainers '
     'write a model whose parameters are the estimates the documented method gives for that corpus: relative frequencies of the tagged corpus, expected counts of the untagged one, forbid and enforce rules made '
     'into impossible transitions or windows, and counts per analysis, lemma-free analysis and tag string. Tagging with the model just trained gives the words the readings that model rates best. '
     'apertium-tagger-apply-new-rules puts the rules of another definition file into a model (and renormalises its transitions), and apertium-filter-ambiguity keeps exactly the first word of every ambiguity class. '
     'A tagged text that does not go with the analysed text is refused with status 1, and no training run crashes.',
     ['inputs', 'histories'], 'every corpus (aligned or not, empty, ending in the middle of a sentence), every tag definition and rule set, every split of the I/O and every state of the heap',
     'The tests train unigram models on three lines and never look at a hidden Markov or sliding-window model; constraints that meet, corpora of different length and restarted training are not tried.',
     [A + f for f in ('hmm.cc', 'lswpost.cc', 'unigram_tagger.cc', 'tagger_utils.cc', 'tagger_data.cc', 'tagger_data_hmm.cc', 'tagger_data_lsw.cc', 'file_morpho_stream.cc', 'apertium_tagger.cc', 'tsx_reader.cc')],
     [('supervised estimates', A + 'hmm.cc'), ('expectation maximisation', A + 'hmm.cc'), ('windows and rules', A + 'lswpost.cc'), ('counts', A + 'unigram_tagger.cc')],
     'exploration', 'Reference trainers in Python (sim/train.py) on random corpora and tag definitions; the model file is decoded and compared with a small relative tolerance. Tagged corpora with analyses that the analysed text lacks are expected to be refused.',
     SIM + '; refinement of reference training')

prop('C16', 'The perceptron tagger computes its features and learns from its errors',
     'For every feature file (.mtx), corpus and model, the perceptron tagger evaluates each feature as the feature language says (words, readings, tags, lemmas, coarse tags, sets, subscripts and slices, '
     'string and number operations, conditions, macros, loops over words and readings, early exit), training adjusts the weights exactly where the best sequence so far and the tagged corpus first '
     'differ, writes the average of the weights over all steps, and tagging takes the sequence the beam rates best, in every request of a session alike. The features do not depend on the contents of unrelated memory.',
     ['inputs', 'histories'], 'every feature file, corpus, model and request history, and every state of the heap',
     'The tests have two feature files and one corpus; most instructions of the feature machine are never run, and no test looks at a weight.',
     [A + f for f in ('mtx_reader.cc', 'perceptron_tagger.cc', 'feature_vec.cc', 'feature_vec_averager.cc', 'sentence_stream.cc', 'tagger_data_percep_coarse_tags.cc', 'perceptron_spec.cc')],
     [('compiling feature files', A + 'mtx_reader.cc'), ('feature machine', A + 'perceptron_spec.cc'), ('early update and beam', A + 'perceptron_tagger.cc'), ('average of the weights', A + 'feature_vec_averager.cc')],
     'exploration', 'Random feature files, a reference evaluator and a reference trainer (sim/percep.py) that follows every way of breaking ties and every order of sentences; cases with too many ways are skipped (0.5%). '
     'Five defects of the feature machine are known findings (its source counts as a test file and cannot be changed here); the generator keeps away from exactly those and each has its own replayed case.',
     SIM + '; refinement of a reference feature machine and trainer')

prop('C17', 'Capitalisation rules are compiled and applied as they say',
     'For every capitalisation rule file (.crx) and stream, apertium-compile-caps followed by apertium-restore-caps gives each word the capitals the rules choose: a rule applies at every run of '
     'words it matches (lemma, tags with wildcards, surface form, capitals of source and target lemma and surface form, repetitions, alternatives, beginning of the request), adds its weight to the choice '
     'each of its words selects, and the choice with the greatest sum is made (as in the dictionary, small, initial and full capitals in that order when several are equal). The capitalisation piece of the '
     'word-bound blank is taken away unless -k is given, and every other piece, blank and character of a word comes out unchanged, in every request of a session alike.',
     ['inputs', 'histories'], 'every rule file, stream and request history, and every buffering and state of the heap',
     'The tests have one rule file and a few sentences; overlapping rules of several words, repetitions, competing weights, word-bound blanks with several pieces and blanks at the end of a request are not tried.',
     [A + f for f in ('caps_compiler.cc', 'caps_restorer.cc', 'apertium_compile_caps.cc', 'apertium_restore_caps.cc')],
     [('compiling rules', A + 'caps_compiler.cc'), ('applying rules', A + 'caps_restorer.cc')],
     'exploration', 'Random rule files and a reference matcher (sim/caps.py) that follows every way a rule can match. Which of several ways a rule ending at one word matched counts is left open where the ways choose differently.',
     SIM + '; refinement of a reference rule matcher')

prop('C18', 'Mode files say what modes.xml says, or the failure is reported',
     'For every modes.xml apertium-gen-modes writes one NAME.mode per mode holding the programs of its pipeline in order, joined by " | ", each followed by its arguments: an argument as it is written, a file as the quoted '
     'absolute path in the directory of modes.xml (with -f in the installation directory, and then only for modes with install="yes", next to modes.xml or with -l in the current directory; otherwise in its modes directory). '
     'A mode with gendebug="yes" also yields, for every step, the pipeline up to that step under the step\'s debug suffix (the given one or the one its program stands for) with the tracing option of its last program, and the same '
     'with untrimmed analysers under "@"; a mode written in modes.xml is never replaced by a generated one, and the first of two generated ones stays. An older mode file of that name is replaced as a whole, no other file is written, and when the directory or a '
     'mode file cannot be made, written completely or closed the exit status is not zero.',
     ['inputs', 'fault_sequences'], 'every modes.xml (names that meet, suffixes, files and arguments with spaces and letters outside ASCII, comments) and every byte position at which writing a mode file fails',
     'The tests run it on no input of their own: language packages notice a wrong or truncated mode file only when a translation fails.',
     [A + 'gen_modes.cc'],
     [('debug modes', A + 'gen_modes.cc'), ('writing of mode files', A + 'gen_modes.cc')],
     'exploration', 'Random modes.xml files against a reference written from the documentation (sim/modes.py); disk errors, full disks, quotas, failing opens, closes and mkdir are injected at drawn positions. A tracing option that stands twice in an untrimmed mode is accepted.',
     SIM + ' with injected disk faults; refinement of a reference generator')
prop('C19', 'Adapting a docx part moves text between adjacent runs only',
     'For every part of a .docx document (well-formed UTF-8 XML) apertium-adapt-docx writes, on one line, the same document but for the boundaries between the plain text runs of a paragraph that follow each other: a boundary that '
     'stands inside a word (between letters, in letter-hyphen-letter, in the Catalan l·l) moves right to the first place where it does not, and a run left without text is removed. No text is lost, repeated or reordered, within '
     'a paragraph or across line breaks, tabs, pictures, footnote references, hyperlinks and text boxes, none of which is lost either; attributes, run properties, comments and everything outside these runs stay as they are, and '
     'xml:space is preserve where a run now starts or ends with a space. Line ends become spaces; with -n the line starts with the name of the file, with -p the document is indented instead; after the last document one NUL is written. '
     'Every file named on standard input (or by -f) yields its line in order; one that cannot be opened, read or parsed is named on standard error, yields no line and does not affect the others.',
     ['inputs', 'fault_sequences'], 'every document part and every subset of files that cannot be opened, fail to read at some byte, or are cut',
     'The tests adapt two documents whose runs hold nothing but text.',
     [A + 'adapt_docx.cc'],
     [('word boundaries of docx runs', A + 'adapt_docx.cc')],
     'exploration', 'Random document parts against a reference (sim/docx.py) that compares XML trees; files that do not exist, fail to open, fail to read at a drawn byte or are cut are mixed with good ones, and reads are short at random. Whether a hyphen that ends all '
     'the text belongs to the word before it is left open; CDATA sections, document types and entities of the document are not drawn; with -p white space between elements is not compared.',
     SIM + ' with injected open and read faults; refinement of a reference model')
prop('C20', 'Files on the command line and null flush change how bytes travel, not which',
     'A stage that is given its input file, or its input and output files, as arguments writes byte for byte what it writes for the same bytes on standard input, ends with the same status, leaves the input file as it was, replaces the whole '
     'output file (nothing of an older, longer file stays behind) and writes nothing to standard output. With -z a single request gets the answer that it gets without -z, but for the NULs. '
     'An input or output file that does not exist or cannot be opened makes the command fail with a non-zero status.',
     ['inputs', 'configurations', 'fault_sequences'], 'every stage that takes file arguments or -z, every input, every failing open',
     'Every test of a stage feeds standard input; the file arguments are never used.',
     [A + x for x in ('apertium_transfer.cc', 'apertium_interchunk.cc', 'apertium_postchunk.cc', 'apertium_pretransfer.cc', 'apertium_posttransfer.cc', 'apertium_restore_caps.cc', 'apertium_extract_caps.cc', 'tagger.cc', 'apertium_filter_ambiguity.cc', 'deformat.xsl', 'reformat.xsl',
                      'apertium-prelatex.l', 'apertium-postlatex.l', 'apertium-postlatex-raw.l', 'file_morpho_stream.cc', 'apertium-multiple-translations.cc')],
     [('file arguments of the transfer stages', A + 'apertium_transfer.cc'), ('file arguments of the taggers', A + 'tagger.cc'), ('file arguments of the formatters', A + 'deformat.xsl')],
     'exploration', 'Differential: the same stage, the same bytes, once through standard input and once through files of the simulated disk (or without -z), with random buffer sizes, short reads and writes; failing opens are injected.',
     SIM + ' with injected open faults; differential runs')
prop('C21', 'A data file that is missing, unreadable or incomplete is reported, never used',
     'Every command that is given a data file to work from (compiled transfer rules, bilingual dictionary, tagger model, compiled capitalisation rules; the XML sources; the corpora and dictionaries of training) fails with a non-zero status within bounded '
     'time and without changing that file when the file does not exist or cannot be opened; for compiled files and XML sources also when reading fails at any byte or the file ends before its last byte, as after an interrupted build or on a full disk. '
     'It never goes on with the part that it read.',
     ['fault_sequences', 'crash_points'], 'every data file of every command, every byte at which it can end or fail',
     'The tests only use data files that are whole.',
     [A + x for x in ('transfer_base.cc', 'transfer.cc', 'transfer_mult.cc', 'shell_utils.cc', 'tagger.cc', 'tagger_data_hmm.cc', 'tagger_data_lsw.cc', 'caps_restorer.cc', 'apertium_restore_caps.cc', 'apertium_tagger_apply_new_rules.cc', 'unigram_tagger.cc', 'perceptron_tagger.cc',
                      'xml_reader.cc', 'mtx_reader.cc', 'tsx_reader.cc', 'file_morpho_stream.cc')],
     [('loading of compiled data', A + 'transfer_base.cc'), ('loading of tagger models', A + 'tagger.cc')],
     'fault_enumeration', 'Each data file of each command in turn is left out, made to fail at opening or at a drawn byte, or cut at a drawn byte. A crash (signal, failed assertion, bad_alloc) counts as reported: nobody takes its result for an answer. '
     'Text corpora are not cut (a shorter corpus is a corpus) and do not fail while being read: the reader of the system library lttoolbox asks a failing file for ever. `apertium-tagger -g` without a kind of tagger, which tries to read a damaged perceptron model as an HMM and runs out of memory, is left out.',
     SIM + ' with injected open and read faults and truncated files')
prop('C22', 'Output that cannot be written is reported',
     'Whenever a stage (transfer, tagger, filter, formatter, capitalisation) cannot write a part of its output, because the disk is full or the device fails at any byte of the standard output or of the output file that was named, the command ends '
     'by itself with a non-zero status once its input ends. What it did write is the beginning of the output that it owed. The same holds for the commands that print something about a file (apertium-perceptron-trace, apertium-filter-ambiguity, apertium-adapt-docx).',
     ['fault_sequences', 'inputs'], 'every stage, every input, every byte of the output at which the device can fail',
     'The tests read all output through a pipe that never fails.',
     [A + x for x in ('shell_utils.cc', 'apertium_transfer.cc', 'apertium_interchunk.cc', 'apertium_postchunk.cc', 'apertium_pretransfer.cc', 'apertium_posttransfer.cc', 'apertium_cleanstream.cc', 'apertium_restore_caps.cc', 'apertium_extract_caps.cc', 'tagger.cc', 'deformat.xsl', 'reformat.xsl',
                      'apertium-prelatex.l', 'apertium-postlatex.l', 'apertium-postlatex-raw.l', 'wblank-attach.cc', 'wblank-detach.cc', 'apertium_filter_ambiguity.cc', 'apertium_perceptron_trace.cc', 'adapt_docx.cc')],
     [('closing of the output', A + 'shell_utils.cc'), ('closing of the output of taggers', A + 'tagger.cc'), ('closing of the output of formatters', A + 'deformat.xsl')],
     'fault_enumeration', 'ENOSPC, EIO and a disk quota at a drawn byte of the output of every stage, with random buffers and short writes. Errors that only close() reports (network file systems) are not injected here.',
     SIM + ' with injected write faults')
prop('C23', 'A translation memory holds the two documents\' segments, paired in order',
     'apertium-tmxbuild cuts two deformatted documents into segments (at every ? and !, at a full stop before white space or a superblank, and at line ends; a superblank stands as <ph/>, an escape as its character) and writes well-formed '
     'TMX whose translation units pair stretches of both in their order: no segment appears in two units, none is given to the other language, and none is altered but for XML escaping, white space, and what stands at its ends '
     '(blanks, <ph/>, symbols, full stops). The pairing is the best path of the alignment (one to one, one to two, one against none, by common words and lengths), its gaps joined to the neighbour of the more similar length; '
     'a unit is left out only when a side holds no letter or has fewer than three blanks after its first, and every unit when one document has more than five times the lines of the other. '
     'The result depends on the two documents alone, an older file is replaced as a whole, and no temporary file is left; a document that is missing or cannot be opened, or an output or temporary file that cannot be opened or written, gives a non-zero status.',
     ['inputs', 'fault_sequences'], 'every pair of documents and every failing open or byte at which writing fails',
     'No test runs it on any input.',
     [A + x for x in ('apertium_tmxbuild.cc', 'tmx_builder.cc', 'tmx_aligner_tool.cc', 'tmx_alignment.cc', 'tmx_book_to_matrix.cc', 'tmx_trail_postprocessors.cc', 'tmx_dictionary.cc', 'tmx_translate.cc', 'tmx_quasi_diagonal.h')],
     [('segments and units', A + 'tmx_builder.cc'), ('alignment', A + 'tmx_alignment.cc'), ('similarity of sentences', A + 'tmx_book_to_matrix.cc')],
     'exploration', 'Random pairs of documents (dropped, repeated, changed lines; numbers, blanks, punctuation) against a reference (sim/tmx.py) that segments, aligns and writes them; byte equality of the file. '
     'Disk faults and failing opens of the documents, the output and the temporary files. Unterminated blanks, text after the last end of a segment and carriage returns are not drawn.',
     SIM + ' with injected disk faults; refinement of a reference model')

prop('C24', 'Tracing and debugging describe the run and do not change it',
     'With -t or -T (transfer) or -t (interchunk, postchunk) a stage writes the same answers and ends with the same status as without, and names on standard error, in order, each rule that the words read so far match and, in transfer, each rule that is applied: '
     'the number of the rule in the rule file, the line of the file on which it begins, and the words. With -d the taggers write the same answers as without. This holds request after request of a session, also after rules that reject themselves.',
     ['inputs', 'histories', 'configurations'], 'every rule file, every input, sessions of several requests',
     'The tests never look at a trace, and the few with a tracing option have one request.',
     [A + x for x in ('transfer.cc', 'interchunk.cc', 'postchunk.cc', 'transfer_base.cc', 'apertium_transfer.cc', 'apertium_interchunk.cc', 'apertium_postchunk.cc', 'tagger.cc', 'hmm.cc', 'lswpost.cc', 'unigram_tagger.cc', 'perceptron_tagger.cc')],
     [('trace of transfer', A + 'transfer.cc'), ('lines of rules', A + 'transfer_base.cc'), ('debug output of the HMM tagger', A + 'hmm.cc')],
     'exploration', 'Differential for the answers; the trace is compared with what the reference interpreter (sim/rules.py) matches and applies, on rule files written by hand and drawn anew. The look-ahead words after the pattern, warnings, and the further output of -T and -d are not judged.',
     SIM + '; differential runs and refinement of the reference interpreter')

prop('C25', 'tagger-readwords shows how the tagger reads a corpus',
     'apertium-tagger-readwords prints one line for each word that the HMM tagger would read from a corpus on standard input, in order: the surface form and the coarse tags its analyses have under the tag definitions (a .tsx file or a trained model), '
     'the words a multiword is split into each on a line of their own (the surface form on the first), preferences and discards applied, and the end of the corpus last. It says how many words it read; with -l it stops after that many; with a model it reports each word whose set of tags '
     'the model does not know, and no other. The exit status is not zero when the output cannot be written.',
     ['inputs', 'fault_sequences'], 'every tag definition, model and corpus',
     'No test runs it.',
     [A + x for x in ('apertium_tagger_readwords.cc', 'file_morpho_stream.cc', 'tagger_word.cc', 'collection.cc', 'tsx_reader.cc', 'tagger_data.cc', 'tagger_data_hmm.cc')],
     [('reading of words', A + 'file_morpho_stream.cc'), ('printing', A + 'apertium_tagger_readwords.cc')],
     'exploration', 'Random tag definitions and corpora, models trained in the same case, against the reference reader of sim/tagger.py; words it does not decide (readings split into different numbers of parts) are not judged. Write errors at drawn bytes.',
     SIM + ' with injected write faults; refinement of a reference reader')

prop('C26', 'Source files with a mistake are refused',
     'A source file in which the compilers can see a mistake is refused: the exit status is not zero, there is a message, and an artefact compiled or trained earlier is still there, byte for byte (or no file, if there was none). '
     'In rules files: a pattern with an undefined category, a <clip> in a rule of an undefined attribute or of none, a macro defined twice, an unknown element among the definitions. In tag definitions: a label or multiword label defined twice, an unknown element, a forbidden sequence of something else than labels. '
     'In feature files: undefined arguments, macros and constants, unknown elements, an expression of the wrong type. In capitalisation rules: lemma with trglem, surface with trgsurf, an unknown choice, a repetition that is negative or ends before it starts, an unknown element. In all of them: XML that is not well-formed. A file without a mistake is accepted, and comments and line ends between its elements leave the artefact as it is, byte for byte.',
     ['inputs', 'fault_sequences'], 'every rules file, tag definition, feature file and set of capitalisation rules, with any of these mistakes at any place',
     'The tests compile files without mistakes only.',
     [A + x for x in ('trx_reader.cc', 'tsx_reader.cc', 'mtx_reader.cc', 'caps_compiler.cc', 'xml_reader.cc', 'transfer_data.cc', 'apertium_compile_caps.cc', 'tagger.cc', 'apertium_filter_ambiguity.cc')],
     [('parseError', A + 'xml_reader.cc'), ('undefined categories and attributes', A + 'trx_reader.cc'), ('labels defined twice', A + 'tsx_reader.cc')],
     'exploration', 'Mistakes of each kind are put at drawn places of fixed and freshly drawn source files. References that only the validators check (labels of rules in tag definitions, called macros, variables and lists) are not claimed; nor is the older output of apertium-filter-ambiguity, which it opens first; an abort of the reader of feature files counts as a refusal.',
     SIM + ' with corrupted source files')
