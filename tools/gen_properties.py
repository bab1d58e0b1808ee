#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("S01", "Streaming chains deliver every record once, in order, and always finish",
  "A streaming chain with any number of stages, blocks and block sizes hands every stage the same sequence of records its predecessor left, exactly once and in order, and the consumer sees the end of the stream only after the last record. Neither the record contents nor their grouping is lost, duplicated or overwritten while a stage still holds the block. For every thread schedule the chain finishes (no deadlock), and the same chain object can be drained and reused.",
  ["schedules", "configurations", "inputs"],
  "every interleaving of the stage threads and the recycler, every block count / memory budget / record size / stage count, and every fill pattern of blocks including empty streams",
  "stream_test runs one schedule of one configuration; blocks are recycled between threads, so loss, overwriting and deadlock depend on interleavings and on block counts the test never uses",
  ["klm/util/stream/chain.hh", "klm/util/stream/chain.cc", "klm/util/stream/stream.hh", "klm/util/stream/multi_stream.hh", "klm/util/pcqueue.hh", "klm/util/stream/io.cc"],
  [("blocks circulate through bounded queues, poison marks the end", "klm/util/stream/chain.cc"), ("semaphore-guarded ring buffer", "klm/util/pcqueue.hh")],
  ["records received by each stage and by the final consumer", "thread termination"])

p("S02", "External sort returns the sorted (combined) records or fails loudly",
  "Sorting a stream externally yields exactly the input multiset in comparator order (with equal keys combined exactly once when a combiner is given), whatever the memory budget, buffer and merge fan-in, lazy or eager final merge, record size, number of runs and thread schedule. Short or interrupted reads and writes of the temporary file change nothing. If the temporary file cannot be written or read back (disk full, I/O error, truncation), the process ends with an error instead of delivering an incomplete or altered sequence.",
  ["schedules", "configurations", "inputs", "fault_sequences"],
  "all schedules of the sorting, writing and merging threads, all memory configurations, all short/interrupted/failed I/O placements",
  "sort_test sorts one fixed permutation with one configuration on a healthy disk",
  ["klm/util/stream/sort.hh", "klm/util/stream/io.cc", "klm/util/stream/chain.cc", "klm/util/file.cc"],
  [("block sort, run offsets, multi-pass merge with bounded memory", "klm/util/stream/sort.hh"), ("PReadOrThrow / WriteOrThrow loops", "klm/util/file.cc")],
  ["sequence leaving the sorted stream", "exit status"])

p("S03", "Bounded queues and worker pools process each item exactly once",
  "A bounded producer/consumer queue shared by any number of producers and consumers delivers every produced item to exactly one consumer, keeps each producer's items in the order they were produced, never holds more than its capacity, and never deadlocks while both sides are active. A worker pool runs the handler exactly once for each request handed to it, and stopping the pool first finishes all requests already accepted.",
  ["schedules", "configurations"],
  "every interleaving of producers, consumers and workers, every capacity and thread count",
  "pcqueue_test uses the queue from a single thread and no test uses the pool",
  ["klm/util/pcqueue.hh", "klm/util/thread_pool.hh"],
  [("two semaphores plus a lock per end", "klm/util/pcqueue.hh"), ("poison per worker, join in destructor", "klm/util/thread_pool.hh")],
  ["items received", "handler invocations"])

p("S04", "LM filtering writes exactly the n-grams that pass, with any number of threads",
  "Filtering a language model (ARPA) or count file with any number of worker threads and any batch size writes byte for byte what one thread writes: the n-grams that pass the vocabulary or phrase constraint (of the whole n-gram, or of its context), each once, in input order, into the one output or into every output whose sentence they pass, with header counts that match. The program terminates for every schedule, and an output that could not be written completely ends it with an error.",
  ["schedules", "configurations", "inputs", "fault_sequences"],
  "every interleaving of reader, workers and writer, every thread count and batch size, models and vocabularies of any shape",
  "no test runs the filter at all; output order is restored by sequence numbers whose errors only show when batches finish out of order",
  ["klm/lm/filter/thread.hh", "klm/lm/filter/filter_main.cc", "klm/lm/filter/format.hh", "klm/lm/filter/arpa_io.cc", "klm/lm/filter/count_io.hh", "klm/lm/filter/vocab.hh", "klm/lm/filter/phrase.cc", "klm/lm/filter/wrapper.hh"],
  [("ordered output worker and batch recycling", "klm/lm/filter/thread.hh")],
  ["output files of the filter program"])

p("L01", "LM estimation is a function of the corpus, not of schedule or memory",
  "For a given corpus, order and smoothing options, the estimated ARPA model is the interpolated modified Kneser-Ney model of that corpus: the set of n-grams with their probabilities and backoffs is the same for every thread schedule, memory limit, block size, block count, sort buffer size, minimum vocabulary estimate and pattern of short or interrupted reads and writes. Estimation terminates for every schedule.",
  ["schedules", "configurations", "inputs"],
  "all interleavings of the pipeline threads, all memory/block configurations, all chunkings of corpus and temporary files, arbitrary corpora and orders",
  "adjust_counts/corpus_count tests run single stages in one configuration; the lmplz pipeline as a whole is never run by a test",
  ["klm/lm/builder/pipeline.cc", "klm/lm/builder/corpus_count.cc", "klm/lm/builder/adjust_counts.cc", "klm/lm/builder/initial_probabilities.cc", "klm/lm/builder/interpolate.cc", "klm/lm/builder/print.cc", "klm/lm/builder/lmplz_main.cc", "klm/util/stream/sort.hh", "klm/util/stream/chain.cc"],
  [("dedupe hash + suffix/context/prefix sorts + merge stages joined by position-synchronised streams", "klm/lm/builder")],
  ["ARPA text produced by lmplz"])

p("L02", "LM estimation never reports success for an incomplete or altered model",
  "If any read or write of the corpus, temporary files, vocabulary file or output fails (I/O error, disk full, file cut short) during estimation, the program ends with an error status, or the model it wrote is exactly the model of the undisturbed run. It never hangs.",
  ["fault_sequences", "schedules", "configurations"],
  "every placement of failed, short or interrupted I/O calls in every thread of the pipeline",
  "no test injects a fault into the pipeline",
  ["klm/lm/builder/pipeline.cc", "klm/util/file.cc", "klm/util/stream/io.cc", "klm/util/stream/chain.cc", "klm/util/fake_ofstream.hh", "klm/lm/builder/print.cc"],
  [("all I/O through OrThrow helpers; exceptions in worker threads abort the process", "klm/util/file.cc, klm/util/stream/chain.cc")],
  ["exit status and ARPA output of lmplz"])

p("F01", "Input readers return the exact bytes however the file is delivered",
  "Reading text (plain, gzip, bzip2 or xz, also several compressed members in a row) through the input readers gives exactly the uncompressed bytes, split into the same lines, words and numbers, regardless of whether the file is mapped or read, of how small or interrupted each read is, of page and buffer boundaries, of long lines, and of a missing final newline.",
  ["inputs", "fault_sequences", "configurations"],
  "every chunking of the byte source, every minimum buffer size, mapping success or failure at any point, every compression format, arbitrary content",
  "file_piece_test and read_compressed_test read fixed files in the chunks the kernel happens to return",
  ["klm/util/file_piece.cc", "klm/util/file_piece.hh", "klm/util/read_compressed.cc", "klm/util/file.cc", "klm/util/mmap.cc"],
  [("Shift() refills by mmap or read and falls back", "klm/util/file_piece.cc"), ("format detection and streaming decompression", "klm/util/read_compressed.cc")],
  ["lines, words and numbers returned"])

p("F02", "Damaged or failing input is reported, never silently shortened",
  "When the source of an input reader returns an I/O error, or a compressed file is cut short or corrupted in its compressed data, the reader raises an error before reporting end of input: bytes delivered from a cut or failing source before the error are a correct prefix (corrupted contents are reported at the latest when the damaged compressed member ends), and a cut, corrupted or failing file is never presented as a complete one. The reader also never loops without progress.",
  ["inputs", "fault_sequences"],
  "every truncation point and error position, every chunking, each compression format",
  "the tests only read intact files from a healthy disk",
  ["klm/util/read_compressed.cc", "klm/util/file_piece.cc", "klm/util/file.cc"],
  [("decoder end-of-stream and error codes mapped to exceptions", "klm/util/read_compressed.cc")],
  ["bytes returned, exception or end of file"])

p("B01", "A language-model binary interrupted by a crash is never taken for complete",
  "If the machine or process stops at any point while a binary language model is being built, the file left on disk is either refused on loading or, when it is accepted, gives for every query the answers of the fully built model (an older complete file that was in the way may also survive whole). This holds for every data structure, for both ways of writing the file, with and without the vocabulary strings, and for any order in which unsynchronised pages reach the disk.",
  ["crash_points", "schedules", "configurations"],
  "every crash point of the build and every subset of unsynchronised pages that survives, all model types, write methods and vocabulary options",
  "model_test builds files and loads them back without interruption; no test crashes a build or loses a page",
  ["klm/lm/binary_format.cc", "klm/lm/binary_format.hh", "klm/lm/model.cc", "klm/lm/vocab.cc", "klm/lm/build_binary_main.cc", "klm/util/mmap.cc", "klm/util/file.cc"],
  [("incomplete-magic header replaced by the final header only after data is synced", "klm/lm/binary_format.cc")],
  ["loading the post-crash file with the library"])

p("B02", "Building a binary language model under disk faults fails or is complete",
  "When writes, syncs, size changes, mappings or temporary-file operations fail, are short or are interrupted while a binary language model is built, the builder either ends with an error (and any file it leaves is refused or complete) or produces a file whose answers are those of the undisturbed build. Temporary-file sorting with any buffer size does not change the result.",
  ["fault_sequences", "configurations", "inputs"],
  "every placement of I/O faults and chunkings, all model types and options, arbitrary models",
  "no test injects an I/O fault; the tests use one toy model",
  ["klm/lm/build_binary_main.cc", "klm/lm/binary_format.cc", "klm/lm/trie_sort.cc", "klm/lm/search_trie.cc", "klm/lm/search_hashed.cc", "klm/util/file.cc"],
  [("OrThrow I/O, header written last", "klm/lm/binary_format.cc")],
  ["exit status of build_binary and queries against its output"])

p("B03", "Every way of loading a language model gives the same answers",
  "A language model gives identical scores, states and backoff lengths for every query sequence whether it is read from ARPA text or from a binary built from it, with every load method, with mapping or large reads failing over to plain reads, with any chunking, and on any later query history. A binary file that has been cut short is refused.",
  ["configurations", "inputs", "fault_sequences", "histories"],
  "all model types x load methods x I/O chunkings, truncation at every length, arbitrary models and query sequences",
  "model_test compares a handful of queries on one toy model, without faults",
  ["klm/lm/binary_format.cc", "klm/lm/model.cc", "klm/lm/read_arpa.cc", "klm/lm/vocab.cc", "klm/util/mmap.cc"],
  [("MapRead load methods with fallback, size check against header", "klm/util/mmap.cc, klm/lm/binary_format.cc")],
  ["FullScore results"])

p("X01", "Grammar extraction gives the same grammars for any number of threads",
  "Extracting per-sentence grammars from a word-aligned corpus with any number of threads, for every schedule and however the files are read and written in pieces, succeeds and writes for each input sentence exactly the rules, feature values and alignments that a one-thread run writes to that sentence's grammar file (the order of the rules in a file may differ), exactly one such file per sentence, and the same output lines in input order.",
  ["schedules", "configurations", "inputs"],
  "every interleaving of the extraction threads, every thread count, arbitrary corpora, sentences, precomputation, sampling and leave-one-out settings",
  "the extractor tests run each component single-threaded on fixed data; only the final program is parallel",
  ["extractor/run_extractor.cc", "extractor/grammar_extractor.cc", "extractor/vocabulary.cc", "extractor/rule_factory.cc", "extractor/fast_intersector.cc", "extractor/rule_extractor.cc", "extractor/precomputation.cc", "extractor/suffix_array.cc", "extractor/features"],
  [("read-only shared index, critical sections around the shared vocabulary, per-sentence slots for suffixes", "extractor/run_extractor.cc, extractor/vocabulary.cc")],
  ["grammar files and stdout of run_extractor"])

p("X02", "Extraction from a compiled index equals extraction from the text",
  "Compiling a corpus to an index and extracting grammars from that index, with any number of threads, plain or gzip output, every schedule and any chunking of the I/O, gives for each sentence the same rules, feature values and output lines as extracting straight from the text; and which collocations were precomputed into the index never changes a grammar, as long as all occurrences are sampled.",
  ["schedules", "configurations", "inputs"],
  "every interleaving of the workers, every thread count and option set, arbitrary aligned corpora",
  "no test runs the compiler or the extractor on its index; serialization tests round-trip toy objects through memory",
  ["extractor/sacompile.cc", "extractor/extract.cc", "extractor/run_extractor.cc", "extractor/precomputation.cc", "extractor/fast_intersector.cc", "extractor/data_array.cc", "extractor/translation_table.cc", "utils/gzstream.cc", "utils/filelib.h"],
  [("boost archives of every index part; the same GrammarExtractor behind both programs", "extractor/sacompile.cc, extractor/extract.cc")],
  ["grammar files and stdout of extract and run_extractor"])

p("X03", "A compiled corpus index is complete or refused",
  "A compiled corpus index loads back as exactly the data that was compiled: a compile whose writes fail (disk full, I/O error) ends with an error status or leaves a complete index, an index file cut short at any byte or that cannot be read is refused on loading rather than yielding grammars, and an extraction that cannot write a grammar file ends with an error status instead of leaving a shortened grammar.",
  ["fault_sequences", "crash_points", "inputs"],
  "every placement of read and write failures, every truncation point of each index file, arbitrary corpora",
  "serialization tests round-trip through memory only",
  ["extractor/sacompile.cc", "extractor/extract.cc", "extractor/data_array.cc", "extractor/suffix_array.cc", "extractor/alignment.cc", "extractor/precomputation.cc", "extractor/translation_table.cc", "extractor/vocabulary.cc", "extractor/run_extractor.cc", "utils/filelib.h"],
  [("boost archives over file streams", "extractor/sacompile.cc")],
  ["exit status of the compiler, behaviour of loading, grammar files"])

p("N01", "The sentence server returns each line's reply once, in input order",
  "For any number of clients connecting, working, stalling, disconnecting or crashing at any moment, the sentence server writes for every input line exactly one output line (with -m, one complete block of lines, ended by three seconds of silence), the complete reply some client produced for that very line, in input order; ===SYNCH=== lines pass through in their place; and a line whose worker disappears is handed to another client, never to two at a time.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of client threads, every message segmentation and delay, every crash point of every client",
  "no test runs the server; its ordering and re-queueing logic only matters with concurrent and failing clients",
  ["training/utils/sentserver.cc", "training/utils/sentclient.cc"],
  [("linked list of line records with status, one mutex", "training/utils/sentserver.cc")],
  ["server output", "lines given to clients"])

p("N02", "The sentence server stays up and finishes when clients fail",
  "No behaviour of a client (refusing or sending a wrong key, sending nothing, disconnecting in the middle of a line, or resetting the connection while the server writes) terminates the server or blocks other clients, and as long as working clients keep connecting every input line is eventually answered and the server exits successfully. The one exception is the documented give-up: without --stay-alive, the server ends with an error when no connected client is left and a client died holding a line.",
  ["schedules", "fault_sequences", "histories"],
  "every failure point of every client in every interleaving; progress within a bounded number of steps once failures stop",
  "no test runs the server",
  ["training/utils/sentserver.cc", "training/utils/sentclient.cc"],
  [("abort detection and re-queue; count of live clients", "training/utils/sentserver.cc")],
  ["server liveness and exit status"])

p("E01", "External metric replies reach the scorer intact or as an error",
  "Talking to an external metric process over pipes, each request's reply is the complete reply line of that request however the pipes split, delay or interrupt the bytes; the metric program is started with exactly the command given; if it cannot be started, dies, or closes its output before its last reply is complete, the scorer ends with an error and never returns a value made from partial, stale or uninitialised data, and never waits forever on a dead child.",
  ["fault_sequences", "schedules", "inputs"],
  "every segmentation of requests and replies, every death point of the child, arbitrary request contents and sizes",
  "no test starts an external metric",
  ["mteval/external_scorer.cc", "mteval/ns_ext.cc"],
  [("request/response loop over two pipes", "mteval/external_scorer.cc, mteval/ns_ext.cc")],
  ["statistics and scores returned"])

p("N03", "Remote language-model scores are exactly the server's answers",
  "With an lm://host:port language model the decoder gets, for every n-gram it asks for, exactly the probability that this very server answers for this n-gram, however requests and replies are split, delayed or interrupted, whatever bytes the numbers consist of, however often n-grams repeat and however many remote models are used at once; each request sent is one well-formed line for an n-gram that was asked for. If a server cannot be reached, or goes away before its reply is complete, the decoder ends with an error: it never continues with an invented, partial or stale value and never waits forever.",
  ["fault_sequences", "schedules", "inputs"],
  "every segmentation of requests and replies, every death point of the server, all answer values, any number of servers and repetition pattern",
  "no test uses a remote language model",
  ["decoder/ff_lm.cc"],
  [("request/response loop over a socket with a cache of answers", "decoder/ff_lm.cc")],
  ["probabilities returned by the language model", "requests received by the server"])

p("G01", "Plain and gzip text files are read back as written, or an error is reported",
  "Text written through WriteFile to a plain or .gz name is on disk complete, and reading it through ReadFile (by lines, characters, blocks, with put-back, ReadAll or CopyFile) gives exactly that text, however reads and writes are split and wherever buffer boundaries fall. A program whose file could not be written completely (disk full, I/O error, failed open) does not end normally, and a read error or a .gz file that is cut or damaged behind its two identifying bytes is reported and never taken for the end of the file. A copy made by CopyFile is complete or an error is reported.",
  ["fault_sequences", "inputs"],
  "every chunking, every failure position, every truncation, arbitrary contents",
  "tests read and write small files on a healthy disk",
  ["utils/filelib.h", "utils/filelib.cc", "utils/gzstream.cc", "utils/gzstream.h"],
  [("gzstream streambuf over zlib", "utils/gzstream.cc")],
  ["bytes read back, stream state"])

p("W01", "A weights file read back gives exactly the weights written, or an error",
  "Feature weights written to a plain or .gz weights file and read again, into an empty feature dictionary or one in which the features have other numbers, are bit for bit the weights written, with nothing added and nothing missing (apart from zero weights where those are hidden); a weights file that could not be written completely, could not be read completely or is a damaged .gz file ends in a reported error and never in a silently smaller or different set of weights.",
  ["fault_sequences", "inputs", "histories"],
  "every finite weight and feature name, every failure position and chunking, every truncation",
  "tests read one small weights file on a healthy disk",
  ["utils/weights.cc", "utils/weights.h", "utils/fdict.cc", "utils/gzstream.cc", "utils/filelib.h"],
  [("Weights::InitFromFile, WriteToFile", "utils/weights.cc")],
  ["weights read back or error"])

p("D01", "A sentence's translation depends only on that sentence and the setup",
  "The decoder's outputs for an input sentence (best translation, k-best list, scores and saved forest) are the same whatever sentences were decoded before it in the same process, however its input arrives in chunks, and whatever bytes newly allocated memory happens to contain.",
  ["histories", "inputs", "fault_sequences"],
  "every earlier input history, every chunking of input and grammar files, every content of fresh memory",
  "the system tests decode fixed inputs once in one process state",
  ["decoder/decoder.cc", "decoder/cdec.cc", "decoder/scfg_translator.cc", "decoder/ff_klm.cc", "decoder/ff_lm.cc", "decoder/apply_models.cc"],
  [("per-sentence metadata and translator reset between sentences", "decoder/decoder.cc")],
  ["stdout and forest files of the decoder"])

p("D02", "A saved translation forest loads back whole or is refused",
  "A translation forest written to disk loads back as the same forest (nodes, edges, features, best derivation) under any chunking of the I/O; a forest file cut short or whose writing failed is refused when read and is never presented as a smaller forest.",
  ["fault_sequences", "crash_points", "inputs"],
  "every truncation point, every write failure and chunking, arbitrary forests",
  "hg_test round-trips one forest through a string",
  ["decoder/hg_io.cc", "decoder/hg_io.h"],
  [("serialised hypergraph", "decoder/hg_io.cc")],
  ["forest read back or error"])

p("D04", "The decoder never presents a partial result as complete",
  "Whatever goes wrong while the decoder reads its input, weights, grammars, models and other files or writes its output and result files (failing calls, full disk, compressed files that are cut short), it either ends with an error status or produces exactly the output and files it produces when nothing goes wrong.",
  ["fault_sequences", "inputs"],
  "every failing call in every file of every setup, every cut of a compressed file",
  "no test injects an I/O failure",
  ["decoder/cdec.cc", "decoder/decoder.cc", "decoder/rule_lexer.ll", "decoder/oracle_bleu.h", "decoder/forest_writer.cc", "utils/filelib.h", "utils/gzstream.cc", "decoder/tagger.cc", "decoder/lextrans.cc", "decoder/hg_io.cc"],
  [("main loop and final flush", "decoder/cdec.cc"), ("files that are read and written", "utils/filelib.h")],
  ["exit status, stdout and files of the decoder"])

p("D05", "What a derivation is worth does not depend on how it was found",
  "Every derivation the decoder reports has the features and the score that belong to it: they are the same whichever search strategy and beam found it, in whatever order rules stand in the grammar files, and whatever other rules and derivations the forest holds; features that count something in the translation (language model, n-grams, words) are what its words give. An unpruned search under any strategy finds the same derivations, a pruned one a part of them.",
  ["inputs", "configurations"],
  "every grammar, input (also with source syntax trees), set of feature functions and search strategy, every order and every part of the rules",
  "the system tests compare a few outputs under one strategy",
  ["decoder/apply_models.cc", "decoder/ffset.cc", "decoder/ff_source_syntax.cc", "decoder/ff_soft_syntax.cc", "decoder/ff_parse_match.cc", "decoder/ff_ngrams.cc", "decoder/ff_wordalign.cc", "decoder/ff_rules.cc", "decoder/ff_spans.cc", "decoder/ff_klm.cc", "decoder/ff_context.cc"],
  [("states that decide which derivations are merged", "decoder/apply_models.cc"), ("features of one edge", "decoder/ffset.cc")],
  ["k-best lists of the decoder with features and scores"])

p("D03", "Decoding returns what the grammar derives: best, k-best, sums and gradients",
  "For any grammar, phrase table, per-sentence grammar, input (sentence or lattice), weights and language model, an unpruned search finds every derivation once and no other: the best translation has the highest model score, a k-best list is sorted, complete and carries the right feature values (and no repeated string when uniqueness is asked for), partition sums, conditional probabilities, feature expectations and gradients equal the sums over all derivations, and pruning may drop only derivations outside the stated beam and never the best one. None of this depends on how grammar, weights and input arrive in chunks, on line ends at the end of a file, or on the contents of fresh memory.",
  ["inputs", "fault_sequences", "configurations"],
  "every grammar, lattice, weight vector, search strategy, chunking of the files and content of fresh memory",
  "the system tests decode a few fixed inputs and look at fixed outputs",
  ["decoder/scfg_translator.cc", "decoder/bottom_up_parser.cc", "decoder/grammar.cc", "decoder/rule_lexer.ll", "decoder/phrasebased_translator.cc", "decoder/apply_models.cc", "decoder/ff_klm.cc", "decoder/kbest.h", "decoder/viterbi.h", "decoder/hg.cc", "decoder/hg_intersect.cc", "decoder/inside_outside.h", "utils/fast_sparse_vector.h", "utils/sparse_vector.cc"],
  [("exhaustive parser, forest, k-best extraction and rescoring", "decoder/bottom_up_parser.cc")],
  ["stdout and stderr of the decoder"])

p("O01", "An optimizer restarted from its checkpoint continues exactly",
  "A numerical optimizer that is stopped after any iteration and restored from the state it saved makes exactly the same sequence of parameter vectors and convergence decisions as one that was never stopped; a checkpoint that was cut short, or that another kind or size of optimizer saved, is not accepted.",
  ["crash_points", "histories"],
  "every stop point (also several stops), every optimizer, arbitrary objective functions",
  "optimize_test saves and loads at one point and checks convergence only",
  ["training/utils/optimize.cc", "training/utils/optimize.h"],
  [("Save/Load of optimizer state", "training/utils/optimize.cc")],
  ["parameter trajectory"])

p("R01", "Realtime contexts serve requests one at a time, in order, to the right user",
  "The realtime translation service gives every request the reply computed for that very request, runs the requests of one context strictly one at a time in arrival order, and gives each user's context results that depend only on that context's own history, for every interleaving of concurrent users, including contexts being created and dropped concurrently. No request is left waiting forever.",
  ["schedules", "histories"],
  "every interleaving of user threads and service threads, every mix of translate/learn/drop/save/reset operations over many contexts",
  "the realtime service has no tests",
  ["realtime/rt/rt.py", "realtime/rt/util.py", "realtime/rt/decoder.py", "realtime/rt/aligner.py", "realtime/realtime.py"],
  [("FIFO lock per context, lock per external process", "realtime/rt/util.py, realtime/rt/rt.py")],
  ["replies per user", "requests seen by the backend processes"])

p("R02", "A realtime context restored from saved state continues as before",
  "A realtime context whose state is saved and later loaded into a fresh service answers and learns as the saved context would have, with its sentence grammars extracted anew; loading a damaged or incomplete state fails for that context only, with that context reset, and never disturbs other contexts.",
  ["histories", "crash_points", "fault_sequences"],
  "every save/restore point in every operation history, every cut of the saved file",
  "the realtime service has no tests",
  ["realtime/rt/rt.py", "realtime/rt/util.py"],
  [("save_state / load_state text format", "realtime/rt/rt.py")],
  ["replies after restore"])

p("M01", "The streaming MIRA trainer answers every request from its weights alone",
  "In stream mode the MIRA trainer gives every translate, LEARN and WEIGHTS WRITE request exactly one reply line, however requests arrive, also when a sentence has no translation or a request is malformed; a translation is the one the decoder gives with the trainer's current weights; and the weights are all that the trainer remembers: a fresh trainer that starts with them, or is told them, answers and learns exactly as the old one would have, and translation requests change nothing.",
  ["histories", "schedules", "crash_points"],
  "every history of requests, optimizer, metric and grammar, every cut of the history",
  "no test runs the trainer",
  ["training/mira/kbest_cut_mira.cc", "utils/weights.cc", "mteval/scorer.cc", "decoder/decoder.cc"],
  [("stream loop: translate, LEARN, WEIGHTS", "training/mira/kbest_cut_mira.cc")],
  ["reply lines", "weights written on request"])

p("M02", "A batch pass of MIRA is learning from its sentences one by one, and its success is true",
  "A batch pass of the MIRA trainer prints for each sentence of the development set, and ends with, what the stream mode gives when it learns from the same sentences in the same order; the averaged weights are the average of the weights before the first and after every sentence; and a pass that reports success read all of its input and wrote all of its output and both weights files, whatever read, write, open or close failed.",
  ["fault_sequences", "histories"],
  "every development set, grammar, optimizer, metric, and every failing call",
  "no test runs the trainer",
  ["training/mira/kbest_cut_mira.cc", "utils/weights.cc", "utils/filelib.h", "mteval/scorer.cc"],
  [("batch loop and weights output", "training/mira/kbest_cut_mira.cc")],
  ["standard output", "weights files", "exit status"])

p("A02", "Metric statistics are additive and scores reproduce their definitions",
  "For every segment, sufficient statistics add up over segments and the corpus score computed from them equals the metric's definition.",
  ["inputs"], "all references, hypotheses and metrics",
  "tests check fixed examples",
  ["mteval/ns.cc", "mteval/ns.h", "mteval/scorer.cc"], [("SufficientStats", "mteval/ns.h")])
p("A03", "Distributed training gives the same weights for any number of workers",
  "Batch training split over any number of MPI ranks computes the same objective and gradient as one rank, up to floating-point summation order.",
  ["schedules", "configurations"], "all rank counts and message schedules",
  "no test runs with MPI",
  ["training/crf/mpi_batch_optimize.cc", "training/crf/mpi_online_optimize.cc"], [("broadcast / reduce", "training/crf/mpi_batch_optimize.cc")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
