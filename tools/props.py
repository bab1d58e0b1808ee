"""Per-property description of the checks: binary, budget, what is real and what is simulated."""
SCHED = "seeded scheduler over real parked threads, preemption at synchronisation calls, I/O calls, atomics and instrumented memory accesses"
def P(target, quick, thorough, rule, real, stub, faults, note, **kw):
    d = dict(target=target, quick=quick, thorough=thorough, rule=rule, real=real, stub=stub, faults=faults, note=note)
    d.update(kw); return d
PYSCHED = "seeded scheduler over threads and simulated processes of Python code"
PROPS = {
 "S01": P("stream", 40, 600,
    "A case draws record size, block count, memory, stage count and kinds (block-wise, record-wise, filtering), sink kind, reuse rounds and record contents, then one seeded schedule; non-trivial: at least one record; distinct: different thread-switch sequence or different parameters.",
    ["klm/util/stream/chain.cc", "stream.hh", "multi_stream.hh", "io.cc", "klm/util/pcqueue.hh", "libboost_thread"],
    ["pthread mutex/cond/semaphore semantics", "clock", "stage bodies are the harness's own workers"],
    "short reads and writes of chain files, EINTR from semaphores, spurious condition wake-ups, garbage-filled fresh memory",
    "Seeded search over schedules and configurations with exact record-sequence comparison at every stage; a clean batch is evidence, not proof."),
 "S02": P("stream", 40, 600,
    "A case draws record layout, key space, block/buffer/total memory, lazy memory, merge method, combiner, contents and a fault plan, then one seeded schedule; non-trivial: at least two records.",
    ["klm/util/stream/sort.hh", "chain.cc", "io.cc", "klm/util/file.cc"],
    ["pthread semantics", "kernel file calls pass through a fault layer to files in a scratch directory"],
    "short/interrupted reads and writes, EIO, ENOSPC after a seeded capacity, reads that return end of file, failing seek/truncate/mkstemp",
    "Exact multiset/order oracle (exact per-key totals and uniqueness after merges with a combiner); under hard faults the run must end in an error or be exact."),
 "S03": P("stream", 30, 300,
    "A case draws queue capacity, producer/consumer/worker counts, item counts and handler work, then one seeded schedule; non-trivial: at least one item.",
    ["klm/util/pcqueue.hh", "klm/util/thread_pool.hh", "libboost_thread"], ["pthread mutex/cond/semaphore semantics", "handlers are the harness's own"],
    "EINTR from semaphores, spurious wake-ups, arbitrary preemption",
    "Exactly-once, per-producer order and capacity checked against the recorded history of every run."),
 "S04": P("filter", 40, 600,
    "A case draws a mode (copy, single, multiple, union), vocabularies or phrases, a model or count file with n-grams that pass and that do not, one to five threads, a batch size (often one that divides the number of n-grams), then one seeded schedule and, in a quarter of the cases, failing I/O; non-trivial: more than one thread.",
    ["klm/lm/filter/* (whole program)", "klm/util/{thread_pool,pcqueue}.hh, file_piece.cc, fake_ofstream.hh", "boost::thread, interprocess_semaphore"],
    ["pthread mutexes, condition variables, semaphores, thread start and join (simulated, seeded)", "kernel file calls pass through a fault layer to files in a scratch directory"],
    "preemption at any memory access, spurious wakeups, EINTR, short reads and writes, EIO, ENOSPC at a seeded capacity, failing opens and closes",
    "Oracle: a straightforward program over word lists that says which outputs an n-gram passes; output files are compared byte for byte."),
 "L01": P("lmplz", 40, 600,
    "A case draws a small corpus, order, pruning/renumbering/discount options and two memory/block configurations, runs lmplz_main twice (plain reference configuration, then a seeded configuration and schedule) and compares the ARPA files and, for small corpora, an independent model of modified Kneser-Ney; non-trivial: non-empty corpus.",
    ["klm/lm/builder/* including lmplz_main.cc", "klm/util/stream/*", "klm/util/*", "libboost_thread", "libboost_program_options"],
    ["pthread semantics", "clock", "kernel file calls pass through a fault layer to files in a scratch directory"],
    "short reads and writes, EINTR, spurious wake-ups, garbage-filled fresh memory",
    "Differential between configurations and schedules plus an executable reference estimator; seeded search."),
 "L02": P("lmplz", 40, 600,
    "As L01 with one or more hard faults (read/write/seek/truncate/temp-file errors, full disk, a temporary file that ends early) at seeded I/O calls of any thread; non-trivial: a fault struck.",
    ["klm/lm/builder/* including lmplz_main.cc", "klm/util/stream/*", "klm/util/*", "libboost_thread", "libboost_program_options"],
    ["pthread semantics", "clock", "kernel file calls pass through a fault layer to files in a scratch directory"],
    "EIO on read/write, ENOSPC at a seeded capacity, failing ftruncate/lseek/mkstemp/fsync/mmap, temporary files that read as shorter, plus the benign faults of L01",
    "Every run must end in an error status or produce the undisturbed model; hang, silent difference and memory faults are violations."),
 "F01": P("filepiece", 30, 400,
    "A case draws a text, a format (plain, gzip, bzip2, xz, mixed members), a reader, a buffer size, a sequence of reading operations and a fault plan; non-trivial: non-empty text.",
    ["klm/util/file_piece.cc", "klm/util/read_compressed.cc", "klm/util/file.cc", "klm/util/mmap.cc", "zlib, libbz2, liblzma"],
    ["kernel file calls pass through a fault layer to files in a scratch directory"],
    "short reads, EINTR, mappings that fail at any shift",
    "Every returned line, word, number, character and offset is compared with the known text; seeded search over chunkings and operation sequences."),
 "F02": P("filepiece", 30, 400,
    "A case draws a source as in F01 and one kind of damage: read errors, a cut at any byte, flipped bits, zeroed or removed bytes of the compressed file; non-trivial: damage was applied.",
    ["klm/util/file_piece.cc", "klm/util/read_compressed.cc", "klm/util/file.cc", "klm/util/mmap.cc", "zlib, libbz2, liblzma"],
    ["kernel file calls pass through a fault layer to files in a scratch directory"],
    "EIO on read, files cut or altered on disk, short reads, EINTR, failing mappings",
    "The reader must end with an error or with exactly the original text, within a step bound; plain text carries no checksum, so only I/O errors are injected there."),
 "B01": P("lm", 40, 600,
    "A case draws an n-gram model, a data structure with its options, a write method and possibly an older complete file in the way; the build is cut at a seeded I/O call (or just after it ends) and a seeded subset of unsynchronised pages, with torn pages and arbitrary file size, survives; non-trivial: the build ran.",
    ["klm/lm/model.cc, binary_format.cc, vocab.cc, read_arpa.cc, search_hashed.cc, search_trie.cc, trie_sort.cc, trie.cc, quantize.cc, bhiksha.cc", "klm/lm/build_binary_main.cc", "klm/util/*"],
    ["kernel file calls and mappings pass through a fault layer to files in a scratch directory", "power-cut model of the disk"],
    "power cut at a seeded I/O call, lost/kept/torn dirty pages, background write-back, lost size changes and directory entries, truncation of the old file not yet durable",
    "Crash model: page-granular write-back in any order unless synchronised; ordered truncation; crash points are I/O calls (not between two plain stores into a mapping). The loaded answers are compared with those of the undisturbed model."),
 "B02": P("lm", 40, 600,
    "A case draws an n-gram model, data structure, options, small sort buffers (hook CDEC_SIMULATION) and a fault plan for the build; non-trivial: the build ran.",
    ["klm/lm/model.cc, binary_format.cc, vocab.cc, read_arpa.cc, search_hashed.cc, search_trie.cc, trie_sort.cc, trie.cc, quantize.cc, bhiksha.cc", "klm/lm/build_binary_main.cc", "klm/util/*"],
    ["kernel file calls and mappings pass through a fault layer to files in a scratch directory"],
    "EIO on read/write, ENOSPC at a seeded capacity, failing fsync/msync/ftruncate/mkstemp/open/mmap, short and interrupted reads and writes, garbage-filled fresh memory",
    "The build must end in an error or in a file whose answers are those of the text model; a file left after an error must be refused or complete."),
 "B03": P("lm", 40, 600,
    "A case draws an n-gram model, data structure, options, a load method, a query set and chunking/mapping faults, a cut or read errors on load; non-trivial: a model was built.",
    ["klm/lm/model.cc, binary_format.cc, vocab.cc, read_arpa.cc, search_hashed.cc, search_trie.cc, trie_sort.cc, trie.cc, quantize.cc, bhiksha.cc", "klm/lm/build_binary_main.cc", "klm/util/*"],
    ["kernel file calls and mappings pass through a fault layer to files in a scratch directory"],
    "short and interrupted reads, failing mappings, EIO on read while loading, files cut at any length, garbage-filled fresh memory",
    "Answers of every loading path are compared with those of the text model, and for exact structures with an independent backoff evaluation of the ARPA text."),
 "N01": P("sentserver", 40, 600,
    "A case draws input lines, ===SYNCH=== markers, server options, client programs with failure points and network behaviour, then one seeded schedule of server threads, clients and feeder; non-trivial: at least one input line.",
    ["training/utils/sentserver.cc (whole program)", "training/utils/sentclient.cc (whole program, for a quarter of the clients)"],
    ["pthread semantics", "sockets, pipes, select, accept/connect, fork/exec/wait, signals and clock are simulated", "worker programs and the feeder are the harness's own"],
    "clients that vanish at any point with FIN or RST, split and delayed messages, tiny socket buffers, aborted accepts, refused connections, busy port, slow clients and slow input",
    "The server's output is compared byte by byte with the replies in input order, and every hand-out of a line with the history of its earlier holders; clients are assumed to send nothing beyond their reply."),
 "N02": P("sentserver", 40, 600,
    "As N01, with clients that offer no key, a wrong or half a key, or send output beyond their reply; somebody always comes back later, so progress is due; non-trivial: at least one input line.",
    ["training/utils/sentserver.cc (whole program)", "training/utils/sentclient.cc (whole program, for a quarter of the clients)"],
    ["pthread semantics", "sockets, pipes, select, accept/connect, fork/exec/wait, signals and clock are simulated", "worker programs and the feeder are the harness's own"],
    "as N01, plus clients that connect and stay silent, wrong and partial keys, surplus output",
    "Bounded progress: the run must end within a step limit, by success or by the documented give-up when every connected client has died. A client that has authenticated and then stalls for ever is outside (the server has no timeout by design)."),
 "E01": P("extmetric", 30, 400,
    "A case draws one to three metric programs (through both scorer interfaces), requests and replies of any size, failure points, exit statuses and pipe behaviour, then one seeded schedule of scorer and metric processes; non-trivial: every case.",
    ["mteval/external_scorer.cc", "mteval/ns_ext.cc", "mteval/ns.cc", "utils/tdict.cc, dict.cc, stringlib.cc, filelib.cc"],
    ["pipes, fork/exec/wait, signals and clock are simulated", "metric programs are the harness's own"],
    "replies in pieces and with delays, tiny pipe buffers, metric processes that exit or are killed at any point of a request, failing pipe/fork/exec, SIGCHLD and SIGPIPE at any call",
    "Every returned value is compared with the value sent for that very request, every request and command line with the one meant; a metric lost before its last reply must end the scorer with an error."),
 "N03": P("lmclient", 20, 300,
    "A case draws one to three servers with start delays and failure points, a vocabulary, queries with repetitions and network behaviour, then one seeded schedule of decoder and servers; non-trivial: every case.",
    ["decoder/ff_lm.cc (remote client, cache, make_lm_impl)", "utils/tdict.cc, dict.cc, stringlib.cc"],
    ["sockets, signals and clock are simulated", "server programs are the harness's own", "the rest of the decoder is not linked"],
    "refused connections, late servers, replies in pieces and with delays, interrupted calls, tiny socket buffers, servers that vanish at any byte with FIN or RST",
    "Every probability returned is compared with the one this server gives for this n-gram; a server lost mid-way must end the decoder within the step bound."),
 "X01": P("extractor", 40, 600,
    "A case draws an aligned corpus, input sentences, index and extraction options, a thread count and I/O chunking, then one seeded schedule of the extraction threads; non-trivial: at least one rule is extracted.",
    ["extractor/*.cc, extractor/features/*.cc", "extractor/run_extractor.cc (whole program)", "boost program_options and filesystem"],
    ["OpenMP runtime (own implementation of the GOMP entry points over simulated pthreads)", "pthread semantics", "kernel file calls pass through a fault layer to files in a scratch directory"],
    "short reads and writes, arbitrary preemption at synchronisation calls and instrumented memory accesses, garbage-filled fresh memory",
    "Grammar files (as sets of lines) and output lines of the many-thread run are compared with those of a one-thread run without faults."),
 "X02": P("extractor", 40, 600,
    "As X01, with the index compiled by sacompile and read by extract (plain or gzip); a third of the cases also compare grammars with and without precomputed collocations; non-trivial: at least one rule is extracted.",
    ["extractor/*.cc, extractor/features/*.cc", "extractor/{sacompile,extract,run_extractor}.cc (whole programs)", "boost serialization", "utils/filelib.h, gzstream.cc, zlib"],
    ["OpenMP runtime (own implementation of the GOMP entry points over simulated pthreads)", "pthread semantics", "kernel file calls pass through a fault layer to files in a scratch directory"],
    "short reads and writes, arbitrary preemption, garbage-filled fresh memory",
    "Differential against extraction straight from the text by one thread."),
 "X03": P("extractor", 40, 600,
    "A case draws a corpus and options as X01 and one of: an index file cut at a seeded byte, failing writes or opens while compiling, failing reads while loading, failing writes of grammar files; non-trivial: a fault struck or a file was cut.",
    ["extractor/*.cc, extractor/features/*.cc", "extractor/{sacompile,extract,run_extractor}.cc (whole programs)", "boost serialization", "utils/filelib.h, gzstream.cc, zlib"],
    ["OpenMP runtime (own implementation of the GOMP entry points over simulated pthreads)", "kernel file calls pass through a fault layer to files in a scratch directory"],
    "files cut at any byte, EIO on read and write, ENOSPC at a seeded capacity, failing opens, short reads and writes",
    "Every run must end with an error or give exactly the grammars of the undisturbed run; a cut index must be refused."),
 "G01": P("textfile", 30, 400,
    "A case draws a text (any characters but NUL, sizes around gzstream's buffer included), a sequence of stream operations writing it, a sequence of operations reading it, and one of: splits only, failing writes, failing reads, a damaged or cut .gz file, a copy; non-trivial: the text is not empty and the damage or fault struck.",
    ["utils/filelib.h, filelib.cc, gzstream.cc/h", "zlib, libstdc++ file streams"],
    ["kernel file calls pass through a fault layer to files in a scratch directory"],
    "short reads and writes, EIO on read and write, ENOSPC at a seeded capacity, failing opens and closes, .gz files cut or with flipped bits",
    "The decompressor of the oracle is a separate inflate loop over the bytes on disk."),
 "W01": P("textfile", 30, 400,
    "A case draws feature names and finite weights, a plain or .gz name, hidden zeros, a comment, a dictionary with other numbers at reading, and one of: splits only, failing writes, failing reads, a damaged or cut .gz file, the binary format; non-trivial: the damage or fault struck.",
    ["utils/weights.cc, fdict.cc, dict.h, filelib.h, gzstream.cc", "zlib, libstdc++ file streams"],
    ["kernel file calls pass through a fault layer to files in a scratch directory"],
    "short reads and writes, EIO on read and write, ENOSPC at a seeded capacity, failing opens and closes, .gz files cut or with flipped bits",
    "Weights are compared bit for bit (except the sign of zero)."),
 "O01": P("optimizer", 20, 300,
    "A case draws an optimizer (RProp, L-BFGS) with its options, an objective (quadratic, logistic, Rosenbrock, waves, kinks) over one to twelve variables, the steps after which the process stops, which of its last states was only partly written, and the contents of fresh memory; non-trivial: at least two steps.",
    ["training/utils/optimize.cc/h, lbfgs.h", "libstdc++ file streams"],
    ["the training program around the optimizer (a loop of the harness that saves every k steps and starts again from the last state)", "kernel file calls pass through a fault layer to files in a scratch directory"],
    "process stopped after any step, state files cut at any byte, EIO on write, short reads and writes, random contents of fresh memory",
    "Oracle: the same optimizer run without a stop; parameters are compared bit for bit. States of another kind or size of optimizer must be refused, too."),
 "D01": P("decoder", 70, 600,
    "A case draws one decoder setup (SCFG with several grammars, per-sentence grammars and feature functions; phrase-based; tagger; lexical translation; lexical alignment; compound splitter; tree-to-string; FST), a pruning strategy, an output (best, k-best, unique k-best with derivation files, forest files, graphviz, joshua text, extracted rules, gradient, expectations), random weights for every feature that occurs, a pool of sentences, and a history of one to six of them with repetitions, empty lines and implicit or explicit numbers; non-trivial: at least two sentences.",
    ["decoder/cdec.cc main and decoder.cc", "every translator, grammar and feature function the setup names", "cube pruning, k-best, forest files, rule extraction, tree fragments"],
    ["kernel file calls pass through a fault layer to files in a scratch directory"],
    "short reads and writes, EINTR, random contents of fresh memory in the process that decodes the whole history",
    "Oracle: each sentence decoded alone in a fresh process with zeroed memory. Standard output, the report on standard error and every file must be the same byte for byte (forests: the same text form when the nodes' identities contain vocabulary numbers)."),
"D02": P("decoder", 60, 600,
    "Either a random hypergraph (nodes, edges, rules, features with extreme values) is written and read back by HypergraphIO, or cdec decodes one to three sentences with -O, possibly twice so that the second forests are added to the first ones, and 'cdec -f rescore' reads each file; the file may be cut at any byte, the writer stopped after any step, and any write, open or close may fail; non-trivial: a file existed when it was read.",
    ["decoder/hg_io.cc and the serialisation in hg.h, trule.h and the containers", "decoder/forest_writer.cc, rescore_translator.cc, decoder.cc main loop", "utils/filelib.h, utils/gzstream.cc"],
    ["kernel file calls pass through a fault layer to files in a scratch directory; a power cut keeps what a disk may keep"],
    "short reads and writes, EINTR (files that are not compressed), EIO on read and write, failing open and close, full disk, process stopped or power lost at any step, file cut at any byte, random contents of fresh memory",
    "Oracle: a text form of the forest made before it was written (library), or the k-best list of up to 3000 derivations of the run that saved it (decoder). What is read must be that forest, or reading must end with an error."),
"D04": P("decoder", 60, 600,
    "A case draws one of the decoder setups of D01 (any translator, its grammars, models and feature functions, some of the files compressed), one of ten outputs, and one kind of harm: reads that fail, writes that fail, a disk that gets full, calls that fail to open, close or seek, or a compressed file that is cut short; non-trivial: a fault happened or a file was cut.",
    ["decoder/cdec.cc main and decoder.cc", "every translator, grammar and feature function the setup names", "utils/filelib.h, utils/gzstream.cc, kenlm's readers", "forest, derivation, rule and target graph files"],
    ["kernel file calls pass through a fault layer to files in a scratch directory; stdin and stdout are C streams over it"],
    "EIO on read and write, failing open, close and seek, full disk, short reads and writes, compressed files cut at any byte",
    "Oracle: the same command in the same process state without faults. Either the exit status says failure or standard output and all files are the same byte for byte."),
"D05": P("decoder", 60, 600,
    "A case draws a decoder setup of D01 (SCFG with or without source trees, phrase-based, tagger, lexical translation, tree-to-string or FST translator, up to four of its feature functions, a language model), all weights, one or two sentences, and a second way to search: the rules in another order, cube pruning with room for everything, three kinds of cube pruning with any limit, or a part of the rules; non-trivial: two or more derivations.",
    ["decoder/cdec.cc main and decoder.cc", "every translator and feature function the setup names", "all intersection strategies, k-best extraction"],
    ["kernel file calls pass through a fault layer to files in a scratch directory"],
    "short reads, EINTR; the seam is the search itself: order of rules, order of the agenda, what is pruned",
    "Oracle: the full search over the original grammar in the same process image. k-best lists are compared as multisets of yield and features, scores to 2e-5. Language model, n-gram, word penalty, non-Latin, word list and output indicator features are also compared with a count over the words of each translation."),
"D03": P("decoder", 60, 600,
    "A case draws a synchronous grammar (one to three categories, rules of arity 0-2, unary rules, repeated rules, empty target sides) or a phrase table, per-sentence grammars, sentences or lattices of up to six positions (multi-arc, skipping arcs, epsilon arcs, arc costs), weights, a language model, glue and pass-through rules, span and distortion limits, a search strategy (full, three kinds of cube pruning, beam and density pruning), one of six outputs, text or base64 vectors, the chunking of every read and write and the contents of fresh memory; non-trivial: at least one sentence with two derivations.",
    ["decoder/cdec.cc main and decoder.cc", "SCFG and phrase-based translators, grammar reader, bottom-up parser", "rescoring with KLanguageModel and WordPenalty, all intersection strategies", "Viterbi, k-best, inside-outside, pruning, reference intersection, gradient output"],
    ["kernel file calls pass through a fault layer to files in a scratch directory"],
    "short reads and writes, EINTR, random contents of fresh memory",
    "Oracle: an independent enumeration of all derivations with their yields and features (and an independent n-gram model). Lists are compared as multisets of yield and features with scores, sums to a relative error of 2e-5 (printing). Inputs with more than 2500 derivations are not compared."),
"M01": P("mira", 40, 600,
    "A case draws grammars with dense and sparse features (one for all sentences, one per sentence, or both), an optimizer, metric, k-best sizes and step size, and a history of up to 13 requests (translate, LEARN, set or write weights, malformed lines, words the grammar does not know), and one cut of it; non-trivial: at least one LEARN.",
    ["training/mira/kbest_cut_mira.cc main", "decoder, SCFG translator, k-best extraction, mteval metrics, weights", "decoder/cdec.cc main (as reference)"],
    ["the client is a simulated process; pipes, fork and file calls are simulated"],
    "requests and replies arrive in pieces, short reads, EINTR, random contents of fresh memory, the trainer stopped at any request and started again with its weights",
    "Oracle: the same requests to a fresh process that starts with, or is told, the weights; to one that was not asked for the translations before; translations by cdec itself with the same weights. Derivations of a sentence have no equal features, so there are no ties."),
 "M02": P("mira", 40, 600,
    "A case draws grammars, optimizer, metric and step size as in M01, up to ten sentences with one to three references, the pass number (with the scores of the last pass), and then either the comparison with stream mode or a fault; non-trivial: a fault happened or the comparison ran.",
    ["training/mira/kbest_cut_mira.cc main, batch and stream mode", "decoder, SCFG translator, k-best extraction, mteval metrics, weights", "utils/filelib.h, utils/gzstream.cc"],
    ["kernel file calls pass through a fault layer to files in a scratch directory"],
    "EIO on read and write, failing open and close, full disk, short reads and writes, random contents of fresh memory",
    "Oracle: LEARN requests to the stream mode with the weights written after each of them (final weights and their average to 1e-9); the same pass without faults (standard output and weights files byte for byte)."),
"R01": P("realtime", 60, 600,
    "A case draws one to four clients (threads) with one to five requests each (TR, LEARN, SAVE, LOAD, DROP, LIST, by call or as command lines) to one to four contexts, the size of the grammar cache, normalisation, the adaptive language model, every thread switch and process step, and in almost half of the cases a fault; some cases run the command line service realtime.py instead; non-trivial: two or more clients and four or more switches.",
    ["realtime/rt/*.py and realtime/realtime.py, loaded from their source", "their locks, caches and protocols with the backend programs"],
    ["threads run one at a time under a seeded scheduler that may switch at every statement, call, comparison and load of the code (the source is instrumented when it is loaded)", "threading, Queue, time, subprocess, tempfile and the file calls are stand-ins; Python 2 source runs under Python 3", "fast_align, atools, the grammar extractor, kbest_cut_mira and the tokenizers are deterministic programs with the same line protocols, whose replies depend on everything they were told"],
    "a backend process dies at any request; open, mkdir, mkstemp and process creation fail; disk full while a state is saved; backends that fill their error pipe",
    "Oracle: a sequential model of a context. The replies of each context must be those of some order of its requests that respects real time and the order of arrival at the lock; requests of one context do not overlap at the backends; LIST names what exists; a context that failed works again once dropped; nothing is left behind at the end and nobody waits forever.",
    memory=["the interpreter's own lock makes single bytecodes atomic"], sched=PYSCHED),
"R02": P("realtime", 60, 600,
    "A case draws a history of up to eight requests to up to three contexts, the context that is saved, the way it is saved and loaded (file, buffer, command line, -s), and then: the file as it is, cut at any byte, with a damaged line, or the machine stops after the save; a fresh service loads it and serves more requests while another client uses other contexts; non-trivial: something was learned before the save.",
    ["realtime/rt/*.py and realtime/realtime.py, loaded from their source"],
    ["as for R01"],
    "state file cut at any byte, damaged line, service stopped right after the save",
    "Oracle: the sequential model: the restored context must answer like the one that was saved would have (its grammars extracted anew); a state that is cut or damaged leaves a working empty context, never a half of the state.",
    memory=["the interpreter's own lock makes single bytecodes atomic"], sched=PYSCHED),
}
