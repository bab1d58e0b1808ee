From 69211c06671d77a7e0fd29824f010960d847009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 01/72] fix: prune the last lower-order n-grams on their real
 counts

The n-grams still pending when the corpus ends were pruned when their adjusted
count, not their count in the corpus, was at most the threshold.  The model lost
n-grams that should stay, or estimation failed with 'n-gram without matching
suffix'.
---
 klm/lm/builder/adjust_counts.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klm/lm/builder/adjust_counts.cc b/klm/lm/builder/adjust_counts.cc
index 803c557..b49a99f 100644
--- a/klm/lm/builder/adjust_counts.cc
+++ b/klm/lm/builder/adjust_counts.cc
@@ -269,7 +269,8 @@ void AdjustCounts::Run(const util::stream::ChainPositions &positions) {
 
   // Output everything valid.
   for (NGramStream *s = streams.begin(); s <= lower_valid; ++s) {
-    if((*s)->Count() <= prune_thresholds_[(*s)->Order() - 1])
+    const std::size_t s_order = (*s)->Order();
+    if(s_order > 1 && prune_thresholds_[s_order - 1] && lower_counts[s_order - 1] <= prune_thresholds_[s_order - 1])
       (*s)->Mark();
     stats.Add(s - streams.begin(), (*s)->UnmarkedCount(), (*s)->IsMarked());
     ++*s;
-- 
2.43.0


From 5529961bc4a0ef664b34d7b6c1d91d83ae1fe116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 02/72] fix: do not hang in lmplz when an error happens while
 chains are running

Unwinding past local chains waited for threads that could never finish.
---
 klm/lm/builder/pipeline.cc | 94 +++++++++++++++++++++++---------------
 1 file changed, 57 insertions(+), 37 deletions(-)

diff --git a/klm/lm/builder/pipeline.cc b/klm/lm/builder/pipeline.cc
index 21064ab..1dcc508 100644
--- a/klm/lm/builder/pipeline.cc
+++ b/klm/lm/builder/pipeline.cc
@@ -34,6 +34,14 @@ void PrintStatistics(const std::vector<uint64_t> &counts, const std::vector<uint
   }
 }
 
+// Chains wait for their threads on destruction.  Those threads never finish if
+// an exception keeps the rest of the pipeline from being built, so errors that
+// happen while chains are running must not unwind past the chains.
+void AbortWith(const std::exception &e) {
+  std::cerr << e.what() << std::endl;
+  abort();
+}
+
 class Master {
   public:
     explicit Master(const PipelineConfig &config) 
@@ -226,40 +234,48 @@ void CountText(int text_file /* input */, int vocab_file /* output */, Master &m
   util::FilePiece text(text_file, NULL, &std::cerr);
   text_file_name = text.FileName();
   CorpusCount counter(text, vocab_file, token_count, type_count, chain.BlockSize() / chain.EntrySize(), config.disallowed_symbol_action);
-  chain >> boost::ref(counter);
-
-  util::stream::Sort<SuffixOrder, AddCombiner> sorter(chain, config.sort, SuffixOrder(config.order), AddCombiner());
-  chain.Wait(true);
-  std::cerr << "Unigram tokens " << token_count << " types " << type_count << std::endl;
-  std::cerr << "=== 2/5 Calculating and sorting adjusted counts ===" << std::endl;
-  master.InitForAdjust(sorter, type_count);
+  try {
+    chain >> boost::ref(counter);
+
+    util::stream::Sort<SuffixOrder, AddCombiner> sorter(chain, config.sort, SuffixOrder(config.order), AddCombiner());
+    chain.Wait(true);
+    std::cerr << "Unigram tokens " << token_count << " types " << type_count << std::endl;
+    std::cerr << "=== 2/5 Calculating and sorting adjusted counts ===" << std::endl;
+    master.InitForAdjust(sorter, type_count);
+  } catch (const std::exception &e) {
+    AbortWith(e);
+  }
 }
 
 void InitialProbabilities(const std::vector<uint64_t> &counts, const std::vector<uint64_t> &counts_pruned, const std::vector<Discount> &discounts, Master &master, Sorts<SuffixOrder> &primary,
                           util::FixedArray<util::stream::FileBuffer> &gammas, const std::vector<uint64_t> &prune_thresholds) {
   const PipelineConfig &config = master.Config();
   util::stream::Chains second(config.order);
+  util::stream::Chains gamma_chains(config.order);
 
-  {
-    Sorts<ContextOrder> sorts;
-    master.SetupSorts(sorts);
-    PrintStatistics(counts, counts_pruned, discounts);
-    lm::ngram::ShowSizes(counts_pruned);
-    std::cerr << "=== 3/5 Calculating and sorting initial probabilities ===" << std::endl;
-    master.SortAndReadTwice(counts_pruned, sorts, second, config.initial_probs.adder_in);
-  }
+  try {
+    {
+      Sorts<ContextOrder> sorts;
+      master.SetupSorts(sorts);
+      PrintStatistics(counts, counts_pruned, discounts);
+      lm::ngram::ShowSizes(counts_pruned);
+      std::cerr << "=== 3/5 Calculating and sorting initial probabilities ===" << std::endl;
+      master.SortAndReadTwice(counts_pruned, sorts, second, config.initial_probs.adder_in);
+    }
 
-  util::stream::Chains gamma_chains(config.order);
-  InitialProbabilities(config.initial_probs, discounts, master.MutableChains(), second, gamma_chains, prune_thresholds);
-  // Don't care about gamma for 0.  
-  gamma_chains[0] >> util::stream::kRecycle;
-  gammas.Init(config.order - 1);
-  for (std::size_t i = 1; i < config.order; ++i) {
-    gammas.push_back(util::MakeTemp(config.TempPrefix()));
-    gamma_chains[i] >> gammas[i - 1].Sink();
+    InitialProbabilities(config.initial_probs, discounts, master.MutableChains(), second, gamma_chains, prune_thresholds);
+    // Don't care about gamma for 0.  
+    gamma_chains[0] >> util::stream::kRecycle;
+    gammas.Init(config.order - 1);
+    for (std::size_t i = 1; i < config.order; ++i) {
+      gammas.push_back(util::MakeTemp(config.TempPrefix()));
+      gamma_chains[i] >> gammas[i - 1].Sink();
+    }
+    // Has to be done here due to gamma_chains scope.
+    master.SetupSorts(primary);
+  } catch (const std::exception &e) {
+    AbortWith(e);
   }
-  // Has to be done here due to gamma_chains scope.
-  master.SetupSorts(primary);
 }
 
 void InterpolateProbabilities(const std::vector<uint64_t> &counts, Master &master, Sorts<SuffixOrder> &primary, util::FixedArray<util::stream::FileBuffer> &gammas) {
@@ -268,21 +284,25 @@ void InterpolateProbabilities(const std::vector<uint64_t> &counts, Master &maste
   master.MaximumLazyInput(counts, primary);
 
   util::stream::Chains gamma_chains(config.order - 1);
-  for (std::size_t i = 0; i < config.order - 1; ++i) {
-    util::stream::ChainConfig read_backoffs(config.read_backoffs);
+  try {
+    for (std::size_t i = 0; i < config.order - 1; ++i) {
+      util::stream::ChainConfig read_backoffs(config.read_backoffs);
 
-    // Add 1 because here we are skipping unigrams
-    if(config.prune_thresholds[i + 1] > 0)
-        read_backoffs.entry_size = sizeof(HashGamma);
-    else
-        read_backoffs.entry_size = sizeof(float);
+      // Add 1 because here we are skipping unigrams
+      if(config.prune_thresholds[i + 1] > 0)
+          read_backoffs.entry_size = sizeof(HashGamma);
+      else
+          read_backoffs.entry_size = sizeof(float);
 
-    gamma_chains.push_back(read_backoffs);
-    gamma_chains.back() >> gammas[i].Source();
+      gamma_chains.push_back(read_backoffs);
+      gamma_chains.back() >> gammas[i].Source();
+    }
+    master >> Interpolate(std::max(master.Config().vocab_size_for_unk, counts[0] - 1 /* <s> is not included */), util::stream::ChainPositions(gamma_chains), config.prune_thresholds, config.output_q);
+    gamma_chains >> util::stream::kRecycle;
+    master.BufferFinal(counts);
+  } catch (const std::exception &e) {
+    AbortWith(e);
   }
-  master >> Interpolate(std::max(master.Config().vocab_size_for_unk, counts[0] - 1 /* <s> is not included */), util::stream::ChainPositions(gamma_chains), config.prune_thresholds, config.output_q);
-  gamma_chains >> util::stream::kRecycle;
-  master.BufferFinal(counts);
 }
 
 } // namespace
-- 
2.43.0


From d778fb5dd179997cb527fbcfbbdaf6aa9742611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 03/72] fix: report truncated bzip2 input instead of reading
 forever

---
 klm/util/read_compressed.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/klm/util/read_compressed.cc b/klm/util/read_compressed.cc
index cee9804..7aa96be 100644
--- a/klm/util/read_compressed.cc
+++ b/klm/util/read_compressed.cc
@@ -209,7 +209,7 @@ class GZip {
 #ifdef HAVE_BZLIB
 class BZip {
   public:
-    BZip(const void *base, std::size_t amount) {
+    BZip(const void *base, std::size_t amount) : input_ended_(false) {
       memset(&stream_, 0, sizeof(stream_));
       SetInput(base, amount);
       HandleError(BZ2_bzDecompressInit(&stream_, 0, 0));
@@ -228,6 +228,8 @@ class BZip {
       int ret = BZ2_bzDecompress(&stream_);
       if (ret == BZ_STREAM_END) return false;
       HandleError(ret);
+      // bzip2 returns BZ_OK forever when a truncated file runs out of input.
+      UTIL_THROW_IF(input_ended_ && stream_.avail_out, BZException, "bzip2 says unexpected end of input");
       return true;
     }
 
@@ -239,6 +241,7 @@ class BZip {
     void SetInput(const void *base, std::size_t amount) {
       stream_.next_in = const_cast<char*>(static_cast<const char*>(base));
       stream_.avail_in = amount;
+      input_ended_ = !amount;
     }
 
     const bz_stream &Stream() const { return stream_; }
@@ -264,6 +267,7 @@ class BZip {
     }
 
     bz_stream stream_;
+    bool input_ended_;
 };
 #endif // HAVE_BZLIB
 
-- 
2.43.0


From 589561f8b99389985fb75d0d92229ab77ef37e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 04/72] fix: FilePiece::get() lost the last mapped chunk of a
 file

---
 klm/util/file_piece.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klm/util/file_piece.hh b/klm/util/file_piece.hh
index 5495ddc..c2b2a18 100644
--- a/klm/util/file_piece.hh
+++ b/klm/util/file_piece.hh
@@ -45,7 +45,8 @@ class FilePiece {
     char get() {
       if (position_ == position_end_) {
         Shift();
-        if (at_end_) throw EndOfFileException();
+        // at_end_ only says that the buffer holds the last of the file.
+        if (position_ == position_end_) throw EndOfFileException();
       }
       return *(position_++);
     }
-- 
2.43.0


From cf7ae53bcaedaec2062c470aff64c76c2856693a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 05/72] fix: FilePiece::Offset() after a buffer move or a
 failed mapping

---
 klm/util/file_piece.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klm/util/file_piece.cc b/klm/util/file_piece.cc
index 4aaa250..926df33 100644
--- a/klm/util/file_piece.cc
+++ b/klm/util/file_piece.cc
@@ -252,6 +252,7 @@ void FilePiece::MMapShift(uint64_t desired_begin) {
     // The mmap was scheduled to end the file, but now we're going to read it.  
     at_end_ = false;
     TransitionToRead();
+    mapped_offset_ = desired_begin;
     return;
   }
   mapped_offset_ = mapped_offset;
@@ -302,6 +303,7 @@ void FilePiece::ReadShift() {
       position_end_ = position_ + valid_length;
     } else {
       std::size_t moving = position_end_ - position_;
+      mapped_offset_ += position_ - data_.begin();
       memmove(data_.get(), position_, moving);
       position_ = data_.begin();
       position_end_ = position_ + moving;
-- 
2.43.0


From a2c3e88cc4278efd2bcb1ab003fbe2ccc76efa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 06/72] hook: CDEC_SIMULATION lets the simulator use small trie
 sort buffers

---
 klm/lm/search_trie.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/klm/lm/search_trie.cc b/klm/lm/search_trie.cc
index 7fc70f4..c97b591 100644
--- a/klm/lm/search_trie.cc
+++ b/klm/lm/search_trie.cc
@@ -585,7 +585,12 @@ template <class Quant, class Bhiksha> void TrieSearch<Quant, Bhiksha>::Initializ
     temporary_prefix = file;
   }
   // At least 1MB sorting memory.
-  SortedFiles sorted(config, f, counts, std::max<size_t>(config.building_memory, 1048576), temporary_prefix, vocab);
+#ifdef CDEC_SIMULATION
+  const size_t min_sort_memory = CDEC_SIMULATION;
+#else
+  const size_t min_sort_memory = 1048576;
+#endif
+  SortedFiles sorted(config, f, counts, std::max<size_t>(config.building_memory, min_sort_memory), temporary_prefix, vocab);
 
   BuildTrie(sorted, counts, config, *this, quant_, vocab, backing);
 }
-- 
2.43.0


From 09293477720f75e18045a73e5b140bdb1afc3bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 07/72] fix: report a failed flush when a trie temporary file
 is rewound

---
 klm/lm/search_trie.cc | 4 ++--
 klm/lm/trie_sort.cc   | 8 ++++++--
 klm/lm/trie_sort.hh   | 3 +++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/klm/lm/search_trie.cc b/klm/lm/search_trie.cc
index c97b591..65fc8cf 100644
--- a/klm/lm/search_trie.cc
+++ b/klm/lm/search_trie.cc
@@ -77,7 +77,7 @@ class BackoffMessages {
     void Apply(float *const *const base, FILE *unigrams) {
       FinishedAdding();
       if (current_ == allocated_) return;
-      rewind(unigrams);
+      RewindOrThrow(unigrams);
       ProbBackoff weights;
       WordIndex unigram = 0;
       ReadOrThrow(unigrams, &weights, sizeof(weights));
@@ -443,7 +443,7 @@ template <class Quant> void TrainProbQuantizer(uint8_t order, uint64_t count, Re
 void PopulateUnigramWeights(FILE *file, WordIndex unigram_count, RecordReader &contexts, UnigramValue *unigrams) {
   // Fill unigram probabilities.
   try {
-    rewind(file);
+    RewindOrThrow(file);
     for (WordIndex i = 0; i < unigram_count; ++i) {
       ReadOrThrow(file, &unigrams[i].weights, sizeof(ProbBackoff));
       if (contexts && *reinterpret_cast<const WordIndex*>(contexts.Data()) == i) {
diff --git a/klm/lm/trie_sort.cc b/klm/lm/trie_sort.cc
index c3f4687..4e8ad98 100644
--- a/klm/lm/trie_sort.cc
+++ b/klm/lm/trie_sort.cc
@@ -152,13 +152,17 @@ template <class Combine> FILE *MergeSortedFiles(FILE *first_file, FILE *second_f
 
 } // namespace
 
+void RewindOrThrow(FILE *file) {
+  UTIL_THROW_IF(fseek(file, 0, SEEK_SET), util::ErrnoException, "Couldn't flush and rewind a temporary file");
+}
+
 void RecordReader::Init(FILE *file, std::size_t entry_size) {
   entry_size_ = entry_size;
   data_.reset(malloc(entry_size));
   UTIL_THROW_IF(!data_.get(), util::ErrnoException, "Failed to malloc read buffer");
   file_ = file;
   if (file) {
-    rewind(file);
+    RewindOrThrow(file);
     remains_ = true;
     ++*this;
   } else {
@@ -179,7 +183,7 @@ void RecordReader::Overwrite(const void *start, std::size_t amount) {
 
 void RecordReader::Rewind() {
   if (file_) {
-    rewind(file_);
+    RewindOrThrow(file_);
     remains_ = true;
     ++*this;
   } else {
diff --git a/klm/lm/trie_sort.hh b/klm/lm/trie_sort.hh
index e5406d9..04f883a 100644
--- a/klm/lm/trie_sort.hh
+++ b/klm/lm/trie_sort.hh
@@ -46,6 +46,9 @@ class EntryCompare : public std::binary_function<const void*, const void*, bool>
     unsigned char order_;
 };
 
+// Unlike rewind(), reports an error when buffered writes cannot be flushed.
+void RewindOrThrow(FILE *file);
+
 class RecordReader {
   public:
     RecordReader() : remains_(true) {}
-- 
2.43.0


From dbc28ef5976d6e4554c0c27cc087e48f75599d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 08/72] fix: sentserver survives clients that disconnect or
 stall before sending the key

---
 training/utils/sentserver.cc | 65 ++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index b425955..70df078 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -44,6 +44,7 @@ int s;
 int expect_multiline_output = 0;
 int log_mutex = 0;
 int stay_alive = 0;		/* dont panic and die with zero clients */
+char *key = NULL;		/* clients must send this first, unless NULL */
 
 void queue_finish(struct line *node, char *s, int fid);
 char * read_line(int fd, int multiline);
@@ -319,6 +320,30 @@ char * read_line(int fd, int multiline) {
   return s;
 }
 
+/* Returns 1 if the client sends the right key in time. Called from the
+   client's own thread, so that a slow one keeps nobody else waiting. */
+int check_key(int fd) {
+	fd_set set;
+	struct timeval timeout;
+	char *client_key;
+	int ok;
+
+	FD_ZERO(&set);
+	FD_SET(fd, &set);
+	timeout.tv_sec = 3; // number of seconds for timeout
+	timeout.tv_usec = 0;
+
+	if (select(FD_SETSIZE, &set, NULL, NULL, &timeout) < 1)
+		return 0;
+	client_key = read_line(fd,0);
+	if (client_key == NULL)
+		return 0;
+	client_key[strlen(client_key)-1]='\0'; /* chop trailing newline */
+	ok = strcmp(key, client_key)==0;
+	free(client_key);
+	return ok;
+}
+
 void * new_client(void *arg) {
   struct clientinfo *client = (struct clientinfo *)arg;
   struct line *cur;
@@ -326,6 +351,13 @@ void * new_client(void *arg) {
   char *s;
   char errorbuf[100];
 
+  if (key != NULL && !check_key(client->s)) {
+    fprintf(stderr, "Prospective client failed to respond with correct key.\n");
+    close(client->s);
+    free(client);
+    return NULL;
+  }
+
   pthread_mutex_lock(&clients_mutex);
   n_clients++;
   pthread_mutex_unlock(&clients_mutex);
@@ -406,8 +438,6 @@ int main (int argc, char *argv[]) {
   int opt;
   int errors = 0;
   int argi;
-  char *key = NULL, *client_key;
-  int use_key = 0;
   /* the key stuff here doesn't provide any
   real measure of security, it's mainly to keep
   jobs from bumping into each other.  */
@@ -425,7 +455,6 @@ int main (int argc, char *argv[]) {
       	exit(1);
       }
       key = argv[argi];
-      use_key = 1;
     } else if (strcmp(argv[argi], "--stay-alive")==0){
       stay_alive = 1;    /* dont panic and die with zero clients */
     } else {
@@ -478,35 +507,7 @@ int main (int argc, char *argv[]) {
     client->s = g;
     bcopy(&from, &client->sin, len);
 
-	if (use_key){
-		fd_set set;
-		FD_ZERO(&set);
-		FD_SET(client->s, &set);
-
-		struct timeval timeout;
-		timeout.tv_sec = 3; // number of seconds for timeout
-		timeout.tv_usec = 0;
-
-		int ready = select(FD_SETSIZE, &set, NULL, NULL, &timeout);
-		if (ready<1){
-			fprintf(stderr, "Prospective client failed to respond with correct key.\n");
-			close(client->s);
-			free(client);
-		} else {
-			client_key = read_line(client->s,0);
-			client_key[strlen(client_key)-1]='\0'; /* chop trailing newline */
-			if (strcmp(key, client_key)==0){
-				pthread_create(&tid, NULL, new_client, client);
-			} else {
-				fprintf(stderr, "Prospective client failed to respond with correct key.\n");
-				close(client->s);
-				free(client);
-			}
-			free(client_key);
-		}
-	} else {
-		pthread_create(&tid, NULL, new_client, client);
-	}
+    pthread_create(&tid, NULL, new_client, client);
   }
 
 }
-- 
2.43.0


From 53dde49d1645a0c7c35650a9ea9e1891954e2ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 09/72] fix: sentserver gives a sentence to another client when
 the reply is cut short

---
 training/utils/sentserver.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index 70df078..cb63671 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -47,7 +47,7 @@ int stay_alive = 0;		/* dont panic and die with zero clients */
 char *key = NULL;		/* clients must send this first, unless NULL */
 
 void queue_finish(struct line *node, char *s, int fid);
-char * read_line(int fd, int multiline);
+char * read_line(int fd, int multiline, int partial_ok);
 void done (int code);
 
 struct line * queue_get(int fid) {
@@ -78,7 +78,7 @@ struct line * queue_get(int fid) {
 	if (log_mutex) fprintf(stderr, "Locking input mutex (%d)\n", fid);
 	if (log_mutex) fprintf(stderr, "  Reading input for new data (fid %d)\n", fid);
 	pthread_mutex_lock(&input_mutex);
-	s = read_line(0,0);
+	s = read_line(0,0,1);
 
 	while (s) {
 		if (log_mutex) fprintf(stderr, "Locking queue mutex (%d)\n", fid);
@@ -111,7 +111,7 @@ struct line * queue_get(int fid) {
 			if (log_mutex) fprintf(stderr, "  Reading input for new data (fid %d)\n", fid);
 			pthread_mutex_lock(&input_mutex);
 
-			s = read_line(0,0);
+			s = read_line(0,0,1);
 		} else {
 			if (log_mutex) fprintf(stderr, "  Received new data %d (fid %d)\n", cur->id, fid);
 			cur->status = STATUS_RUNNING;
@@ -245,7 +245,9 @@ void queue_finish(struct line *node, char *s, int fid) {
 
 }
 
-char * read_line(int fd, int multiline) {
+/* Returns NULL at the end of the input. Input that ends in the middle of a
+   line counts as a line only if partial_ok. */
+char * read_line(int fd, int multiline, int partial_ok) {
   int size = 80;
   char errorbuf[100];
   char *s = (char*)malloc(size+2);
@@ -309,9 +311,13 @@ char * read_line(int fd, int multiline) {
     result = read(fd, s+i, 1);
   }
 
-  if (result == 0 && i == 0) { /* end of file */
-    free(s);
-    return NULL;
+  if (result == 0) { /* end of file */
+    if (i > 0 && s[i-1] == '\n') {
+      i--; /* the sender left after a complete line of a multiline message */
+    } else if (i == 0 || !partial_ok) {
+      free(s);
+      return NULL;
+    }
   }
 
   s[i] = '\n';
@@ -335,7 +341,7 @@ int check_key(int fd) {
 
 	if (select(FD_SETSIZE, &set, NULL, NULL, &timeout) < 1)
 		return 0;
-	client_key = read_line(fd,0);
+	client_key = read_line(fd,0,0);
 	if (client_key == NULL)
 		return 0;
 	client_key[strlen(client_key)-1]='\0'; /* chop trailing newline */
@@ -398,7 +404,7 @@ void * new_client(void *arg) {
       pthread_exit(NULL);
     }
 
-    s = read_line(client->s,expect_multiline_output);
+    s = read_line(client->s,expect_multiline_output,0);
     if (s) {
       /* fprintf(stderr, "Client (fid %d) returned: %s", client->s, s); */
       fprintf(stderr, "Client (fid %d) returned data %d\n", client->s, cur->id);
-- 
2.43.0


From 17667a8cef2213d6dc059a1bdcd8c4496465f5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 10/72] fix: sentserver read an uninitialised status of
 ===SYNCH=== entries

---
 training/utils/sentserver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index cb63671..80263ce 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -89,6 +89,7 @@ struct line * queue_get(int fid) {
 		cur = (line*)malloc(sizeof (struct line));
 		cur->id = n_sent;
 		cur->s = s;
+		cur->status = STATUS_RUNNING;
 		cur->next = NULL;
 
 		*ptail = cur;
@@ -114,7 +115,6 @@ struct line * queue_get(int fid) {
 			s = read_line(0,0,1);
 		} else {
 			if (log_mutex) fprintf(stderr, "  Received new data %d (fid %d)\n", cur->id, fid);
-			cur->status = STATUS_RUNNING;
 			if (log_mutex) fprintf(stderr, "Unlocking queue mutex (%d)\n", fid);
 			pthread_mutex_unlock(&queue_mutex);
 			return cur;
-- 
2.43.0


From 27857cc569c41af23dc39b9a308dccd559c3c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 11/72] fix: sentserver is not killed by writing to a client
 that has gone

---
 training/utils/sentserver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index 80263ce..bd3cf75 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -377,7 +377,8 @@ void * new_client(void *arg) {
     if (cur) {
       /* fprintf(stderr, "Sending to client: %s", cur->s); */
       fprintf(stderr, "Sending data %d to client (fid %d)\n", cur->id, client->s);
-      result = write(client->s, cur->s, strlen(cur->s));
+      /* a client that has died must not kill the server with SIGPIPE */
+      result = send(client->s, cur->s, strlen(cur->s), MSG_NOSIGNAL);
       if (result < strlen(cur->s)){
         perror("write()");
         sprintf(errorbuf, "Error code: %d\n", errno);
-- 
2.43.0


From 74914415f373e2fba81f1e6f5f3a35ea1b4729da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:23 +0000
Subject: [PATCH 12/72] fix: adjusting counts wrote past the end of the last
 block

---
 klm/lm/builder/adjust_counts.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klm/lm/builder/adjust_counts.cc b/klm/lm/builder/adjust_counts.cc
index b49a99f..e50892a 100644
--- a/klm/lm/builder/adjust_counts.cc
+++ b/klm/lm/builder/adjust_counts.cc
@@ -139,7 +139,9 @@ class CollapseStream {
       if (current_.Base() == block_base + block_->ValidSize()) {
         block_->SetValidSize(copy_from_ + current_.TotalSize() - block_base);
         ++block_;
+        // Marks its first n-gram, if there is another block.
         StartBlock();
+        return *this;
       }
       
       // Mark highest order n-grams for later pruning
-- 
2.43.0


From c56fed17bbc8cfb69995489c0e592d304fe1c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 13/72] fix: a binary language model whose header was written
 in part is refused

---
 klm/lm/binary_format.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klm/lm/binary_format.cc b/klm/lm/binary_format.cc
index 4811740..9e8d548 100644
--- a/klm/lm/binary_format.cc
+++ b/klm/lm/binary_format.cc
@@ -271,8 +271,11 @@ void BinaryFormat::FinishFile(const Config &config, ModelType model_type, unsign
       {
         std::vector<uint8_t> buffer(TotalHeaderSize(counts.size()));
         WriteHeader(&buffer[0], params);
+        // The part that declares the file complete goes last, in case a write fails halfway.
+        util::SeekOrThrow(file_.get(), sizeof(Sanity));
+        util::WriteOrThrow(file_.get(), &buffer[sizeof(Sanity)], buffer.size() - sizeof(Sanity));
         util::SeekOrThrow(file_.get(), 0);
-        util::WriteOrThrow(file_.get(), &buffer[0], buffer.size());
+        util::WriteOrThrow(file_.get(), &buffer[0], sizeof(Sanity));
       }
       break;
   }
-- 
2.43.0


From ad1d5bd340a123dc71e32ff4551437ecf1412f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 14/72] fix: external metrics: replies that come in pieces, are
 long, interrupted or never complete

---
 mteval/external_scorer.cc | 38 ++++++++++++++++++++++++++++---------
 mteval/ns_ext.cc          | 40 +++++++++++++++++++++++++++++----------
 2 files changed, 59 insertions(+), 19 deletions(-)

diff --git a/mteval/external_scorer.cc b/mteval/external_scorer.cc
index 054c279..8031ff0 100644
--- a/mteval/external_scorer.cc
+++ b/mteval/external_scorer.cc
@@ -1,5 +1,6 @@
 #include "external_scorer.h"
 
+#include <cerrno>
 #include <cstdio> // popen
 #include <cstdlib>
 #include <cstring>
@@ -119,17 +120,36 @@ void ScoreServer::Evaluate(const vector<vector<WordID> >& refs, const vector<Wor
 void ScoreServer::RequestResponse(const string& request, string* response) {
 //  cerr << "@SERVER: " << request << endl;
   string x = request + "\n";
-  write(p2c[1], x.c_str(), x.size());
-  char buf[MAX_BUF];
-  size_t n = read(c2p[0], buf, MAX_BUF);
-  while (n < MAX_BUF && buf[n-1] != '\n')
-    n += read(c2p[0], &buf[n], MAX_BUF - n);
+  for (size_t sent = 0; sent < x.size();) {
+    ssize_t w = write(p2c[1], x.c_str() + sent, x.size() - sent);
+    if (w < 0) {
+      if (errno == EINTR) continue;
+      perror("Could not send request to external metric");
+      abort();
+    }
+    sent += w;
+  }
+  // the reply is one line, however it arrives
+  string line;
+  while (line.empty() || line[line.size() - 1] != '\n') {
+    char buf[MAX_BUF];
+    ssize_t n = read(c2p[0], buf, MAX_BUF);
+    if (n < 0) {
+      if (errno == EINTR) continue;
+      perror("Could not read response of external metric");
+      abort();
+    }
+    if (n == 0) {
+      cerr << "External metric ended without a complete response\n";
+      abort();
+    }
+    line.append(buf, n);
+  }
 
-  buf[n-1] = 0;
-  if (n < 2) {
-    cerr << "Malformed response: " << buf << endl;
+  if (line.size() < 2) {
+    cerr << "Malformed response: " << line << endl;
   }
-  *response = Trim(buf, " \t\n");
+  *response = Trim(line, " \t\n");
 //  cerr << "@RESPONSE: '" << *response << "'\n";
 }
 
diff --git a/mteval/ns_ext.cc b/mteval/ns_ext.cc
index efe48af..02e569d 100644
--- a/mteval/ns_ext.cc
+++ b/mteval/ns_ext.cc
@@ -1,5 +1,6 @@
 #include "ns_ext.h"
 
+#include <cerrno>
 #include <cstdio> // popen
 #include <cstdlib>
 #include <cstring>
@@ -140,17 +141,36 @@ void NScoreServer::Evaluate(const vector<vector<WordID> >& refs, const vector<Wo
 void NScoreServer::RequestResponse(const string& request, string* response) {
 //  cerr << "@SERVER: " << request << endl;
   string x = request + "\n";
-  write(p2c[1], x.c_str(), x.size());
-  char buf[MAX_BUF];
-  size_t n = read(c2p[0], buf, MAX_BUF);
-  while (n < MAX_BUF && buf[n-1] != '\n')
-    n += read(c2p[0], &buf[n], MAX_BUF - n);
-
-  buf[n-1] = 0;
-  if (n < 2) {
-    cerr << "Malformed response: " << buf << endl;
+  for (size_t sent = 0; sent < x.size();) {
+    ssize_t w = write(p2c[1], x.c_str() + sent, x.size() - sent);
+    if (w < 0) {
+      if (errno == EINTR) continue;
+      perror("Could not send request to external metric");
+      abort();
+    }
+    sent += w;
+  }
+  // the reply is one line, however it arrives
+  string line;
+  while (line.empty() || line[line.size() - 1] != '\n') {
+    char buf[MAX_BUF];
+    ssize_t n = read(c2p[0], buf, MAX_BUF);
+    if (n < 0) {
+      if (errno == EINTR) continue;
+      perror("Could not read response of external metric");
+      abort();
+    }
+    if (n == 0) {
+      cerr << "External metric ended without a complete response\n";
+      abort();
+    }
+    line.append(buf, n);
+  }
+
+  if (line.size() < 2) {
+    cerr << "Malformed response: " << line << endl;
   }
-  *response = Trim(buf, " \t\n");
+  *response = Trim(line, " \t\n");
 //  cerr << "@RESPONSE: '" << *response << "'\n";
 }
 
-- 
2.43.0


From c708ce67ef81c9d4355253c0094e19d129d11aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 15/72] fix: an external metric that cannot be started does not
 continue as a copy of its parent

---
 mteval/external_scorer.cc | 2 ++
 mteval/ns_ext.cc          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mteval/external_scorer.cc b/mteval/external_scorer.cc
index 8031ff0..143b4c8 100644
--- a/mteval/external_scorer.cc
+++ b/mteval/external_scorer.cc
@@ -68,6 +68,8 @@ ScoreServer::ScoreServer(const string& cmd) {
     for (unsigned i = 0; i < vargs.size(); i++) cargv[i] = vargs[i].c_str();
     cargv[vargs.size()] = NULL;
     execvp(*cargv, (char* const*)cargv);
+    perror("execvp");
+    _exit(127);  // must not continue as a second copy of the parent
   } else { // parent
     close(c2p[1]);
     close(p2c[0]);
diff --git a/mteval/ns_ext.cc b/mteval/ns_ext.cc
index 02e569d..dc9daf6 100644
--- a/mteval/ns_ext.cc
+++ b/mteval/ns_ext.cc
@@ -90,6 +90,8 @@ NScoreServer::NScoreServer(const string& cmd) {
     for (unsigned i = 1; i < vargs.size(); ++i) cargv[i-1] = vargs[i].c_str();
     cargv[vargs.size() - 1] = NULL;
     execvp(vargs[0].c_str(), (char* const*)cargv);
+    perror("execvp");
+    _exit(127);  // must not continue as a second copy of the parent
   } else { // parent
     close(c2p[1]);
     close(p2c[0]);
-- 
2.43.0


From 4023c1ea6edf09d797f117d9466f44cdac8b050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 16/72] fix: pass all arguments to external metrics

---
 mteval/ns_ext.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mteval/ns_ext.cc b/mteval/ns_ext.cc
index dc9daf6..e84937a 100644
--- a/mteval/ns_ext.cc
+++ b/mteval/ns_ext.cc
@@ -86,10 +86,10 @@ NScoreServer::NScoreServer(const string& cmd) {
     cerr << "Exec'ing from child " << cmd << endl;
     vector<string> vargs;
     SplitOnWhitespace(cmd, &vargs);
-    const char** cargv = static_cast<const char**>(malloc(sizeof(const char*) * vargs.size()));
-    for (unsigned i = 1; i < vargs.size(); ++i) cargv[i-1] = vargs[i].c_str();
-    cargv[vargs.size() - 1] = NULL;
-    execvp(vargs[0].c_str(), (char* const*)cargv);
+    const char** cargv = static_cast<const char**>(malloc(sizeof(const char*) * (vargs.size() + 1)));
+    for (unsigned i = 0; i < vargs.size(); ++i) cargv[i] = vargs[i].c_str();
+    cargv[vargs.size()] = NULL;
+    execvp(*cargv, (char* const*)cargv);
     perror("execvp");
     _exit(127);  // must not continue as a second copy of the parent
   } else { // parent
-- 
2.43.0


From 49aca67658faaf64ad48e6fafbeb3c217c7a0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:56 +0000
Subject: [PATCH 17/72] fix: remote LM client used incomplete responses as
 probabilities

---
 decoder/ff_lm.cc | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/decoder/ff_lm.cc b/decoder/ff_lm.cc
index 0780b26..6c23eb1 100644
--- a/decoder/ff_lm.cc
+++ b/decoder/ff_lm.cc
@@ -47,6 +47,7 @@ char const* usage_verbose="-n determines the name of the feature (and its weight
 
 #include "ff_lm.h"
 
+#include <cerrno>
 #include <sstream>
 #include <unistd.h>
 #include <sys/socket.h>
@@ -135,21 +136,29 @@ struct LMClient {
     request_buffer[pos] = '\n';
     ++pos;
     request_buffer[pos] = 0;
-    write(sock, request_buffer, pos);
-    int r = read(sock, res, 6);
-    int errors = 0;
+    for (int sent = 0; sent < pos; ) {
+      int w = write(sock, request_buffer + sent, pos - sent);
+      if (w < 0) {
+        if (errno == EINTR) continue;
+        cerr << "Error: write() to LM server\n";
+        exit(1);
+      }
+      sent += w;
+    }
+    // the response has 6 bytes, but they need not arrive together
     int cnt = 0;
-    while (1) {
+    while (cnt < 6) {
+      int r = read(sock, &res[cnt], 6-cnt);
       if (r < 0) {
-        errors++; sleep(1);
-        cerr << "Error: read()\n";
-        if (errors > 5) exit(1);
-      } else if (r==0 || res[cnt] == '\n') { break; }
-      else {
-        cnt += r;
-        if (cnt==6) break;
-        read(sock, &res[cnt], 6-cnt);
+        if (errno == EINTR) continue;
+        cerr << "Error: read() from LM server\n";
+        exit(1);
+      }
+      if (r == 0) {
+        cerr << "Error: LM server closed the connection\n";
+        exit(1);
       }
+      cnt += r;
     }
     cur->prob = *reinterpret_cast<float*>(res);
     return cur->prob;
-- 
2.43.0


From 77a04e494f735d7ac6750d06aa6439ea52785240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:56 +0000
Subject: [PATCH 18/72] fix: remote LM clients shared one cache of
 probabilities

---
 decoder/ff_lm.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder/ff_lm.cc b/decoder/ff_lm.cc
index 6c23eb1..47f8ff5 100644
--- a/decoder/ff_lm.cc
+++ b/decoder/ff_lm.cc
@@ -85,6 +85,8 @@ namespace NgramCache {
 struct LMClient {
 
   LMClient(string hostname) : port(6666) {
+    static int next_id = 0;
+    id = ++next_id;
     char const* host=hostname.c_str();
     strcpy(request_buffer, "prob ");
     s = const_cast<char*>(strchr(host, ':'));  // TODO fix const_cast
@@ -115,7 +117,8 @@ struct LMClient {
   }
 
   float wordProb(int word, WordID const* context) {
-    NgramCache::Cache* cur = &NgramCache::cache_;
+    // each client has its own part of the cache
+    NgramCache::Cache* cur = &NgramCache::cache_.tree[id];
     int i = 0;
     while (context[i] > 0) {
       cur = &cur->tree[context[i++]];
@@ -165,6 +168,7 @@ struct LMClient {
   }
 
  private:
+  int id;
   int sock, port;
   char *s;
   struct hostent *hp;
-- 
2.43.0


From c622485b25125fff148388d1828b6d80bf26f6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 19/72] fix: frequent patterns of the extractor's
 precomputation end inside the data

A pattern of len + 1 words starting at the last position(s) was accepted when
start + len == data.size(), so with --min_frequency 1 one word past the end of
the array was read and used as a word id (segmentation fault).
---
 extractor/precomputation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor/precomputation.cc b/extractor/precomputation.cc
index 3e58e2a..0cfdfd3 100644
--- a/extractor/precomputation.cc
+++ b/extractor/precomputation.cc
@@ -84,7 +84,7 @@ vector<vector<int>> Precomputation::FindMostFrequentPatterns(
     for (int len = lcp[i]; len < max_frequent_phrase_len; ++len) {
       int frequency = i - run_start[len];
       int start = suffix_array->GetSuffix(run_start[len]);
-      if (frequency >= min_frequency && start + len <= data.size()) {
+      if (frequency >= min_frequency && start + len < data.size()) {
         heap.push(make_pair(frequency, make_pair(start, len + 1)));
       }
       run_start[len] = i;
-- 
2.43.0


From 5f4e82cbae2482fdee6639a4487f53d497b54654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 20/72] fix: remove the whole third subpattern before trying
 the next one

Only its first word was erased, so after a rightmost subpattern of two or
more words the leftover words were part of the following keys: their
occurrences were filed under wrong patterns and the grammars depended on the
--frequent and --super_frequent settings.
---
 extractor/precomputation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor/precomputation.cc b/extractor/precomputation.cc
index 0cfdfd3..27dea58 100644
--- a/extractor/precomputation.cc
+++ b/extractor/precomputation.cc
@@ -160,7 +160,7 @@ void Precomputation::UpdateIndex(
                 && (is_super1 || is_super3)) {
               AppendSubpattern(pattern, annotations[k]);
               AppendCollocation(index[pattern], start1, start2, start3);
-              pattern.erase(pattern.end() - size3);
+              pattern.erase(pattern.end() - size3, pattern.end());
             }
           }
         }
-- 
2.43.0


From 2cd884c4711171f9dd1205ed23b60872d2a60632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 21/72] fix: sacompile reports an index it could not write

The archives were left to their destructors, so on a full disk or a failing
write the last part of any index file or of the generated configuration was
lost and sacompile still exited with 0.
---
 extractor/sacompile.cc | 50 +++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/extractor/sacompile.cc b/extractor/sacompile.cc
index d80ab64..7e654d4 100644
--- a/extractor/sacompile.cc
+++ b/extractor/sacompile.cc
@@ -1,3 +1,4 @@
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <string>
@@ -21,6 +22,25 @@ namespace po = boost::program_options;
 using namespace std;
 using namespace extractor;
 
+// Writes a data structure in binary format. An index that could not be written
+// completely must not be reported as compiled.
+template <class T>
+void WriteBinary(const string& path, const T& data) {
+  ofstream stream(path);
+  try {
+    ar::binary_oarchive archive(stream);
+    archive << data;
+    stream.flush();  // the archive's destructor would ignore a failure
+  } catch (const ar::archive_exception& e) {
+    stream.setstate(ios::failbit);
+  }
+  stream.close();
+  if (!stream) {
+    cerr << "Error: cannot write " << path << endl;
+    exit(1);
+  }
+}
+
 int main(int argc, char** argv) {
   po::options_description desc("Command line options");
   desc.add_options()
@@ -89,9 +109,7 @@ int main(int argc, char** argv) {
   Clock::time_point start_write = Clock::now();
   string target_path = (output_dir / fs::path("target.bin")).string();
   config_stream << "target = " << target_path << endl;
-  ofstream target_fstream(target_path);
-  ar::binary_oarchive target_stream(target_fstream);
-  target_stream << *target_data_array;
+  WriteBinary(target_path, *target_data_array);
   Clock::time_point stop_write = Clock::now();
   double write_duration = GetDuration(start_write, stop_write);
 
@@ -108,9 +126,7 @@ int main(int argc, char** argv) {
   start_write = Clock::now();
   string source_path = (output_dir / fs::path("source.bin")).string();
   config_stream << "source = " << source_path << endl;
-  ofstream source_fstream(source_path);
-  ar::binary_oarchive output_stream(source_fstream);
-  output_stream << *source_suffix_array;
+  WriteBinary(source_path, *source_suffix_array);
   stop_write = Clock::now();
   write_duration += GetDuration(start_write, stop_write);
 
@@ -127,9 +143,7 @@ int main(int argc, char** argv) {
   start_write = Clock::now();
   string alignment_path = (output_dir / fs::path("alignment.bin")).string();
   config_stream << "alignment = " << alignment_path << endl;
-  ofstream alignment_fstream(alignment_path);
-  ar::binary_oarchive alignment_stream(alignment_fstream);
-  alignment_stream << *alignment;
+  WriteBinary(alignment_path, *alignment);
   stop_write = Clock::now();
   write_duration += GetDuration(start_write, stop_write);
 
@@ -155,15 +169,11 @@ int main(int argc, char** argv) {
   start_write = Clock::now();
   string precomputation_path = (output_dir / fs::path("precomp.bin")).string();
   config_stream << "precomputation = " << precomputation_path << endl;
-  ofstream precomp_fstream(precomputation_path);
-  ar::binary_oarchive precomp_stream(precomp_fstream);
-  precomp_stream << precomputation;
+  WriteBinary(precomputation_path, precomputation);
 
   string vocabulary_path = (output_dir / fs::path("vocab.bin")).string();
   config_stream << "vocabulary = " << vocabulary_path << endl;
-  ofstream vocab_fstream(vocabulary_path);
-  ar::binary_oarchive vocab_stream(vocab_fstream);
-  vocab_stream << *vocabulary;
+  WriteBinary(vocabulary_path, *vocabulary);
   stop_write = Clock::now();
   write_duration += GetDuration(start_write, stop_write);
 
@@ -178,9 +188,7 @@ int main(int argc, char** argv) {
   start_write = Clock::now();
   string table_path = (output_dir / fs::path("bilex.bin")).string();
   config_stream << "ttable = " << table_path << endl;
-  ofstream table_fstream(table_path);
-  ar::binary_oarchive table_stream(table_fstream);
-  table_stream << table;
+  WriteBinary(table_path, table);
   stop_write = Clock::now();
   write_duration += GetDuration(start_write, stop_write);
 
@@ -191,5 +199,11 @@ int main(int argc, char** argv) {
   cerr << "Total time spent writing: " << write_duration
        << " seconds" << endl;
 
+  config_stream.close();
+  if (!config_stream) {
+    cerr << "Error: cannot write " << vm["config"].as<string>() << endl;
+    return 1;
+  }
+
   return 0;
 }
-- 
2.43.0


From 3f801279d50db58769f24b0cc24b37e0face9c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 22/72] fix: run_extractor reports a grammar file it could not
 write

The grammar's stream was never checked, so on a full disk the grammars were
cut short or empty and run_extractor still exited with 0.
---
 extractor/run_extractor.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/extractor/run_extractor.cc b/extractor/run_extractor.cc
index 00564a3..f5cbaf1 100644
--- a/extractor/run_extractor.cc
+++ b/extractor/run_extractor.cc
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <memory>
@@ -239,8 +240,14 @@ int main(int argc, char** argv) {
     }
     Grammar grammar = extractor.GetGrammar(
         sentences[i], blacklisted_sentence_ids);
-    ofstream output(GetGrammarFilePath(grammar_path, i).c_str());
+    const string output_path = GetGrammarFilePath(grammar_path, i).string();
+    ofstream output(output_path);
     output << grammar;
+    output.close();
+    if (!output) {
+      cerr << "Error: cannot write " << output_path << endl;
+      exit(1);
+    }
   }
 
   for (size_t i = 0; i < sentences.size(); ++i) {
-- 
2.43.0


From 835fd06a4fa082cdb948dada1f00f7e682c6c94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 23/72] fix: a file written through WriteFile reports lost data

The destructor flushed the stream and ignored the result, so on a full disk
the end of a plain file was lost silently (a .gz file already ended the
program).
---
 utils/filelib.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utils/filelib.h b/utils/filelib.h
index 90620d0..b861ffa 100644
--- a/utils/filelib.h
+++ b/utils/filelib.h
@@ -102,8 +102,11 @@ class WriteFile : public BaseFile<std::ostream> {
     }
   }
   ~WriteFile() {
-    if (ps_)
-      get() << std::flush;
+    // (bad: data was lost; fail alone may only mean that nothing was inserted)
+    if (ps_ && (get() << std::flush).bad()) {
+      std::cerr << "Failed to write " << filename_ << std::endl;
+      abort();
+    }
   }
 };
 
-- 
2.43.0


From 0a44b4587c84d71e70ab69df9c22cb30b7bbecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 24/72] fix: a gz file that cannot be opened is reported
 instead of asking a null file for its error

---
 utils/gzstream.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utils/gzstream.cc b/utils/gzstream.cc
index dbfa2f5..588f9cb 100644
--- a/utils/gzstream.cc
+++ b/utils/gzstream.cc
@@ -62,7 +62,6 @@ gzstreambuf* gzstreambuf::open( const char* name, int open_mode) {
     while (fmodeptr<fmode+Nmode) // hopefully wil help valgrind
       *fmodeptr++ = '\0';
     file = gzopen( name, fmode);
-    if (!file) handle_gzerror();
     if (file == 0)
         return (gzstreambuf*)0;
     opened = 1;
-- 
2.43.0


From 4af737e6e24d57f3a8178cf197522f2738b110da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 25/72] fix: gzstreambuf::close does not use the file after
 closing it

---
 utils/gzstream.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/gzstream.cc b/utils/gzstream.cc
index 588f9cb..871cab9 100644
--- a/utils/gzstream.cc
+++ b/utils/gzstream.cc
@@ -74,8 +74,10 @@ gzstreambuf * gzstreambuf::close() {
         opened = 0;
         if ( gzclose( file) == Z_OK)
             return this;
-        else
-            handle_gzerror();
+        // (file is gone, whatever gzclose returned; errors of an input file
+        // have been reported by the read)
+        if (mode & std::ios::out)
+            throw std::runtime_error("gzstreambuf error: could not finish writing");
     }
     return (gzstreambuf*)0;
 }
-- 
2.43.0


From 6f6e3e6b918872b378bca2d038771fae796b99db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 26/72] fix: a read error or a gz file cut short is not taken
 for the end of the file

---
 utils/filelib.h   | 1 +
 utils/gzstream.cc | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/filelib.h b/utils/filelib.h
index b861ffa..0980038 100644
--- a/utils/filelib.h
+++ b/utils/filelib.h
@@ -73,6 +73,7 @@ class ReadFile : public BaseFile<std::istream> {
         error(filename," open for reading failed.");
         abort();
       }
+      ps_->exceptions(std::ios::badbit); // a read error is not the end of the file
     }
   }
   void ReadAll(std::string& s) {
diff --git a/utils/gzstream.cc b/utils/gzstream.cc
index 871cab9..9a5b1e6 100644
--- a/utils/gzstream.cc
+++ b/utils/gzstream.cc
@@ -104,7 +104,9 @@ int gzstreambuf::underflow() { // used for input buffer only
     int num = gzread( file, buffer+4, bufferSize-4);
     if (num <= 0) // ERROR or EOF
     {
-        if (gzeof(file))
+        int errnum;
+        gzerror(file,&errnum); // (Z_BUF_ERROR: the file ends too early)
+        if (errnum==Z_OK && gzeof(file))
             return EOF;
         handle_gzerror();
     }
-- 
2.43.0


From 8ab4c2691aa050d50c06949fc464a170d9d1611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 27/72] fix: CopyFile reports what it could not read or write

---
 utils/filelib.cc | 5 ++++-
 utils/filelib.h  | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils/filelib.cc b/utils/filelib.cc
index d206fc1..7282985 100644
--- a/utils/filelib.cc
+++ b/utils/filelib.cc
@@ -47,7 +47,10 @@ void CopyFile(const string& inf, const string& outf) {
 void CopyFile(const string& inf, const string& outf) {
   ofstream of(outf.c_str(), fstream::trunc|fstream::binary);
   ifstream in(inf.c_str(), fstream::binary);
-  of << in.rdbuf();
+  if (!of || !in) throw runtime_error("cannot copy " + inf + " to " + outf);
+  CopyFile(in, of);
+  of.close();
+  if (!of) throw runtime_error("failed to write " + outf);
 }
 #endif
 
diff --git a/utils/filelib.h b/utils/filelib.h
index 0980038..463cb81 100644
--- a/utils/filelib.h
+++ b/utils/filelib.h
@@ -112,7 +112,12 @@ class WriteFile : public BaseFile<std::ostream> {
 };
 
 inline void CopyFile(std::istream &in,std::ostream &out) {
-  out << in.rdbuf();
+  // (operator<< of a streambuf hides the errors of the input)
+  char buf[4096];
+  while (in.read(buf, sizeof(buf)) || in.gcount())
+    out.write(buf, in.gcount());
+  if (in.bad() || !out)
+    throw std::runtime_error("copying a file failed");
 }
 
 inline void CopyFile(std::string const& inf,std::ostream &out) {
-- 
2.43.0


From 6bf0f6befa52cb6af3b618ef78fd5fdbdb42b5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 28/72] fix: room for the eight bytes read of a binary weights
 file's size

---
 utils/weights.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index 7d5d96d..7f981dc 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -74,7 +74,7 @@ void Weights::InitFromFile(const string& filename,
   } else {   // !read_text
     char buf[6];
     in.read(buf, 5);
-    int num_keys;
+    size_t num_keys;
     in.read(reinterpret_cast<char*>(&num_keys), sizeof(size_t));
     if (num_keys != FD::NumFeats()) {
       cerr << "Hash function reports " << FD::NumFeats() << " keys but weights file contains " << num_keys << endl;
-- 
2.43.0


From 428ce9c73c9a6903fbd0b2e8c85337b2f2267179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 29/72] fix: a gz file that cannot be opened leaves a bad
 stream

---
 utils/gzstream.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/gzstream.h b/utils/gzstream.h
index a7effd9..4ec75b6 100644
--- a/utils/gzstream.h
+++ b/utils/gzstream.h
@@ -99,7 +99,10 @@ class igzstream : public gzstreambase, public std::istream {
 public:
     igzstream() : std::istream( &buf) {}
     igzstream( const char* name, int open_mode = std::ios::in)
-        : gzstreambase( name, std::ios::in | open_mode), std::istream( &buf) {}
+        : std::istream( &buf) {
+        // (not in gzstreambase, because std::istream( &buf) clears its errors)
+        open( name, std::ios::in | open_mode);
+    }
     gzstreambuf* rdbuf() { return gzstreambase::rdbuf(); }
     void open( const char* name, int open_mode = std::ios::in) {
         gzstreambase::open( name, open_mode);
@@ -110,7 +113,9 @@ class ogzstream : public gzstreambase, public std::ostream {
 public:
     ogzstream() : std::ostream( &buf) {}
     ogzstream( const char* name, int mode = std::ios::out)
-        : gzstreambase( name, mode), std::ostream( &buf) {}
+        : std::ostream( &buf) {
+        open( name, mode);
+    }
     gzstreambuf* rdbuf() { return gzstreambase::rdbuf(); }
     void open( const char* name, int open_mode = std::ios::out) {
         gzstreambase::open( name, open_mode);
-- 
2.43.0


From 37a2f7bbaa69a4b67648a0a6829274245ef96db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 30/72] fix: the threaded filter writes the last n-grams of a
 count file

---
 klm/lm/filter/format.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klm/lm/filter/format.hh b/klm/lm/filter/format.hh
index 5a2e2db..890f65a 100644
--- a/klm/lm/filter/format.hh
+++ b/klm/lm/filter/format.hh
@@ -129,6 +129,8 @@ struct CountFormat {
   template <class Filter, class Out> static void RunFilter(util::FilePiece &in, Filter &filter, Out &output) {
     DispatchInput<Filter, Out> dispatcher(filter, output);
     ReadCount(in, dispatcher);
+    // (ARPA does this at the end of every length)
+    filter.Flush();
   }
 };
 
-- 
2.43.0


From 40727ffbc125c9b13d85690b9119432be0eae523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 31/72] fix: the threaded filter does not hang when the n-grams
 of a length fill their batches exactly

---
 klm/lm/filter/thread.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/klm/lm/filter/thread.hh b/klm/lm/filter/thread.hh
index 6a6523f..4a86ff4 100644
--- a/klm/lm/filter/thread.hh
+++ b/klm/lm/filter/thread.hh
@@ -134,7 +134,11 @@ template <class Filter, class OutputBuffer, class RealOutput> class Controller :
 
   private:
     void FlushInput() {
-      if (input_->Empty()) return;
+      if (input_->Empty()) {
+        // The output waits for every sequence number, so NewInput uses this one again.
+        --sequence_;
+        return;
+      }
       filter_.Produce(local_read_.top());
       local_read_.pop();
       if (local_read_.empty()) MoveRead();
-- 
2.43.0


From 049e1e3f233fdd4f389feeeeb35dab8856f97e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 32/72] fix: multiple outputs of the threaded filter do not mix
 lines of two batches

---
 klm/lm/filter/format.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klm/lm/filter/format.hh b/klm/lm/filter/format.hh
index 890f65a..1da92ee 100644
--- a/klm/lm/filter/format.hh
+++ b/klm/lm/filter/format.hh
@@ -232,6 +232,8 @@ class MultipleOutputBuffer {
         }
       }
       annotated_.clear();
+      // The next batch has other lines in the same strings.
+      last_ = StringPiece();
     }
 
   private:
-- 
2.43.0


From dde1a65d40465a24daa3f2e8fa2e049365b50d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 33/72] fix: read the last rule of a grammar that does not end
 in a newline

---
 decoder/rule_lexer.ll | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/decoder/rule_lexer.ll b/decoder/rule_lexer.ll
index 8b48ab7..c3aa4e7 100644
--- a/decoder/rule_lexer.ll
+++ b/decoder/rule_lexer.ll
@@ -23,7 +23,19 @@ std::vector<int> scfglex_phrase_fnames;
 std::string scfglex_fname;
 
 #undef YY_INPUT
-#define YY_INPUT(buf, result, max_size) (result = scfglex_stream->read(buf, max_size).gcount())
+#define YY_INPUT(buf, result, max_size) (result = scfglex_read(buf, max_size))
+
+// a rule is complete when its line ends, so the last line must end too
+static char scfglex_last_char = '\n';
+static int scfglex_read(char* buf, int max_size) {
+  int n = scfglex_stream->read(buf, max_size).gcount();
+  if (n == 0 && scfglex_last_char != '\n') {
+    buf[0] = '\n';
+    n = 1;
+  }
+  if (n > 0) scfglex_last_char = buf[n - 1];
+  return n;
+}
 
 #define YY_SKIP_YYWRAP 1
 int num_rules = 0;
@@ -349,6 +361,7 @@ void RuleLexer::ReadRules(std::istream* in, RuleLexer::RuleCallback func, const
   lex_line = 1;
   scfglex_fname = fname;
   scfglex_stream = in;
+  scfglex_last_char = '\n';
   rule_callback_extra = extra,
   rule_callback = func;
   yylex();
-- 
2.43.0


From 280d8e82290c0d1b4bb3cc90bac76fc7611482f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 34/72] fix: do not echo the blank lines of a grammar into the
 output

---
 decoder/rule_lexer.ll | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/rule_lexer.ll b/decoder/rule_lexer.ll
index c3aa4e7..adcaea8 100644
--- a/decoder/rule_lexer.ll
+++ b/decoder/rule_lexer.ll
@@ -142,6 +142,11 @@ NT ([^\t \n\r\[\],]+|Goal)
   ctf_level++;
   };
 
+<INITIAL>\n	{
+  lex_line++;
+  ctf_level = 0;
+  };
+
 <INITIAL>\[{NT}\]   {
 		scfglex_tmp_token.assign(yytext + 1, yyleng - 2);
 		scfglex_lhs = -TD::Convert(scfglex_tmp_token);
-- 
2.43.0


From 97633cfbae1cd43d19dfe986ed6ed641c1e26478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 35/72] fix: do not translate a last input line without newline
 twice

---
 decoder/cdec.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/decoder/cdec.cc b/decoder/cdec.cc
index cc3fcff..3c116c8 100644
--- a/decoder/cdec.cc
+++ b/decoder/cdec.cc
@@ -24,8 +24,7 @@ int main(int argc, char** argv) {
 #ifdef CP_TIME
     clock_t time_cp(0);//, end_cp;
 #endif
-  while(*in) {
-    getline(*in, buf);
+  while(getline(*in, buf)) {
     if (buf.empty()) continue;
     decoder.Decode(buf);
   }
-- 
2.43.0


From 58403309a28795f696f1c0ce99efe5318a80354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 36/72] fix: the phrase-based translator's concatenation rule
 is a synchronous rule

---
 decoder/phrasebased_translator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index 8415353..80bc867 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -76,7 +76,7 @@ struct PhraseBasedTranslatorImpl {
   PhraseBasedTranslatorImpl(const boost::program_options::variables_map& conf) :
       add_pass_through_rules(conf.count("add_pass_through_rules")),
       max_distortion(conf["pb_max_distortion"].as<int>()),
-      kCONCAT_RULE(new TRule("[X] ||| [X,1] [X,2] ||| [X,1] [X,2]", true)),
+      kCONCAT_RULE(new TRule("[X] ||| [X,1] [X,2] ||| [X,1] [X,2]")),
       kNT_TYPE(TD::Convert("X") * -1) {
     assert(max_distortion >= 0);
     vector<string> gfiles = conf["grammar"].as<vector<string> >();
-- 
2.43.0


From 061febab112077a2933a1c999526bfe666e69981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 37/72] fix: do not read past the end of a phrase-based
 coverage vector

---
 decoder/phrasebased_translator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index 80bc867..b39b15c 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -35,7 +35,7 @@ struct Coverage : public vector<bool> {
     if (first_gap == i) {
       first_gap = j;
       it = end;
-      while (*it && it != this->end()) {
+      while (it != this->end() && *it) {
         ++it;
         ++first_gap;
       }
-- 
2.43.0


From 3cb2d68d3500dada13561986e73b45cc463bbb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 38/72] fix: keep all phrases of a lattice that cover the same
 left edge

---
 decoder/phrasebased_translator.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index b39b15c..bdcfbc0 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -145,7 +145,13 @@ struct PhraseBasedTranslatorImpl {
         new_cov.Cover(s.i, s.j);
         EnqueuePossibleContinuations(new_cov, &q, &ucs);
         const vector<TRulePtr>& phrases = s.fst->GetTranslations()->GetRules();
-        const int phrase_head_index = minus_lm_forest->AddNode(kNT_TYPE)->id_;
+        CoverageNodeMap::iterator cit = c.find(s.coverage);
+        assert(cit != c.end());
+        const int tail_node_plus1 = cit->second;
+        // several paths of a lattice may cover the same left edge
+        const int left_node_plus1 = (tail_node_plus1 == 0) ? c[new_cov] : 0;
+        const int phrase_head_index = (left_node_plus1 > 0) ?
+          left_node_plus1 - 1 : minus_lm_forest->AddNode(kNT_TYPE)->id_;
         for (int i = 0; i < phrases.size(); ++i) {
           Hypergraph::Edge* edge = minus_lm_forest->AddEdge(phrases[i], Hypergraph::TailNodeVector());
           edge->feature_values_ = edge->rule_->scores_;
@@ -153,9 +159,6 @@ struct PhraseBasedTranslatorImpl {
           edge->j_ = s.j;
           minus_lm_forest->ConnectEdgeToHeadNode(edge->id_, phrase_head_index);
         }
-        CoverageNodeMap::iterator cit = c.find(s.coverage);
-        assert(cit != c.end());
-        const int tail_node_plus1 = cit->second;
         if (tail_node_plus1 == 0) {  // left edge
           c[new_cov] = phrase_head_index + 1;
         } else { // not left edge
-- 
2.43.0


From d44f356878d0ee76195133f39429f2ca47d59323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 39/72] fix: keep the phrases that start with a word that was
 passed through

---
 decoder/phrasetable_fst.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/decoder/phrasetable_fst.cc b/decoder/phrasetable_fst.cc
index b3bec86..937400d 100644
--- a/decoder/phrasetable_fst.cc
+++ b/decoder/phrasetable_fst.cc
@@ -96,8 +96,11 @@ void TextFSTNode::AddPassThroughTranslation(const WordID& w, const SparseVector<
 }
 
 void TextFSTNode::ClearPassThroughTranslations() {
-  for (int i = 0; i < passthroughs.size(); ++i)
-    ptr.erase(passthroughs[i]);
+  for (int i = 0; i < passthroughs.size(); ++i) {
+    map<WordID, TextFSTNode>::iterator it = ptr.find(passthroughs[i]);
+    it->second.data.reset();
+    if (!it->second.HasOutgoingNonEpsilonEdges()) ptr.erase(it);
+  }
   passthroughs.clear();
 }
 
-- 
2.43.0


From 98655acba6be2fcd57a210dbfce156f70b7038af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:00 +0000
Subject: [PATCH 40/72] fix: erasing an absent key of a sparse vector does not
 remove another one

---
 utils/fast_sparse_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/fast_sparse_vector.h b/utils/fast_sparse_vector.h
index 0697fc4..16cbda6 100644
--- a/utils/fast_sparse_vector.h
+++ b/utils/fast_sparse_vector.h
@@ -204,9 +204,10 @@ class FastSparseVector {
             data_.local[j-1].first() = data_.local[j].first();
             data_.local[j-1].second() = data_.local[j].second();
           }
+          --local_size_;
+          return;
         }
       }
-      --local_size_;
     }
   }
   const FastSparseVector<T>& operator=(const FastSparseVector<T>& other) {
-- 
2.43.0


From 23d7aa590dfd101382da713b2afa44e53aceb1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 41/72] fix: pruning never cuts the best derivation because of
 rounding or of a large forest

---
 decoder/hg.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 46543b0..719403c 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -295,7 +295,10 @@ void Hypergraph::MarginPrune(vector<prob_t> const& io,prob_t cutoff,vector<bool>
 
   //TODO: //FIXME: if EPSILON is 0, then remnants (useless edges that don't connect to top? or top-connected but not bottom-up buildable referenced?) are left in the hypergraph output that cause mr_vest_map to segfault.  adding EPSILON probably just covers up the symptom by making it far less frequent; I imagine any time threshold is set by DensityPrune, cutoff is exactly equal to the io of several nodes, but because of how it's computed, some round slightly down vs. slightly up.  probably the flaw is in PruneEdges.
 
-  const prob_t creep=abslog(cutoff).pow(1e-6); // some barely >1 (small positive log) ratio.  linear in logspace of course // start more permissive, then become less generous.  this is barely more than 1.  we want to do this because it's a disaster if something lower in a derivation tree is deleted, but the higher thing remains (unless safe_inside)
+  // start more permissive, then become less generous.  we want to do this because it's a disaster if something lower in a derivation tree is deleted, but the higher thing remains (unless safe_inside).  the slack is small, but larger than what rounding does to the margins of one derivation's edges, so that the best derivation survives a cutoff of 1, and all of it is given back gradually, so that the last edge still is not cut by more than was asked for
+  const double slack = 1e-6 * max(1.0, fabs(log(cutoff)));
+  const prob_t creep = prob_t::exp(slack / max<size_t>(1, edges_.size()));
+  cutoff *= prob_t::exp(-2 * slack);
 
   vector<bool> prune(edges_.size());
   if (verbose) {
-- 
2.43.0


From 540ee29729dff9bcde55bd78ded29f9a645d32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 42/72] fix: decode feature names of more than 127 bytes in a
 base64 vector

---
 utils/sparse_vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_vector.cc b/utils/sparse_vector.cc
index 00e7bd6..9e957fa 100644
--- a/utils/sparse_vector.cc
+++ b/utils/sparse_vector.cc
@@ -71,7 +71,7 @@ bool Decode(double* objective, SparseVector<double>* v, const char* in, size_t s
   int fc = 0;
   while(fc < num_feats && cur < decoded_size) {
     ++fc;
-    const int fname_len = data[cur++];
+    const int fname_len = static_cast<unsigned char>(data[cur++]);
     assert(fname_len > 0);
     assert(fname_len < 256);
     string fname(fname_len, '\0');
-- 
2.43.0


From 3fe95f5f2687ff86c028bd90d0daf991a88dff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 43/72] fix: base64 encoding keeps all of a trailing two-byte
 block

---
 utils/b64tools.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/b64tools.cc b/utils/b64tools.cc
index 78c1cb4..e8b3d6d 100644
--- a/utils/b64tools.cc
+++ b/utils/b64tools.cc
@@ -13,7 +13,7 @@ static void encodeblock(const unsigned char* in, ostream* os, int len) {
   // cerr << len << endl;
   out[0] = cb64[ in[0] >> 2 ];
   out[1] = cb64[ ((in[0] & 0x03) << 4) | (len > 1 ? ((in[1] & 0xf0) >> 4) : static_cast<unsigned char>(0))];
-  out[2] = (len > 2 ? cb64[ ((in[1] & 0x0f) << 2) | ((in[2] & 0xc0) >> 6) ] : '=');
+  out[2] = (len > 1 ? cb64[ ((in[1] & 0x0f) << 2) | (len > 2 ? ((in[2] & 0xc0) >> 6) : static_cast<unsigned char>(0)) ] : '=');
   out[3] = (len > 2 ? cb64[ in[2] & 0x3f ] : '=');
   os->write(out, 4);
 }
-- 
2.43.0


From fc83ed87b5a1415bbb06b636d0f54d2871a50254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 44/72] fix: lexical translation refuses a target word without
 translations instead of crashing

---
 decoder/lextrans.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/decoder/lextrans.cc b/decoder/lextrans.cc
index d13a891..657f23a 100644
--- a/decoder/lextrans.cc
+++ b/decoder/lextrans.cc
@@ -122,6 +122,12 @@ struct LexicalTransImpl {
         forest->ConnectEdgeToHeadNode(edge->id_, wordit->second);
       }
     }
+    for (map<WordID, int>::const_iterator it = words.begin(); it != words.end(); ++it) {
+      if (forest->nodes_[it->second].in_edges_.empty()) {
+        cerr << "No source word translates to: " << TD::Convert(it->first) << "\n";
+        return false;
+      }
+    }
 
     map<int,int> nl2node;
 
@@ -230,6 +236,10 @@ struct LexicalTransImpl {
           trgs_used.clear();
         }
       }
+      if (forest->nodes_[new_node_id].in_edges_.empty()) {
+        cerr << "No translations available for target position " << i << "\n";
+        return false;
+      }
       if (prev_node_id >= 0) {
         const int comb_node_id = forest->AddNode(kXCAT)->id_;
         Hypergraph::TailNodeVector tail(2, prev_node_id);
-- 
2.43.0


From 714b2dee37e82f16d848a698a24c246efea14674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 45/72] fix: a forest's edges_topo_ flag is never written
 uninitialised

---
 decoder/hg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg.h b/decoder/hg.h
index c756012..9e0bc0b 100644
--- a/decoder/hg.h
+++ b/decoder/hg.h
@@ -200,7 +200,7 @@ typedef boost::shared_ptr<Hypergraph> HypergraphP;
 //  - edges have 1 head, 0..n tails
 class Hypergraph {
 public:
-  Hypergraph() : is_linear_chain_(false) {}
+  Hypergraph() : is_linear_chain_(false), edges_topo_(true) {}
   typedef HG::Node Node;
   typedef HG::Edge Edge;
   typedef SmallVectorUnsigned TailNodeVector; // indices in nodes_
-- 
2.43.0


From 6918df13a539e4107a7470c3a0316f4c70689e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 46/72] fix: CMR2008 reordering features never read past their
 last span bin

---
 decoder/ff_spans.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/ff_spans.cc b/decoder/ff_spans.cc
index 0ccac69..a598d8f 100644
--- a/decoder/ff_spans.cc
+++ b/decoder/ff_spans.cc
@@ -237,7 +237,8 @@ void CMR2008ReorderingFeatures::TraversalFeaturesImpl(const SentenceMetadata& sm
   assert(edge.i_ >= 0);
   assert(edge.j_ > edge.i_);
   const bool is_reordered = IsArity2RuleReordered(*edge.rule_);
-  const unsigned span_size = edge.j_ - edge.i_;
+  // spans longer than the last bin fall into it
+  const unsigned span_size = min<unsigned>(edge.j_ - edge.i_, fids_.size() - 1);
   if (use_collapsed_features_) {
     assert(!"not impl"); // TODO
   } else {
-- 
2.43.0


From b4cc568c08e72359159df6adb08d010a11518828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:56 +0000
Subject: [PATCH 47/72] fix: fast intersection inverts every use of a rule, not
 every other one

---
 decoder/hg_intersect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg_intersect.cc b/decoder/hg_intersect.cc
index b9381d0..258af09 100644
--- a/decoder/hg_intersect.cc
+++ b/decoder/hg_intersect.cc
@@ -75,7 +75,7 @@ static bool FastLinearIntersect(const Lattice& target, Hypergraph* hg) {
         cov.insert(trg_index);
         swap(edge.prev_i_, edge.i_);
         swap(edge.prev_j_, edge.j_);
-        edge.rule_.swap(inv_rule);
+        edge.rule_ = inv_rule;  // (the inverted rule may be needed again)
       }
     }
   }
-- 
2.43.0


From 6d629f275d964e75ce25ce90af1a8a2b734cd3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:56 +0000
Subject: [PATCH 48/72] fix: equally good items are combined in the order they
 were found, not in hash order

---
 decoder/apply_models.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder/apply_models.cc b/decoder/apply_models.cc
index 18c83fd..64dd14e 100644
--- a/decoder/apply_models.cc
+++ b/decoder/apply_models.cc
@@ -140,7 +140,9 @@ struct HeapCandCompare {
 
 struct EstProbSorter {
   bool operator()(const Candidate* l, const Candidate* r) const {
-    return l->est_prob_ > r->est_prob_;
+    // (the order of equally good items must not depend on hash values)
+    if (l->est_prob_ != r->est_prob_) return l->est_prob_ > r->est_prob_;
+    return l->node_index_ < r->node_index_;
   }
 };
 
-- 
2.43.0


From 5c9d7f7240b473d5b016826875f505918124c79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 49/72] fix: an error while flushing a forest file is reported

The destructor of boost's archive flushes the stream and ignores a failure,
and the next flush writes the whole buffer once more, so that the file
begins twice and writing it appears to have succeeded.
---
 decoder/hg_io.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/hg_io.cc b/decoder/hg_io.cc
index 71f50a2..ae531fa 100644
--- a/decoder/hg_io.cc
+++ b/decoder/hg_io.cc
@@ -27,7 +27,8 @@ bool HypergraphIO::ReadFromBinary(istream* in, Hypergraph* hg) {
 bool HypergraphIO::WriteToBinary(const Hypergraph& hg, ostream* out) {
   boost::archive::binary_oarchive oa(*out);
   oa << hg;
-  return true;
+  // (the archive's destructor flushes as well, but it loses the error)
+  return !out->flush().bad();
 }
 
 bool needs_escape[128];
-- 
2.43.0


From 2073ca3ba3f51b6cff4e3a84c6ff1c1535198050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 50/72] fix: cdec fails when its input cannot be read or its
 output cannot be written

---
 decoder/cdec.cc  | 10 ++++++++++
 decoder/hg_io.cc |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/decoder/cdec.cc b/decoder/cdec.cc
index 3c116c8..a54633c 100644
--- a/decoder/cdec.cc
+++ b/decoder/cdec.cc
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <iostream>
 
 #include "filelib.h"
@@ -28,6 +29,11 @@ int main(int argc, char** argv) {
     if (buf.empty()) continue;
     decoder.Decode(buf);
   }
+  // (the end of a line may also be the place where reading failed)
+  if (in->bad() || (in_read.is_std() && ferror(stdin))) {
+    cerr << "Failed to read the input\n";
+    return 1;
+  }
   Timer::Summarize();
 #ifdef CP_TIME
     cerr << "Time required for Cube Pruning execution: "
@@ -41,6 +47,10 @@ int main(int argc, char** argv) {
     }
   }
   util::PrintUsage(std::cerr);
+  if (!cout.flush()) {
+    cerr << "Failed to write the output\n";
+    return 1;
+  }
   return 0;
 }
 
diff --git a/decoder/hg_io.cc b/decoder/hg_io.cc
index ae531fa..c711965 100644
--- a/decoder/hg_io.cc
+++ b/decoder/hg_io.cc
@@ -405,5 +405,10 @@ void HypergraphIO::WriteTarget(const std::string &base, unsigned int id, const H
       out << "||| " << edge.rule_->scores_ << '\n';
     }
   }
+  out.close();
+  if (!out) {
+    cerr << "Failed to write " << name << endl;
+    abort();
+  }
 }
 
-- 
2.43.0


From ae581a944b068ee5146ab886cef7aa08bbeb95bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:27 +0000
Subject: [PATCH 51/72] fix: syntax features name what the nonterminals cover
 in each derivation

---
 decoder/ff_source_syntax.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/decoder/ff_source_syntax.cc b/decoder/ff_source_syntax.cc
index f6f673d..73bc406 100644
--- a/decoder/ff_source_syntax.cc
+++ b/decoder/ff_source_syntax.cc
@@ -3,6 +3,7 @@
 #include <sstream>
 #include <stack>
 #include <unordered_set>
+#include <vector>
 
 #include "sentence_metadata.h"
 #include "array2d.h"
@@ -100,7 +101,8 @@ struct SourceSyntaxFeaturesImpl {
     //cerr << "fire features: " << rule.AsString() << " for " << i << "," << j << endl;
     const WordID lhs = src_tree(i,j);
     //int& fid_cat = fids_cat(i,j);
-    int& fid_ef = fids_ef(i,j)[&rule];
+    // the name depends on what the nonterminals cover, not only on the rule
+    int& fid_ef = fids_ef(i,j)[make_pair(&rule, vector<int>(ants, ants + rule.Arity()))];
     if (fid_ef <= 0) {
       ostringstream os;
       //ostringstream os2;
@@ -144,7 +146,7 @@ struct SourceSyntaxFeaturesImpl {
 
   Array2D<WordID> src_tree; // src_tree(i,j) NT = type
   // mutable Array2D<int> fids_cat; // this tends to overfit baddly
-  mutable Array2D<map<const TRule*, int> > fids_ef; // fires for fully lexicalized
+  mutable Array2D<map<pair<const TRule*, vector<int> >, int> > fids_ef; // fires for fully lexicalized
   unordered_set<int> feature_filter;
 };
 
@@ -189,7 +191,7 @@ struct SourceSpanSizeFeaturesImpl {
 
   int FireFeatures(const TRule& rule, const int i, const int j, const WordID* ants, SparseVector<double>* feats) {
     if (rule.Arity() > 0) {
-      int& fid = fids(i,j)[&rule];
+      int& fid = fids(i,j)[make_pair(&rule, vector<int>(ants, ants + rule.Arity()))];
       if (fid <= 0) {
         ostringstream os;
         os << "SSS:";
@@ -220,7 +222,7 @@ struct SourceSpanSizeFeaturesImpl {
     return SpanSizeTransform(j - i);
   }
 
-  mutable Array2D<map<const TRule*, int> > fids;
+  mutable Array2D<map<pair<const TRule*, vector<int> >, int> > fids;
 };
 
 SourceSpanSizeFeatures::SourceSpanSizeFeatures(const string& param) :
-- 
2.43.0


From fd7f316f5dfec5dc17d6299e27ca8717e926d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:27 +0000
Subject: [PATCH 52/72] fix: the distance to a constituent is defined for spans
 of one word

---
 decoder/ff_parse_match.cc         | 2 +-
 decoder/ff_soft_syntax_mindist.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/ff_parse_match.cc b/decoder/ff_parse_match.cc
index 5802697..a45af17 100644
--- a/decoder/ff_parse_match.cc
+++ b/decoder/ff_parse_match.cc
@@ -108,7 +108,7 @@ struct ParseMatchFeaturesImpl {
     //cerr << "span: " << i << " " << j << endl;
     const WordID lhs = src_tree(i,j);
     int fid_ef = FD::Convert("PM");
-    int min_dist; // minimal distance to next syntactic constituent of this rule's LHS
+    int min_dist = j - i; // minimal distance to next syntactic constituent of this rule's LHS
     int summed_min_dists; // minimal distances of LHS and NTs summed up
     if (TD::Convert(lhs).compare("XX") != 0)
         min_dist= 0;
diff --git a/decoder/ff_soft_syntax_mindist.cc b/decoder/ff_soft_syntax_mindist.cc
index a23f70f..72ba543 100644
--- a/decoder/ff_soft_syntax_mindist.cc
+++ b/decoder/ff_soft_syntax_mindist.cc
@@ -102,7 +102,7 @@ struct SoftSyntaxFeaturesMindistImpl {
 	  //cerr << "RULE :"<< rule << endl;
     int& fid_ef = fids_ef(i,j)[&rule];
     string lhs_to_str = TD::Convert(lhs);
-    int min_dist;
+    int min_dist = j - i;
     string min_dist_label;
     if (lhs_to_str.compare("XX") != 0) {
       min_dist = 0;
-- 
2.43.0


From 0f8e91d23888e5963610c5a0870bc6a6cab6943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 53/72] fix: a context of the realtime translator has one lock

---
 realtime/rt/rt.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/realtime/rt/rt.py b/realtime/rt/rt.py
index 70ed0c3..a6deff3 100644
--- a/realtime/rt/rt.py
+++ b/realtime/rt/rt.py
@@ -167,7 +167,9 @@ class RealtimeTranslator:
 
         self.ctx_names = set()
         # All context-dependent operations are atomic
-        self.ctx_locks = collections.defaultdict(util.FIFOLock)
+        # (a lock outlives its context: other threads may be waiting for it)
+        self.ctx_locks = {}
+        self.ctx_locks_lock = threading.Lock()
         # ctx -> list of (source, target, alignment)
         self.ctx_data = {}
 
@@ -212,6 +214,13 @@ class RealtimeTranslator:
         logger.info('Deleting {}'.format(self.tmp))
         shutil.rmtree(self.tmp)
 
+    def ctx_lock(self, ctx_name):
+        '''The one lock of a context'''
+        with self.ctx_locks_lock:
+            if ctx_name not in self.ctx_locks:
+                self.ctx_locks[ctx_name] = util.FIFOLock()
+            return self.ctx_locks[ctx_name]
+
     def lazy_ctx(self, ctx_name):
         '''Initialize a context (inc starting a new decoder) if needed.
         NOT threadsafe, acquire ctx_name lock before calling.'''
@@ -228,7 +237,7 @@ class RealtimeTranslator:
     def drop_ctx(self, ctx_name=None, force=False):
         '''Delete a context (inc stopping the decoder)
         Threadsafe and FIFO unless forced.'''
-        lock = self.ctx_locks[ctx_name]
+        lock = self.ctx_lock(ctx_name)
         if not force:
             lock.acquire()
         if ctx_name not in self.ctx_names:
@@ -243,7 +252,6 @@ class RealtimeTranslator:
         self.grammar_files.pop(ctx_name)
         self.grammar_dict.pop(ctx_name)
         self.decoders.pop(ctx_name).close(force)
-        self.ctx_locks.pop(ctx_name)
         if not force:
             lock.release()
 
@@ -283,7 +291,7 @@ class RealtimeTranslator:
     def translate(self, sentence, ctx_name=None):
         '''Decode a sentence (inc extracting a grammar if needed)
         Threadsafe, FIFO'''
-        lock = self.ctx_locks[ctx_name]
+        lock = self.ctx_lock(ctx_name)
         lock.acquire()
         self.lazy_ctx(ctx_name)
         # Empty in, empty out
@@ -345,7 +353,7 @@ class RealtimeTranslator:
     def learn(self, source, target, ctx_name=None):
         '''Learn from training instance (inc extracting grammar if needed)
         Threadsafe, FIFO'''
-        lock = self.ctx_locks[ctx_name]
+        lock = self.ctx_lock(ctx_name)
         lock.acquire()
         self.lazy_ctx(ctx_name)
         if '' in (source.strip(), target.strip()):
@@ -379,7 +387,7 @@ class RealtimeTranslator:
 
     def save_state(self, file_or_stringio=None, ctx_name=None):
         '''Write state (several lines terminated by EOF line) to file, buffer, or stdout'''
-        lock = self.ctx_locks[ctx_name]
+        lock = self.ctx_lock(ctx_name)
         lock.acquire()
         self.lazy_ctx(ctx_name)
         ctx_data = self.ctx_data[ctx_name]
@@ -404,7 +412,7 @@ class RealtimeTranslator:
     def load_state(self, file_or_stringio=None, ctx_name=None):
         '''Load state (several lines terminated by EOF line) from file, buffer, or stdin.
         Restarts context on any error.'''
-        lock = self.ctx_locks[ctx_name]
+        lock = self.ctx_lock(ctx_name)
         lock.acquire() 
         self.lazy_ctx(ctx_name)
         ctx_data = self.ctx_data[ctx_name]
-- 
2.43.0


From 6618b1ab7685f129dc61db113e88ede39c098615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:26 +0000
Subject: [PATCH 54/72] fix: the realtime translator gives its locks back when
 a request fails

---
 realtime/rt/aligner.py |  3 +--
 realtime/rt/decoder.py | 13 +++------
 realtime/rt/rt.py      | 61 ++++++++++++++++++------------------------
 realtime/rt/util.py    | 18 +++++++++++++
 4 files changed, 49 insertions(+), 46 deletions(-)

diff --git a/realtime/rt/aligner.py b/realtime/rt/aligner.py
index e178249..0dd6451 100644
--- a/realtime/rt/aligner.py
+++ b/realtime/rt/aligner.py
@@ -39,9 +39,9 @@ class ForceAligner:
         '''Threadsafe, FIFO'''
         return self.align_formatted('{} ||| {}'.format(source, target))
 
+    @util.locked('lock')
     def align_formatted(self, line):
         '''Threadsafe, FIFO'''
-        self.lock.acquire()
         self.fwd_align.stdin.write('{}\n'.format(line))
         self.rev_align.stdin.write('{}\n'.format(line))
         # f words ||| e words ||| links ||| score
@@ -50,7 +50,6 @@ class ForceAligner:
         self.tools.stdin.write('{}\n'.format(fwd_line))
         self.tools.stdin.write('{}\n'.format(rev_line))
         al_line = self.tools.stdout.readline().strip()
-        self.lock.release()
         return al_line
  
     def close(self, force=False):
diff --git a/realtime/rt/decoder.py b/realtime/rt/decoder.py
index 1bdd3f1..4e60ad5 100644
--- a/realtime/rt/decoder.py
+++ b/realtime/rt/decoder.py
@@ -17,13 +17,12 @@ class Decoder:
         if not force:
             self.lock.release()
 
+    @util.locked('lock')
     def decode(self, sentence, grammar=None):
         '''Threadsafe, FIFO'''
-        self.lock.acquire()
         input = '<seg grammar="{g}">{s}</seg>\n'.format(s=sentence, g=grammar) if grammar else '{}\n'.format(sentence)
         self.decoder.stdin.write(input)
         hyp = self.decoder.stdout.readline().strip()
-        self.lock.release()
         return hyp
 
 class CdecDecoder(Decoder):
@@ -47,34 +46,30 @@ class MIRADecoder(Decoder):
         self.decoder = util.popen_io(mira_cmd)
         self.lock = util.FIFOLock()
 
+    @util.locked('lock')
     def get_weights(self):
         '''Threadsafe, FIFO'''
-        self.lock.acquire()
         self.decoder.stdin.write('WEIGHTS ||| WRITE\n')
         weights = self.decoder.stdout.readline().strip()
-        self.lock.release()
         return weights
 
+    @util.locked('lock')
     def set_weights(self, w_line):
         '''Threadsafe, FIFO'''
-        self.lock.acquire()
         try:
             # Check validity
             for w_str in w_line.split():
                 (k, v) = w_str.split('=')
                 float(v)
             self.decoder.stdin.write('WEIGHTS ||| {}\n'.format(w_line))
-            self.lock.release()
         except:
-            self.lock.release()
             raise Exception('Invalid weights line: {}'.format(w_line))
 
 
+    @util.locked('lock')
     def update(self, sentence, grammar, reference):
         '''Threadsafe, FIFO'''
-        self.lock.acquire()
         input = 'LEARN ||| <seg grammar="{g}">{s}</seg> ||| {r}\n'.format(s=sentence, g=grammar, r=reference)
         self.decoder.stdin.write(input)
         log = self.decoder.stdout.readline().strip()
-        self.lock.release()
         return log
diff --git a/realtime/rt/rt.py b/realtime/rt/rt.py
index a6deff3..4fa47bc 100644
--- a/realtime/rt/rt.py
+++ b/realtime/rt/rt.py
@@ -2,6 +2,8 @@
 
 import argparse
 import collections
+import functools
+import inspect
 import logging
 import os
 import shutil
@@ -56,23 +58,20 @@ class ExtractorWrapper:
             os.kill(self.p.pid, signal.SIGTERM)
             
 
+    @util.locked('lock')
     def drop_ctx(self, ctx_name):
-        self.lock.acquire()
         self.p.stdin.write('{} ||| drop\n'.format(ctx_name))
         self.p.stdout.readline()
-        self.lock.release()
 
+    @util.locked('lock')
     def grammar(self, sentence, grammar_file, ctx_name):
-        self.lock.acquire()
         self.p.stdin.write('{} ||| {} ||| {}\n'.format(ctx_name, sentence, grammar_file))
         self.p.stdout.readline()
-        self.lock.release()
 
+    @util.locked('lock')
     def add_instance(self, source, target, alignment, ctx_name):
-        self.lock.acquire()
         self.p.stdin.write('{} ||| {} ||| {} ||| {}\n'.format(ctx_name, source, target, alignment))
         self.p.stdout.readline()
-        self.lock.release()
 
 class RealtimeDecoder:
     '''Do not use directly unless you know what you're doing.  Use RealtimeTranslator.'''
@@ -111,6 +110,15 @@ class RealtimeDecoder:
             self.ref_fifo.close()
         shutil.rmtree(self.tmp)
 
+def with_ctx_lock(method):
+    '''Run a method while holding the lock of its context, released however the method ends'''
+    @functools.wraps(method)
+    def wrapped(*args, **kwargs):
+        call = inspect.getcallargs(method, *args, **kwargs)
+        with call['self'].ctx_lock(call['ctx_name']):
+            return method(*args, **kwargs)
+    return wrapped
+
 class RealtimeTranslator:
     '''Main entry point into API: serves translations to any number of concurrent users'''
 
@@ -237,13 +245,14 @@ class RealtimeTranslator:
     def drop_ctx(self, ctx_name=None, force=False):
         '''Delete a context (inc stopping the decoder)
         Threadsafe and FIFO unless forced.'''
-        lock = self.ctx_lock(ctx_name)
         if not force:
-            lock.acquire()
+            with self.ctx_lock(ctx_name):
+                return self.drop_ctx_locked(ctx_name, force)
+        return self.drop_ctx_locked(ctx_name, force)
+
+    def drop_ctx_locked(self, ctx_name, force):
         if ctx_name not in self.ctx_names:
             logger.info('({}) No context found, no action taken'.format(ctx_name))
-            if not force:
-                lock.release()
             return
         logger.info('({}) Dropping context'.format(ctx_name))
         self.ctx_names.remove(ctx_name)
@@ -252,25 +261,22 @@ class RealtimeTranslator:
         self.grammar_files.pop(ctx_name)
         self.grammar_dict.pop(ctx_name)
         self.decoders.pop(ctx_name).close(force)
-        if not force:
-            lock.release()
 
     def list_ctx(self, ctx_name=None):
         '''Return a string of active contexts'''
         return 'ctx_name ||| {}'.format(' '.join(sorted(str(ctx_name) for ctx_name in self.ctx_names)))
 
+    @util.locked('extractor_lock')
     def grammar(self, sentence, ctx_name=None):
         '''Extract a sentence-level grammar on demand (or return cached)
         Threadsafe wrt extractor but NOT decoder.  Acquire ctx_name lock
         before calling.'''
-        self.extractor_lock.acquire()
         self.lazy_ctx(ctx_name)
         grammar_dict = self.grammar_dict[ctx_name]
         grammar_file = grammar_dict.get(sentence, None)
         # Cache hit
         if grammar_file:
             logger.info('({}) Grammar cache hit: {}'.format(ctx_name, grammar_file))
-            self.extractor_lock.release()
             return grammar_file
         # Extract and cache
         (fid, grammar_file) = tempfile.mkstemp(dir=self.decoders[ctx_name].tmp, prefix='grammar.', suffix='.gz')
@@ -285,18 +291,15 @@ class RealtimeTranslator:
                 os.remove(rm_grammar)
         grammar_files.append(sentence)
         grammar_dict[sentence] = grammar_file
-        self.extractor_lock.release()
         return grammar_file
         
+    @with_ctx_lock
     def translate(self, sentence, ctx_name=None):
         '''Decode a sentence (inc extracting a grammar if needed)
         Threadsafe, FIFO'''
-        lock = self.ctx_lock(ctx_name)
-        lock.acquire()
         self.lazy_ctx(ctx_name)
         # Empty in, empty out
         if sentence.strip() == '':
-            lock.release()
             return ''
         if self.norm:
             sentence = self.tokenize(sentence)
@@ -314,21 +317,18 @@ class RealtimeTranslator:
         if self.norm:
             logger.info('({}) Normalized translation: {}'.format(ctx_name, hyp))
             hyp = self.detokenize(hyp)
-        lock.release()
         return hyp
 
+    @util.locked('tokenizer_lock')
     def tokenize(self, line):
-        self.tokenizer_lock.acquire()
         self.tokenizer.stdin.write('{}\n'.format(line))
         tok_line = self.tokenizer.stdout.readline().strip()
-        self.tokenizer_lock.release()
         return tok_line
 
+    @util.locked('detokenizer_lock')
     def detokenize(self, line):
-        self.detokenizer_lock.acquire()
         self.detokenizer.stdin.write('{}\n'.format(line))
         detok_line = self.detokenizer.stdout.readline().strip()
-        self.detokenizer_lock.release()
         return detok_line
 
     def command_line(self, line, ctx_name=None):
@@ -350,15 +350,13 @@ class RealtimeTranslator:
                 return command(*args[1:], ctx_name=ctx_name)
         logger.info('ERROR: command: {}'.format(' ||| '.join(args)))
         
+    @with_ctx_lock
     def learn(self, source, target, ctx_name=None):
         '''Learn from training instance (inc extracting grammar if needed)
         Threadsafe, FIFO'''
-        lock = self.ctx_lock(ctx_name)
-        lock.acquire()
         self.lazy_ctx(ctx_name)
         if '' in (source.strip(), target.strip()):
             logger.info('({}) ERROR: empty source or target: {} ||| {}'.format(ctx_name, source, target))
-            lock.release()
             return
         if self.norm:
             source = self.tokenize(source)
@@ -383,12 +381,10 @@ class RealtimeTranslator:
         # Clear (old) cached grammar
         rm_grammar = self.grammar_dict[ctx_name].pop(source)
         os.remove(rm_grammar)
-        lock.release()
 
+    @with_ctx_lock
     def save_state(self, file_or_stringio=None, ctx_name=None):
         '''Write state (several lines terminated by EOF line) to file, buffer, or stdout'''
-        lock = self.ctx_lock(ctx_name)
-        lock.acquire()
         self.lazy_ctx(ctx_name)
         ctx_data = self.ctx_data[ctx_name]
         # Filename, StringIO or None (stdout)
@@ -407,13 +403,11 @@ class RealtimeTranslator:
         # Close if file
         if file_or_stringio and not isinstance(file_or_stringio, StringIO.StringIO):
             out.close()
-        lock.release()
 
+    @with_ctx_lock
     def load_state(self, file_or_stringio=None, ctx_name=None):
         '''Load state (several lines terminated by EOF line) from file, buffer, or stdin.
         Restarts context on any error.'''
-        lock = self.ctx_lock(ctx_name)
-        lock.acquire() 
         self.lazy_ctx(ctx_name)
         ctx_data = self.ctx_data[ctx_name]
         decoder = self.decoders[ctx_name]
@@ -429,7 +423,6 @@ class RealtimeTranslator:
         if ctx_data:
             logger.info('({}) ERROR: Incremental data has already been added to context'.format(ctx_name))
             logger.info('  State can only be loaded to a new context.')
-            lock.release()
             return
         # Many things can go wrong if bad state data is given
         try:
@@ -458,7 +451,6 @@ class RealtimeTranslator:
                     decoder.ref_fifo.flush()
             stop_time = time.time()
             logger.info('({}) Loaded state with {} sentences in {} seconds'.format(ctx_name, len(ctx_data), stop_time - start_time))
-            lock.release()
         # Recover from bad load attempt by restarting context.
         # Guaranteed not to cause data loss since only a new context can load state.
         except:
@@ -466,4 +458,3 @@ class RealtimeTranslator:
             # ctx_name is already owned and needs to be restarted before other blocking threads use
             self.drop_ctx(ctx_name, force=True)
             self.lazy_ctx(ctx_name)
-            lock.release()
diff --git a/realtime/rt/util.py b/realtime/rt/util.py
index 8cd41a1..07c1482 100644
--- a/realtime/rt/util.py
+++ b/realtime/rt/util.py
@@ -1,3 +1,4 @@
+import functools
 import os
 import Queue
 import subprocess
@@ -39,6 +40,23 @@ class FIFOLock:
             self.q.get().set()
         self.lock.release()
 
+    def __enter__(self):
+        self.acquire()
+        return self
+
+    def __exit__(self, ex_type, ex_value, ex_traceback):
+        self.release()
+
+def locked(lock_name):
+    '''Run a method while holding a lock of its object, released however the method ends'''
+    def decorate(method):
+        @functools.wraps(method)
+        def wrapped(self, *args, **kwargs):
+            with getattr(self, lock_name):
+                return method(self, *args, **kwargs)
+        return wrapped
+    return decorate
+
 def cdec_ini_for_config(config):
     # This is a list of (k, v), not a ConfigObj or dict
     for i in range(len(config)):
-- 
2.43.0


From 832700c55e8c6adf87044050d0dade0da8413df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:26 +0000
Subject: [PATCH 55/72] fix: a realtime context is complete or not there at all

---
 realtime/rt/rt.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/realtime/rt/rt.py b/realtime/rt/rt.py
index 4fa47bc..77cb0e0 100644
--- a/realtime/rt/rt.py
+++ b/realtime/rt/rt.py
@@ -101,7 +101,11 @@ class RealtimeDecoder:
             for (k, v) in decoder_config:
                 output.write('{}={}\n'.format(k, v))
         decoder_weights = os.path.join(configdir, 'weights.final')
-        self.decoder = decoder.MIRADecoder(decoder_config_file, decoder_weights, metric=metric)
+        try:
+            self.decoder = decoder.MIRADecoder(decoder_config_file, decoder_weights, metric=metric)
+        except:
+            shutil.rmtree(self.tmp)
+            raise
 
     def close(self, force=False):
         logger.info('Closing decoder and removing {}'.format(self.tmp))
@@ -235,12 +239,13 @@ class RealtimeTranslator:
         if ctx_name in self.ctx_names:
             return
         logger.info('({}) New context'.format(ctx_name))
-        self.ctx_names.add(ctx_name)
+        tmpdir = os.path.join(self.tmp, 'decoder.{}'.format(ctx_name))
+        # (this can fail: only a complete context is entered)
+        self.decoders[ctx_name] = RealtimeDecoder(self.config, tmpdir, hpyplm=self.hpyplm, metric=self.metric)
         self.ctx_data[ctx_name] = []
         self.grammar_files[ctx_name] = collections.deque()
         self.grammar_dict[ctx_name] = {}
-        tmpdir = os.path.join(self.tmp, 'decoder.{}'.format(ctx_name))
-        self.decoders[ctx_name] = RealtimeDecoder(self.config, tmpdir, hpyplm=self.hpyplm, metric=self.metric)
+        self.ctx_names.add(ctx_name)
 
     def drop_ctx(self, ctx_name=None, force=False):
         '''Delete a context (inc stopping the decoder)
@@ -257,10 +262,12 @@ class RealtimeTranslator:
         logger.info('({}) Dropping context'.format(ctx_name))
         self.ctx_names.remove(ctx_name)
         self.ctx_data.pop(ctx_name)
-        self.extractor.drop_ctx(ctx_name)
         self.grammar_files.pop(ctx_name)
         self.grammar_dict.pop(ctx_name)
-        self.decoders.pop(ctx_name).close(force)
+        try:
+            self.extractor.drop_ctx(ctx_name)
+        finally:
+            self.decoders.pop(ctx_name).close(force)
 
     def list_ctx(self, ctx_name=None):
         '''Return a string of active contexts'''
-- 
2.43.0


From d0d827f0e32274b109b08770391f626211083c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:26 +0000
Subject: [PATCH 56/72] fix: the end of a backend process is not a reply

---
 realtime/rt/aligner.py |  6 +++---
 realtime/rt/decoder.py |  6 +++---
 realtime/rt/rt.py      | 10 +++++-----
 realtime/rt/util.py    |  6 ++++++
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/realtime/rt/aligner.py b/realtime/rt/aligner.py
index 0dd6451..762eca2 100644
--- a/realtime/rt/aligner.py
+++ b/realtime/rt/aligner.py
@@ -45,11 +45,11 @@ class ForceAligner:
         self.fwd_align.stdin.write('{}\n'.format(line))
         self.rev_align.stdin.write('{}\n'.format(line))
         # f words ||| e words ||| links ||| score
-        fwd_line = self.fwd_align.stdout.readline().split('|||')[2].strip()
-        rev_line = self.rev_align.stdout.readline().split('|||')[2].strip()
+        fwd_line = util.read_reply(self.fwd_align.stdout).split('|||')[2].strip()
+        rev_line = util.read_reply(self.rev_align.stdout).split('|||')[2].strip()
         self.tools.stdin.write('{}\n'.format(fwd_line))
         self.tools.stdin.write('{}\n'.format(rev_line))
-        al_line = self.tools.stdout.readline().strip()
+        al_line = util.read_reply(self.tools.stdout).strip()
         return al_line
  
     def close(self, force=False):
diff --git a/realtime/rt/decoder.py b/realtime/rt/decoder.py
index 4e60ad5..20ee5bb 100644
--- a/realtime/rt/decoder.py
+++ b/realtime/rt/decoder.py
@@ -22,7 +22,7 @@ class Decoder:
         '''Threadsafe, FIFO'''
         input = '<seg grammar="{g}">{s}</seg>\n'.format(s=sentence, g=grammar) if grammar else '{}\n'.format(sentence)
         self.decoder.stdin.write(input)
-        hyp = self.decoder.stdout.readline().strip()
+        hyp = util.read_reply(self.decoder.stdout).strip()
         return hyp
 
 class CdecDecoder(Decoder):
@@ -50,7 +50,7 @@ class MIRADecoder(Decoder):
     def get_weights(self):
         '''Threadsafe, FIFO'''
         self.decoder.stdin.write('WEIGHTS ||| WRITE\n')
-        weights = self.decoder.stdout.readline().strip()
+        weights = util.read_reply(self.decoder.stdout).strip()
         return weights
 
     @util.locked('lock')
@@ -71,5 +71,5 @@ class MIRADecoder(Decoder):
         '''Threadsafe, FIFO'''
         input = 'LEARN ||| <seg grammar="{g}">{s}</seg> ||| {r}\n'.format(s=sentence, g=grammar, r=reference)
         self.decoder.stdin.write(input)
-        log = self.decoder.stdout.readline().strip()
+        log = util.read_reply(self.decoder.stdout).strip()
         return log
diff --git a/realtime/rt/rt.py b/realtime/rt/rt.py
index 77cb0e0..2b1fed3 100644
--- a/realtime/rt/rt.py
+++ b/realtime/rt/rt.py
@@ -61,17 +61,17 @@ class ExtractorWrapper:
     @util.locked('lock')
     def drop_ctx(self, ctx_name):
         self.p.stdin.write('{} ||| drop\n'.format(ctx_name))
-        self.p.stdout.readline()
+        util.read_reply(self.p.stdout)
 
     @util.locked('lock')
     def grammar(self, sentence, grammar_file, ctx_name):
         self.p.stdin.write('{} ||| {} ||| {}\n'.format(ctx_name, sentence, grammar_file))
-        self.p.stdout.readline()
+        util.read_reply(self.p.stdout)
 
     @util.locked('lock')
     def add_instance(self, source, target, alignment, ctx_name):
         self.p.stdin.write('{} ||| {} ||| {} ||| {}\n'.format(ctx_name, source, target, alignment))
-        self.p.stdout.readline()
+        util.read_reply(self.p.stdout)
 
 class RealtimeDecoder:
     '''Do not use directly unless you know what you're doing.  Use RealtimeTranslator.'''
@@ -329,13 +329,13 @@ class RealtimeTranslator:
     @util.locked('tokenizer_lock')
     def tokenize(self, line):
         self.tokenizer.stdin.write('{}\n'.format(line))
-        tok_line = self.tokenizer.stdout.readline().strip()
+        tok_line = util.read_reply(self.tokenizer.stdout).strip()
         return tok_line
 
     @util.locked('detokenizer_lock')
     def detokenize(self, line):
         self.detokenizer.stdin.write('{}\n'.format(line))
-        detok_line = self.detokenizer.stdout.readline().strip()
+        detok_line = util.read_reply(self.detokenizer.stdout).strip()
         return detok_line
 
     def command_line(self, line, ctx_name=None):
diff --git a/realtime/rt/util.py b/realtime/rt/util.py
index 07c1482..a9e18ca 100644
--- a/realtime/rt/util.py
+++ b/realtime/rt/util.py
@@ -91,6 +91,12 @@ def consume_stream(stream):
             pass
     threading.Thread(target=consume, args=(stream,)).start()
 
+def read_reply(stream):
+    line = stream.readline()
+    if not line:
+        raise IOError('A backend process has ended')
+    return line
+
 def popen_io(cmd):
     p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
     consume_stream(p.stderr)
-- 
2.43.0


From 71a1f9cd31bd9f2a25ac78dce15f93492bb72d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:26 +0000
Subject: [PATCH 57/72] fix: realtime contexts can be listed while others come
 and go

---
 realtime/rt/rt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/realtime/rt/rt.py b/realtime/rt/rt.py
index 2b1fed3..ba8330f 100644
--- a/realtime/rt/rt.py
+++ b/realtime/rt/rt.py
@@ -271,7 +271,7 @@ class RealtimeTranslator:
 
     def list_ctx(self, ctx_name=None):
         '''Return a string of active contexts'''
-        return 'ctx_name ||| {}'.format(' '.join(sorted(str(ctx_name) for ctx_name in self.ctx_names)))
+        return 'ctx_name ||| {}'.format(' '.join(sorted(str(ctx_name) for ctx_name in list(self.ctx_names))))
 
     @util.locked('extractor_lock')
     def grammar(self, sentence, ctx_name=None):
-- 
2.43.0


From 766088da490762c7e2616b9f0d94731e0946af7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:26 +0000
Subject: [PATCH 58/72] fix: a grammar cache of size 0 holds the grammar in use

---
 realtime/rt/rt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/realtime/rt/rt.py b/realtime/rt/rt.py
index ba8330f..398633d 100644
--- a/realtime/rt/rt.py
+++ b/realtime/rt/rt.py
@@ -290,7 +290,7 @@ class RealtimeTranslator:
         os.close(fid)
         self.extractor.grammar(sentence, grammar_file, ctx_name)
         grammar_files = self.grammar_files[ctx_name]
-        if len(grammar_files) == self.cache_size:
+        if len(grammar_files) == max(self.cache_size, 1):
             rm_sent = grammar_files.popleft()
             # If not already removed by learn method
             if rm_sent in grammar_dict:
-- 
2.43.0


From 2d24d3fd005b6fffa368e9d77078ffae576a0334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:26 +0000
Subject: [PATCH 59/72] fix: a saved realtime state with an empty alignment can
 be loaded

---
 realtime/rt/rt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/realtime/rt/rt.py b/realtime/rt/rt.py
index 398633d..2d77b5c 100644
--- a/realtime/rt/rt.py
+++ b/realtime/rt/rt.py
@@ -444,8 +444,9 @@ class RealtimeTranslator:
                 line = input.readline()
                 if not line:
                     raise Exception('End of file before EOF line')
-                line = line.strip()
-                if line == 'EOF':
+                # (the alignment may be empty)
+                line = line.rstrip('\r\n')
+                if line.strip() == 'EOF':
                     break
                 (source, target, alignment) = line.split(' ||| ')
                 ctx_data.append((source, target, alignment))
-- 
2.43.0


From ae14e3f10fd0b3f04b8d27f94327ee97960ef52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:26 +0000
Subject: [PATCH 60/72] fix: realtime.py loads the state it is given

---
 realtime/realtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/realtime/realtime.py b/realtime/realtime.py
index f99478b..1fa6ac5 100755
--- a/realtime/realtime.py
+++ b/realtime/realtime.py
@@ -92,7 +92,7 @@ def main():
 
         # Load state if given
         if args.state:
-            rtd.load_state(state)
+            translator.load_state(args.state)
 
         # Read lines and commands
         while True:
-- 
2.43.0


From 91b11bc967fda95b8cc8b6e96d826f3ebf0f1173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:26 +0000
Subject: [PATCH 61/72] fix: realtime.py survives a request that fails

---
 realtime/realtime.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/realtime/realtime.py b/realtime/realtime.py
index 1fa6ac5..b889f2b 100755
--- a/realtime/realtime.py
+++ b/realtime/realtime.py
@@ -100,7 +100,12 @@ def main():
             if not line:
                 break
             line = line.strip()
-            res = translator.command_line(line)
+            try:
+                res = translator.command_line(line)
+            except Exception as e:
+                # This request fails, the next may not
+                sys.stderr.write('ERROR: {}: {}\n'.format(line, e))
+                continue
             if res:
                 sys.stdout.write('{}\n'.format(res))
                 sys.stdout.flush()
-- 
2.43.0


From 43ab58702d92a31d21be94653ba5643c3468b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:08 +0000
Subject: [PATCH 62/72] fix: closing the realtime translator cleans up when a
 backend has died

---
 realtime/rt/rt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/realtime/rt/rt.py b/realtime/rt/rt.py
index 2d77b5c..2431562 100644
--- a/realtime/rt/rt.py
+++ b/realtime/rt/rt.py
@@ -208,7 +208,11 @@ class RealtimeTranslator:
         # Drop contexts before closing processes unless forced
         if not force:
             for ctx_name in list(self.ctx_names):
-                self.drop_ctx(ctx_name, force)
+                try:
+                    self.drop_ctx(ctx_name, force)
+                except Exception as e:
+                    # (a backend process may have ended: clean up the rest)
+                    logger.info('({}) ERROR: {}'.format(ctx_name, e))
         logger.info('Closing processes')
         self.aligner.close(force)
         self.extractor.close(force)
-- 
2.43.0


From 1a48f0168bbf60765194d18678b0d2bb9e0a0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:39 +0000
Subject: [PATCH 63/72] fix: weights of features not seen before can be set
 from a string

---
 utils/weights.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index 7f981dc..4c71d99 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -178,8 +178,15 @@ void Weights::UpdateFromString(string& w_string,
                                vector<weight_t>& w) {
     vector<string> tok = SplitOnWhitespace(w_string);
     for (vector<string>::iterator i = tok.begin(); i != tok.end(); i++) {
-        int delim = i->find('=');
-        int fid = FD::Convert(i->substr(0, delim));
+        size_t delim = i->rfind('=');
+        if (delim == string::npos || delim == 0) {
+            cerr << "Bad weight: " << *i << endl;
+            continue;
+        }
+        const unsigned fid = FD::Convert(i->substr(0, delim));
+        if (fid == 0) continue;
+        if (w.size() <= fid)
+            w.resize(fid + 1);
         w[fid] = strtod(i->substr(delim + 1).c_str(), NULL);
     }
 }
-- 
2.43.0


From 721c2ce9bdc126fc30e30557ee9142e491cf7d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:39 +0000
Subject: [PATCH 64/72] fix: weights that are all zero can be written to a
 string

---
 utils/weights.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index 4c71d99..783e903 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -171,7 +171,8 @@ string Weights::GetString(const vector<weight_t>& w,
         }
         os << ' ' << FD::Convert(i) << '=' << val;
     }
-    return os.str().substr(1);
+    const string s = os.str();
+    return s.empty() ? s : s.substr(1);
 }
 
 void Weights::UpdateFromString(string& w_string,
-- 
2.43.0


From e56e721cf036e235269a3d3c7035b22efe9b02f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:39 +0000
Subject: [PATCH 65/72] fix: a sentence the MIRA trainer cannot translate gets
 an empty line, not the last translation

---
 training/mira/kbest_cut_mira.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index 5d8385c..bdd8baf 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -327,14 +327,16 @@ struct BasicObserver: public DecoderObserver {
     ~BasicObserver() {
         if(hypergraph != NULL) delete hypergraph;
     }
-    void NotifyDecodingStart(const SentenceMetadata& smeta) {}
+    void NotifyDecodingStart(const SentenceMetadata& smeta) { Clear(); }
     void NotifySourceParseFailure(const SentenceMetadata& smeta) {}
     void NotifyTranslationForest(const SentenceMetadata& smeta, Hypergraph* hg) {
-        if(hypergraph != NULL) delete hypergraph;
+        Clear();
         hypergraph = new Hypergraph(*hg);
     }
-    void NotifyAlignmentFailure(const SentenceMetadata& semta) {
-        if(hypergraph != NULL) delete hypergraph;
+    void NotifyAlignmentFailure(const SentenceMetadata& semta) { Clear(); }
+    void Clear() {
+        delete hypergraph;
+        hypergraph = NULL;
     }
     void NotifyAlignmentForest(const SentenceMetadata& smeta, Hypergraph* hg) {}
     void NotifyDecodingComplete(const SentenceMetadata& smeta) {}
@@ -718,7 +720,8 @@ int main(int argc, char** argv) {
     		  decoder.SetId(cur_sent);
     		  decoder.Decode(buf, &bobs);
     		  vector<WordID> trans;
-    		  ViterbiESentence(bobs.hypergraph[0], &trans);
+    		  // no translation: an empty line
+    		  if (bobs.hypergraph) ViterbiESentence(*bobs.hypergraph, &trans);
     		  cout << TD::GetString(trans) << endl;
     		  continue;
           // Special command:
-- 
2.43.0


From e31b28ae2a9ec5591b96d9fed8929fe6493530d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:40 +0000
Subject: [PATCH 66/72] fix: MIRA learns nothing from a sentence that cannot be
 translated

---
 training/mira/kbest_cut_mira.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index bdd8baf..0bd174e 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -394,6 +394,12 @@ struct TrainingObserver : public DecoderObserver {
   }
   
 
+  // nothing is known about a sentence until it has a forest
+  virtual void NotifyDecodingStart(const SentenceMetadata& smeta) {
+    cur_sent = stream ? 0 : smeta.GetSentenceID();
+    cur_best.clear();
+  }
+
   virtual void NotifyTranslationForest(const SentenceMetadata& smeta, Hypergraph* hg) {
     cur_sent = stream ? 0 : smeta.GetSentenceID();
     curr_src_length = (float) smeta.GetSourceLength();
@@ -760,6 +766,11 @@ int main(int argc, char** argv) {
 
       cur_sent = observer.GetCurrentSent();
       cerr << "SENT: " << cur_sent << endl;
+      if (observer.GetCurrentBest().empty()) {  // no translation: nothing to learn
+        cout << " |||  ||| " << endl;
+        cur_sent++;
+        continue;
+      }
       const HypothesisInfo& cur_hyp = observer.GetCurrentBestHypothesis();
       const HypothesisInfo& cur_good = *oracles[cur_sent].good[0];
       const HypothesisInfo& cur_bad = *oracles[cur_sent].bad[0];
-- 
2.43.0


From dcb400a2783af523b93b2a9c84fde2b3d82b0fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:40 +0000
Subject: [PATCH 67/72] fix: a LEARN request without a reference is skipped

---
 training/mira/kbest_cut_mira.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index 0bd174e..706565b 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -739,6 +739,11 @@ int main(int argc, char** argv) {
               // LEARN ||| source ||| reference
               if (cmd == "LEARN") {
                   delim = buf.find(" ||| ");
+                  if (delim == -1) {
+                      cerr << "Error: LEARN needs a source and a reference, skipping line:" << endl;
+                      cerr << cmd << " ||| " << buf << endl;
+                      continue;
+                  }
         		  ds->update(buf.substr(delim + 5));
         		  buf = buf.substr(0, delim);
               } else if (cmd == "WEIGHTS") {
-- 
2.43.0


From e640492b48ab521fd4963f05878f4f58937caf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:40 +0000
Subject: [PATCH 68/72] fix: weights the MIRA trainer was told survive the next
 update

---
 training/mira/kbest_cut_mira.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index 706565b..95eea56 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -753,6 +753,8 @@ int main(int argc, char** argv) {
                   // WEIGHTS ||| f1=w1 f2=w2 ...
                   } else {
                       Weights::UpdateFromString(buf, dense_weights);
+                      // what LEARN starts from
+                      Weights::InitSparseVector(dense_weights, &lambdas);
                   }
                   continue;
               } else {
-- 
2.43.0


From 8c6b475be58746a06d676d6ad6dee8e5e8ea194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:21 +0000
Subject: [PATCH 69/72] fix: every MIRA optimizer updates the weights the
 decoder uses

---
 training/mira/kbest_cut_mira.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index 95eea56..f0f8249 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -999,6 +999,8 @@ int main(int argc, char** argv) {
       
     
       if ((cur_sent * 40 / ds->size()) > dots) { ++dots; cerr << '.'; }
+      // from here on the sentences are decoded with these weights
+      lambdas.init_vector(&dense_weights);
       tot += lambdas;
       ++lcount;
       cur_sent++;
-- 
2.43.0


From 92e4bccdcd5b17f761b9ce28869c8defadc33118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:10 +0000
Subject: [PATCH 70/72] fix: MIRA with all n-best constraints knows the oracle
 of the model best hypotheses

---
 training/mira/kbest_cut_mira.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index f0f8249..9d6d552 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -547,6 +547,15 @@ struct TrainingObserver : public DecoderObserver {
 	  
 	}
       
+      //the model best hyps are constraints as well
+      for(int u=0;u!=cur_best.size();u++)
+	{
+	  cur_best[u]->fear = -1*cur_best[u]->mt_metric + 1*oracleN->mt_metric - hope_score + cur_best[u]->features.dot(dense_w_local);
+	  cur_best[u]->oracle_loss = -1*cur_best[u]->mt_metric + 1*oracleN->mt_metric;
+	  cur_best[u]->oracle_feat_diff = oracleN->features - cur_best[u]->features;
+	  cur_best[u]->oracleN=oracleN;
+	}
+
       sort(all_hyp.begin(),all_hyp.end(),FearCompareB);
       
     }
-- 
2.43.0


From 77d7737b5085c891f30e182cd254438d09b6395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:45 +0000
Subject: [PATCH 71/72] fix: MIRA reads a last line without a newline once

---
 training/mira/kbest_cut_mira.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index 9d6d552..ea233be 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -605,9 +605,7 @@ void ReadPastTranslationForScore(const int cur_pass, vector<ScoreP>* c, DocScore
   ScoreP acc;
   string line;
   int lc = 0;
-  while(in) {
-    getline(in, line);
-    if (line.empty() && !in) break;
+  while(getline(in, line)) {
     vector<WordID> sent;
     TD::ConvertSentence(line, &sent);
     ScoreP sentscore = ds[lc]->ScoreCandidate(sent);
@@ -724,8 +722,7 @@ int main(int argc, char** argv) {
   cerr << "PASS " << cur_pass << " " << endl << lambdas << endl; 
   ScoreP acc, acc_h, acc_f;
   
-  while(*in) {
-      getline(*in, buf);
+  while(getline(*in, buf)) {
       if (buf.empty()) continue;
       if (stream) {
     	  cur_sent = 0;
-- 
2.43.0


From 0cafed1953bf9203b58974f5c83a3d1118fbed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:16 +0000
Subject: [PATCH 72/72] fix: MIRA fails when its input cannot be read or its
 output cannot be written

---
 training/mira/kbest_cut_mira.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index ea233be..81bc464 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <sstream>
 #include <iostream>
 #include <vector>
@@ -1015,6 +1016,11 @@ int main(int argc, char** argv) {
 
     }
 
+    // (the end of a line may also be the place where reading failed)
+    if (in->bad() || (in_read.is_std() && ferror(stdin))) {
+      cerr << "Failed to read the input\n";
+      return 1;
+    }
     cerr << "FINAL OBJECTIVE: "<< objective << endl;
     final_tot += tot;
     cerr << "Translated " << lcount << " sentences " << endl;
@@ -1042,6 +1048,10 @@ int main(int argc, char** argv) {
 		Weights::WriteToFile(sa.str(), dense_weights, true, &msga);
     }
     
+    if (!cout.flush()) {
+      cerr << "Failed to write the output\n";
+      return 1;
+    }
     cerr << "Optimization complete.\n";
     return 0;
 }
-- 
2.43.0

