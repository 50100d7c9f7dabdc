From 1a0500e64d6c02b8a6c1007463090a0f534a719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 01/20] fix: IntDictImpl looks up appended symbols outside the
 sorted part of the dictionary

Symbols met while parsing are appended, but search() kept binary-searching the
whole vector, so a dictionary that had grown missed existing entries, gave one
symbol several ids and read past the end of short sequences.
---
 core/src/main/cpp/algorithm/int_dict_p.cc | 18 +++++++++++++++---
 core/src/main/cpp/algorithm/int_dict_p.h  |  2 ++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index 62b4c44..10b39b4 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -29,6 +29,8 @@ IntDictImpl::IntDictImpl(const IntSeq& seqs) {
 IntDictImpl::IntDictImpl(const IntDictImpl& dict) {
     seqs_ = dict.seqs_; // Sanitizer: indirect leak
     parents_ = dict.parents_; // Sanitizer: indirect leak
+    sorted_size_ = dict.sorted_size_;
+    appended_ = dict.appended_;
 }
 
 void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
@@ -36,6 +38,7 @@ void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
     parents_ = IntSeq(seqs_.size(), -1); // Sanitizer: indirect leak
     std::vector<std::pair<IntSeq, int>> parents_stack;
     std::sort(seqs_.begin(), seqs_.end());
+    sorted_size_ = seqs_.size();
 
     for (int i = 0; i < seqs_.size(); ++i) {
         IntSeq current = seqs_[i];
@@ -101,14 +104,18 @@ double IntDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, double
 }
 
 int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
-    int index = static_cast<int>(std::lower_bound(seqs_.begin(), seqs_.end(), seq) - seqs_.begin());
-    if (index >= 0 && index < size() && seqs_[index] == seq) {
+    if (seq.empty()) {
+        return -1;
+    }
+    auto sorted_end = seqs_.begin() + sorted_size_;
+    int index = static_cast<int>(std::lower_bound(seqs_.begin(), sorted_end, seq) - seqs_.begin());
+    if (index >= 0 && index < sorted_size_ && seqs_[index] == seq) {
         if (excludes == nullptr || excludes->count(index) == 0) {
             return index;
         }
     }
     index--;
-    while (index >= 0 && index < size()) {
+    while (index >= 0) {
         if (std::mismatch(seqs_[index].begin(), seqs_[index].end(), seq.begin()).first == seqs_[index].end()) {
             if (excludes == nullptr || excludes->count(index) == 0) {
                 return index;
@@ -116,10 +123,15 @@ int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
         }
         index = parents_[index];
     }
+    auto appended = appended_.find(seq[0]);
+    if (appended != appended_.end()) {
+        return excludes == nullptr || excludes->count(appended->second) == 0 ? appended->second : -1;
+    }
     if (excludes == nullptr) {
         int ind = size();
         seqs_.emplace_back(1, seq[0]);
         parents_.push_back(-1);
+        appended_[seq[0]] = ind;
         return ind;
     } else {
         return -1;
diff --git a/core/src/main/cpp/algorithm/int_dict_p.h b/core/src/main/cpp/algorithm/int_dict_p.h
index 6895615..c2a5a7e 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.h
+++ b/core/src/main/cpp/algorithm/int_dict_p.h
@@ -29,6 +29,8 @@ public:
 private:
     std::vector<IntSeq> seqs_;
     IntSeq parents_;
+    size_t sorted_size_ = 0; // seqs_[0..sorted_size_) is sorted, symbols met later are appended after it
+    std::unordered_map<int, int> appended_; // appended symbol -> its index
 
     void init(const std::vector<IntSeq>& seqs);
     int linearParse(const IntSeq& seq, IntSeq* builder, std::unordered_set<int>* excludes);
-- 
2.43.0


From 7567d3b5c2ee15d1692424aaf5cb5a8c7ca83727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 02/20] fix: prior frequencies follow their v-grams when a
 dictionary is built

IntDictImpl sorts the sequences it is given, StatDictImpl kept the frequencies
in the caller's order, so after every rebuild they belonged to other v-grams.
---
 core/src/main/cpp/algorithm/int_dict_p.cc  | 12 ++++++++++++
 core/src/main/cpp/algorithm/int_dict_p.h   |  3 +++
 core/src/main/cpp/algorithm/stat_dict_p.cc |  4 +---
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index 10b39b4..f68c4e8 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -33,6 +33,18 @@ IntDictImpl::IntDictImpl(const IntDictImpl& dict) {
     appended_ = dict.appended_;
 }
 
+IntSeq IntDictImpl::freqs_in_dict_order(const std::vector<IntSeq>& seqs, const IntSeq& freqs) {
+    std::vector<size_t> order(seqs.size());
+    std::iota(order.begin(), order.end(), 0);
+    std::stable_sort(order.begin(), order.end(), [&seqs] (size_t a, size_t b) { return seqs[a] < seqs[b]; });
+    IntSeq result;
+    result.reserve(order.size());
+    for (size_t i : order) {
+        result.push_back(i < freqs.size() ? freqs[i] : 0);
+    }
+    return result;
+}
+
 void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
     seqs_ = std::vector<IntSeq>(seqs); // Sanitizer: indirect leak
     parents_ = IntSeq(seqs_.size(), -1); // Sanitizer: indirect leak
diff --git a/core/src/main/cpp/algorithm/int_dict_p.h b/core/src/main/cpp/algorithm/int_dict_p.h
index c2a5a7e..79e911c 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.h
+++ b/core/src/main/cpp/algorithm/int_dict_p.h
@@ -15,6 +15,9 @@ public:
     explicit IntDictImpl(const IntSeq& seqs);
     IntDictImpl(const IntDictImpl& dict);
 
+    // freqs[i] belongs to seqs[i]: returns them in the order a dictionary built from seqs keeps its entries
+    static IntSeq freqs_in_dict_order(const std::vector<IntSeq>& seqs, const IntSeq& freqs);
+
     int search(const IntSeq& seq, std::unordered_set<int>* excludes) override;
     const IntSeq& get(int index) const override;
     int size() const override;
diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 6cdb6ef..8cf8133 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -24,10 +24,8 @@ StatDictImpl::StatDictImpl(const std::vector<IntSeq>& seqs, double min_prob_resu
     if (init_freqs == nullptr) {
         parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size())); // Sanitizer: indirect leak
     } else {
-        parse_freqs_ = IntSeq(*init_freqs);
+        parse_freqs_ = IntDictImpl::freqs_in_dict_order(seqs, *init_freqs);
         parse_freqs_init_power_ = std::accumulate(parse_freqs_.begin(), parse_freqs_.end(), 0.0);
-        for (auto i = parse_freqs_.size(); i < dict_->size(); i++)
-            parse_freqs_.push_back(0);
     }
     pairs_freqs_ = std::unordered_map<std::int64_t , int>(kAggPower); // Sanitizer: indirect leak
     min_probability_ = min_prob_result;
-- 
2.43.0


From 832737eac534abdd5ca44a7aa422336efd480324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 03/20] fix: update_symbol grows each frequency vector it
 writes to

After result_freqs() had padded only symbol_freqs_, an occurrence of a symbol
met while parsing was counted past the end of parse_freqs_.
---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 8cf8133..db2c0b1 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -32,12 +32,11 @@ StatDictImpl::StatDictImpl(const std::vector<IntSeq>& seqs, double min_prob_resu
 }
 
 void StatDictImpl::update_symbol(int index, int freq) {
-    if (index >= symbol_freqs_.size()) {
-        for (auto i = symbol_freqs_.size(); i < index + 1; i++)
-            symbol_freqs_.push_back(0); // Sanitizer: indirect leak
-        for (auto i = parse_freqs_.size(); i < index + 1; i++)
-            parse_freqs_.push_back(0); // Sanitizer: indirect leak
-    }
+    // the two may differ in size: only symbol_freqs_ is padded when result frequencies are asked for
+    for (auto i = symbol_freqs_.size(); i < index + 1; i++)
+        symbol_freqs_.push_back(0); // Sanitizer: indirect leak
+    for (auto i = parse_freqs_.size(); i < index + 1; i++)
+        parse_freqs_.push_back(0); // Sanitizer: indirect leak
     symbol_freqs_[index] += freq;
     parse_freqs_[index] += freq;
     power_ += freq;
-- 
2.43.0


From 29af21e5c545e495421fdbe5624310c27906439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:32 +0000
Subject: [PATCH 04/20] fix: reduction copes with v-grams that no other entries
 can spell

When a dictionary lacks some single symbols, dropping a v-gram can leave its
text without a segmentation: search() returned -1 and get(-1) was read.
---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index db2c0b1..c4c2534 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -215,6 +215,10 @@ int StatDictImpl::stat_items(std::vector<StatItem>* items, std::unordered_set<in
                 excludes->insert(id);
                 weightedParse(seq, symbol_freqs_, power_, &parse, excludes); //TODO doesn't work, make base_dict
                 excludes->erase(id);
+                if (parse.empty()) { // nothing else can spell it
+                    items->emplace_back(-1, id, std::numeric_limits<double>::max() / 2, count);
+                    continue;
+                }
                 double new_power = power_ + (parse.size() - 1) * count;
                 double code_length_without_symbol = code_length + count * log(count) -
                         power_ * log(power_) + new_power * log(new_power);
@@ -247,6 +251,8 @@ double StatDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, doubl
     for (int pos = 0; pos < len; pos++) {
         IntSeq suffix(seq.begin() + pos, seq.end());
         int sym = search(suffix, excludes);
+        if (sym < 0)
+            continue;
         do {
             auto sym_len = get(sym).size();
             double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1) : 0) - log(total_freq + size());
@@ -258,6 +264,8 @@ double StatDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, doubl
         }
         while ((sym = parent(sym)) >= 0);
     }
+    if (score[len] == std::numeric_limits<double>::lowest())
+        return score[len];
     IntSeq solution(len + 1);
     auto pos = static_cast<int>(len);
     int index = 0;
-- 
2.43.0


From f0172d89d0edd96b2bc9695721ad0edeac8e9ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 05/20] fix: a builder without a reduced dictionary reports the
 current one's minimal probability

result() falls back to the current dictionary, get_min_probability() returned -1
for it and code_length() dereferenced a null pointer.  Saved with a model, the -1
made a restored builder rebuild its dictionary on every accept.
---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index ae1c33f..a2aac85 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -137,9 +137,9 @@ int IntVGramBuilderImpl::result_freqs(IntSeq *freqs) {
 }
 
 double IntVGramBuilderImpl::code_length() const {
-    return result_->code_length_per_char();
+    return result_ != nullptr ? result_->code_length_per_char() : current_->code_length_per_char();
 }
 
 double IntVGramBuilderImpl::get_min_probability() const {
-    return result_ != nullptr ? result_->min_probability_ : -1.0;
+    return result_ != nullptr ? result_->min_probability_ : current_->min_probability_;
 }
-- 
2.43.0


From 45b0c352df3f3ba19a6736a915eb5d7296b4bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 06/20] fix: render an empty sequence as ()

---
 core/src/main/cpp/algorithm/int_dict.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict.cc b/core/src/main/cpp/algorithm/int_dict.cc
index edfe12c..4049769 100644
--- a/core/src/main/cpp/algorithm/int_dict.cc
+++ b/core/src/main/cpp/algorithm/int_dict.cc
@@ -8,7 +8,7 @@
 std::ostream& operator<< (std::ostream &out, const IntSeq& seq)
 {
     out << "(";
-    for (int i = 0; i < seq.size() - 1; i++) {
+    for (int i = 0; i + 1 < seq.size(); i++) {
         out << seq[i] << " ";
     }
     if (!seq.empty()) {
@@ -20,7 +20,7 @@ std::ostream& operator<< (std::ostream &out, const IntSeq& seq)
 
 std::string to_string(const IntSeq& seq) {
     std::string res = "(";
-    for (int i = 0; i < seq.size() - 1; i++) {
+    for (int i = 0; i + 1 < seq.size(); i++) {
         res += std::to_string(seq[i]) + " ";
     }
     if (!seq.empty()) {
-- 
2.43.0


From 34f6b4fdcf8767ecfdfc1c54a717a68a83350e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 07/20] fix: Encoder no longer reads through end() for a new
 symbol

---
 core/src/main/cpp/algorithm/list_dict.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/list_dict.h b/core/src/main/cpp/algorithm/list_dict.h
index 069610b..a9f0e08 100644
--- a/core/src/main/cpp/algorithm/list_dict.h
+++ b/core/src/main/cpp/algorithm/list_dict.h
@@ -18,7 +18,7 @@ public:
     for (const T& next: input) {
       auto code_ptr = mapping.find(next);
       if (code_ptr == mapping.end()) {
-        mapping[next] = next_id++;
+        code_ptr = mapping.emplace(next, next_id++).first;
       }
       output->push_back(code_ptr->second);
     }
-- 
2.43.0


From a10575b7162008b353b7b1c5698776d2c9765f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 08/20] fix: word tokenizer drops leading and repeated spaces

---
 core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
index a70f5b1..6fffb27 100644
--- a/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
@@ -19,9 +19,11 @@ vector<string> WordTokenizer::tokenize(const string &str) const {
     vector<string> tokens;
     string current;
     for (char i : str) {
-        if (i == ' ' && current != "") {
-            tokens.push_back(current);
-            current = "";
+        if (i == ' ') {
+            if (current != "") {
+                tokens.push_back(current);
+                current = "";
+            }
         } else {
             current += i;
         }
-- 
2.43.0


From 78a5511f7d8a5d6a963089e492c556f6d240f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 09/20] fix: a new token never gets a code that a loaded map
 already uses

---
 core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc | 7 +++++--
 core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h  | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
index 258f705..b42d04d 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
@@ -3,6 +3,7 @@
 //
 
 #include <sstream>
+#include <algorithm>
 #import <regex>
 #include "base_tokenizer.h"
 
@@ -15,6 +16,7 @@ BaseTokenizer::BaseTokenizer(const unordered_map<string, int> &forward_map) {
     forward_coder_ = forward_map;
     for (const auto &pair : forward_map) {
         backward_coder_[pair.second] = pair.first;
+        next_code_ = std::max(next_code_, pair.second + 1);
     }
 }
 
@@ -33,8 +35,9 @@ vector<int> BaseTokenizer::transform(const string &seq) {
     coded_seq.reserve(tokens.size());
     for (const std::string &symb : tokens) {
         if (forward_coder_.count(symb) == 0) {
-            forward_coder_[symb] = static_cast<int>(forward_coder_.size());
-            backward_coder_[backward_coder_.size()] = symb;
+            forward_coder_[symb] = next_code_;
+            backward_coder_[next_code_] = symb;
+            next_code_++;
         }
         coded_seq.push_back(forward_coder_.at(symb));
     }
diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
index 2bdda96..5ecfc8d 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
@@ -35,6 +35,7 @@ namespace vgram_core {
     protected:
         std::unordered_map<std::string, int> forward_coder_;
         std::unordered_map<int, std::string> backward_coder_;
+        int next_code_ = 0;
     };
 }
 
-- 
2.43.0


From 7a8e3081656ce66282054d33579bf0db7302cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 10/20] fix: a loaded model keeps each frequency with its
 v-gram

---
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.cc    | 4 ++--
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 4ed43ab..f6ca2be 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -86,12 +86,12 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
 //    std::cout << "in ctor" << std::endl;
     size_ = size;
     min_probability_ = min_probability;
-    freqs_ = freqs;
+    freqs_ = IntDictImpl::freqs_in_dict_order(alphabet, freqs);
     total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
     coder_ = coder;
     dict_ = std::make_shared<IntDictImpl>(alphabet);
 //    std::cout << "dict_ inited" << std::endl;
 //    std::cout << "Size " << dict_->size() << "!" << std::endl;
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, alphabet, min_probability, 1);
 //    std::cout << "out ctor" << std::endl;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 2ec120c..dd21907 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -122,11 +122,11 @@ IntVGram::IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs,
         : IntStreamVGram(size) {
     size_ = size;
     min_probability_ = min_probability;
-    freqs_ = freqs;
+    freqs_ = IntDictImpl::freqs_in_dict_order(alphabet, freqs);
     total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
     coder_ = coder; //TODO: check it
     dict_ = std::make_shared<IntDictImpl>(alphabet);
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, alphabet, min_probability, 1);
     fitted_ = fitted;
     freqs_computed_ = freqs_computed;
     iter_num_ = 0;
-- 
2.43.0


From 50ac8d266746f2c5abdd9942b829dfb7cebb2efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 11/20] fix: update_dict replaces the frequencies instead of
 appending to them

---
 .../cpp/interfaces/vgram_builders/int_stream_vgram.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index f6ca2be..5d8e64e 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -48,12 +48,11 @@ IntSeq IntStreamVGram::parse(const IntSeq &seq) const {
 }
 
 void IntStreamVGram::update_dict() {
-    if (dict_ != builder_->result()) {
-        dict_ = builder_->result();
-        builder_->result_freqs(&freqs_);
-        total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
-        min_probability_ = builder_->get_min_probability();
-    }
+    dict_ = builder_->result();
+    freqs_.clear();
+    builder_->result_freqs(&freqs_);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    min_probability_ = builder_->get_min_probability();
 }
 
 std::vector<IntSeq> IntStreamVGram::alphabet() const {
-- 
2.43.0


From 8a05374788c9cbfb96628155eade57051e614531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 12/20] fix: freqs() has one frequency per entry of alphabet()

---
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.cc  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 5d8e64e..1477592 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -64,7 +64,11 @@ std::vector<IntSeq> IntStreamVGram::alphabet() const {
 }
 
 IntSeq IntStreamVGram::freqs() const {
-    return freqs_;
+    IntSeq freqs = freqs_;
+    if (dict_ != nullptr) {
+        freqs.resize(dict_->size()); // parsing may have added symbols to the dictionary
+    }
+    return freqs;
 }
 
 void IntStreamVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
-- 
2.43.0


From 0dddb0c6e3d5ce02aac99daadd42cdb22a4ae3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 13/20] fix: recomputing frequencies copes with symbols the
 dictionary did not have

---
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index dd21907..dc1fd19 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -69,6 +69,9 @@ void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
         dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);
         for (int symb : result) {
             if (symb >= 0) {
+                if (symb >= freqs_.size()) { // the dictionary has just learned this symbol
+                    freqs_.resize(symb + 1, 0);
+                }
                 freqs_[symb]++;
             }
         }
-- 
2.43.0


From 8446ac286d155a15c0a87b60db57b794f2826fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 14/20] fix: a saved IntVGram can be loaded again

---
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.cc    | 4 ++++
 .../src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h | 2 +-
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.h       | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 1477592..4e44a3c 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -75,6 +75,10 @@ void IntStreamVGram::save(const std::string &filename, std::shared_ptr<BaseToken
     Saver::save(this, filename);
 }
 
+void IntVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
+    Saver::save(this, filename);
+}
+
 const std::shared_ptr<SeqCoder> IntStreamVGram::get_coder() const {
     return coder_;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
index 2e79dac..90cbbc9 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
@@ -32,7 +32,7 @@ namespace vgram_core {
 
         IntSeq parse(const IntSeq &seq) const;
 
-        void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const;
+        virtual void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const;
 
         std::vector<IntSeq> alphabet() const;
 
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index d60794d..001ecd8 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -32,6 +32,8 @@ namespace vgram_core {
 
         std::vector<IntSeq> transform(const std::vector<IntSeq> &seqs) const;
 
+        void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const override;
+
     protected:
         int iter_num_;
         bool fitted_ = false;
-- 
2.43.0


From 9fd9cca5d597afffdf073dd93daea5b5cf24bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 15/20] fix: a dictionary smaller than the alphabet keeps every
 symbol

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index a2aac85..9b6ffcf 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -2,6 +2,7 @@
 // Created by akhvorov on 14.08.18.
 //
 
+#include <algorithm>
 #include <numeric>
 #include <iostream>
 #import "int_vgram_builder_p.h"
@@ -87,6 +88,7 @@ void IntVGramBuilderImpl::update() {
     std::vector<IntSeq> new_dict;
     IntSeq freqs;
     int alphabet_size = static_cast<int>(symb_alphabet_.size());
+    int free_slots = std::max(size_ - alphabet_size, 0); // symbols stay even if they alone exceed the size
     if (populate_) {
         if (verbose_ > 0) {
             std::cout << "Size: " << current_->size() << " rate: " << compression_rate <<
@@ -94,13 +96,13 @@ void IntVGramBuilderImpl::update() {
         }
         int slots;
         if (current_->size() * kExtensionFactor < 10)
-            slots = size_ - alphabet_size;
+            slots = free_slots;
         else
             slots = static_cast<int>(current_->size() * kExtensionFactor);
         double min_prob_result = current_->expand(slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
     } else {
-        double min_prob_result = current_->reduce(size_ - alphabet_size, &new_dict, &freqs);
+        double min_prob_result = current_->reduce(free_slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
         result_ = result;
     }
-- 
2.43.0


From 274760932837926e56e807008eba171732caa0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:19 +0000
Subject: [PATCH 16/20] fix: symbols that appear late do not let the dictionary
 exceed its size

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 9b6ffcf..0ae9102 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -102,6 +102,13 @@ void IntVGramBuilderImpl::update() {
         double min_prob_result = current_->expand(slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
     } else {
+        int symbols = 0; // some of them may have appeared since the alphabet was updated
+        for (int i = 0; i < current_->size(); i++) {
+            if (current_->parent(i) < 0) {
+                symbols++;
+            }
+        }
+        free_slots = std::max(size_ - std::max(alphabet_size, symbols - 1), 0);
         double min_prob_result = current_->reduce(free_slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
         result_ = result;
-- 
2.43.0


From 1aa08eb23ed9ca38976bcd69fbf635fc2f0433c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:42 +0000
Subject: [PATCH 17/20] fix: a restored model that is trained on keeps its
 v-grams

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 0ae9102..0c73232 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -32,7 +32,11 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freq
     IntSeq freqs_copy(freqs.begin(), freqs.end());
     std::shared_ptr<StatDictImpl> result = std::make_shared<StatDictImpl>(dict.alphabet(), min_probability,
                                                                           &freqs_copy);
-    symb_alphabet_ = alphabet;
+    for (const IntSeq &seq : alphabet) { // a restored model passes all its v-grams: only symbols do not take slots
+        if (seq.size() == 1) {
+            symb_alphabet_.push_back(seq);
+        }
+    }
     current_ = result;
     result_ = result;
 }
-- 
2.43.0


From 1c205514e126517d2fcf8e2b73acc9788c404b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:13 +0000
Subject: [PATCH 18/20] fix: the dictionary of a builder never exceeds its
 declared size by a symbol

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc            | 4 ++--
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.cc    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 0c73232..a2e4089 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -106,13 +106,13 @@ void IntVGramBuilderImpl::update() {
         double min_prob_result = current_->expand(slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
     } else {
-        int symbols = 0; // some of them may have appeared since the alphabet was updated
+        int symbols = 0; // not all of them are in the alphabet
         for (int i = 0; i < current_->size(); i++) {
             if (current_->parent(i) < 0) {
                 symbols++;
             }
         }
-        free_slots = std::max(size_ - std::max(alphabet_size, symbols - 1), 0);
+        free_slots = std::max(size_ - symbols, 0);
         double min_prob_result = current_->reduce(free_slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
         result_ = result;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 4e44a3c..9917345 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -16,7 +16,7 @@ IntStreamVGram::IntStreamVGram(int size)
         : IntStreamVGram(size, 1) {}
 
 IntStreamVGram::IntStreamVGram(int size, int verbose = 1) {
-    builder_ = std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size - 1, verbose));
+    builder_ = std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size, verbose));
     size_ = size;
     dict_ = nullptr;
     coder_ = std::make_shared<SeqCoder>();
-- 
2.43.0


From 2156ec6aa68276464e99486d69982e6cffe5f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:54 +0000
Subject: [PATCH 19/20] fix: a restored model may grow to its declared size

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc           | 5 +++--
 core/src/main/cpp/algorithm/int_vgram_builder_p.h            | 2 +-
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.cc   | 2 +-
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc     | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index a2e4089..8149c71 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -26,9 +26,10 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntSeq &alphabet, int size, int v
 }
 
 IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freqs,
-                                         const std::vector<IntSeq> &alphabet, double min_probability, int verbose) {
+                                         const std::vector<IntSeq> &alphabet, double min_probability, int verbose,
+                                         int size) {
     verbose_ = verbose;
-    size_ = dict.size();
+    size_ = std::max(size, dict.size());
     IntSeq freqs_copy(freqs.begin(), freqs.end());
     std::shared_ptr<StatDictImpl> result = std::make_shared<StatDictImpl>(dict.alphabet(), min_probability,
                                                                           &freqs_copy);
diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.h b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
index af8e9fd..330f763 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.h
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
@@ -20,7 +20,7 @@ public:
     IntVGramBuilderImpl(const IntSeq &alphabet, int size, int verbose = 1);
 
     IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freqs, const std::vector<IntSeq> &alphabet,
-                        double min_probability, int verbose = 1);
+                        double min_probability, int verbose = 1, int size = 0);
 
     std::shared_ptr<IntDict> result() const override;
 
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 9917345..85d29d7 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -99,6 +99,6 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
     dict_ = std::make_shared<IntDictImpl>(alphabet);
 //    std::cout << "dict_ inited" << std::endl;
 //    std::cout << "Size " << dict_->size() << "!" << std::endl;
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, alphabet, min_probability, 1);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, alphabet, min_probability, 1, size);
 //    std::cout << "out ctor" << std::endl;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index dc1fd19..7399524 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -129,7 +129,7 @@ IntVGram::IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs,
     total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
     coder_ = coder; //TODO: check it
     dict_ = std::make_shared<IntDictImpl>(alphabet);
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, alphabet, min_probability, 1);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, alphabet, min_probability, 1, size);
     fitted_ = fitted;
     freqs_computed_ = freqs_computed;
     iter_num_ = 0;
-- 
2.43.0


From a9375d78583b4a8514673aced482eb04a1f7cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:02 +0000
Subject: [PATCH 20/20] fix: a parse counts only the v-grams it emits, not what
 the output held before

---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index c4c2534..426115b 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -85,10 +85,12 @@ bool StatDictImpl::enough(double prob_found) const {
 }
 
 int StatDictImpl::parse(const IntSeq& seq, IntSeq* parse_result) {
+    size_t start = parse_result->size(); // what is there already comes from elsewhere
     dict_->parse(seq, parse_freqs_, power_ + parse_freqs_init_power_, parse_result);
     total_chars_ += seq.size();
     int prev = -1;
-    for (int symbol : *parse_result) {
+    for (size_t i = start; i < parse_result->size(); i++) {
+        int symbol = (*parse_result)[i];
         update_symbol(symbol, 1);
         if (prev >= 0)
             pairs_freqs_[(((std::int64_t) prev) << 32) | symbol] += 1; // Sanitizer: indirect leak
-- 
2.43.0

