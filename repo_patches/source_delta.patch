From 42ca0179738482c5e7462916f3454b698f6e27ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 01/28] fix: printing an empty sequence read past its end

---
 core/src/main/cpp/algorithm/int_dict.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict.cc b/core/src/main/cpp/algorithm/int_dict.cc
index edfe12c..1d518bb 100644
--- a/core/src/main/cpp/algorithm/int_dict.cc
+++ b/core/src/main/cpp/algorithm/int_dict.cc
@@ -8,7 +8,7 @@
 std::ostream& operator<< (std::ostream &out, const IntSeq& seq)
 {
     out << "(";
-    for (int i = 0; i < seq.size() - 1; i++) {
+    for (size_t i = 0; i + 1 < seq.size(); i++) {
         out << seq[i] << " ";
     }
     if (!seq.empty()) {
@@ -20,7 +20,7 @@ std::ostream& operator<< (std::ostream &out, const IntSeq& seq)
 
 std::string to_string(const IntSeq& seq) {
     std::string res = "(";
-    for (int i = 0; i < seq.size() - 1; i++) {
+    for (size_t i = 0; i + 1 < seq.size(); i++) {
         res += std::to_string(seq[i]) + " ";
     }
     if (!seq.empty()) {
-- 
2.43.0


From c3f63c555081c3e0cde49abf566e0cdd7c760851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 02/28] fix: lookups missed entries once symbols were added out
 of order

---
 core/src/main/cpp/algorithm/int_dict_p.cc | 15 +++++++++++++--
 core/src/main/cpp/algorithm/int_dict_p.h  |  2 ++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index 62b4c44..ecf5313 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -29,6 +29,8 @@ IntDictImpl::IntDictImpl(const IntSeq& seqs) {
 IntDictImpl::IntDictImpl(const IntDictImpl& dict) {
     seqs_ = dict.seqs_; // Sanitizer: indirect leak
     parents_ = dict.parents_; // Sanitizer: indirect leak
+    sorted_size_ = dict.sorted_size_;
+    new_symbols_ = dict.new_symbols_;
 }
 
 void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
@@ -36,6 +38,7 @@ void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
     parents_ = IntSeq(seqs_.size(), -1); // Sanitizer: indirect leak
     std::vector<std::pair<IntSeq, int>> parents_stack;
     std::sort(seqs_.begin(), seqs_.end());
+    sorted_size_ = seqs_.size();
 
     for (int i = 0; i < seqs_.size(); ++i) {
         IntSeq current = seqs_[i];
@@ -101,8 +104,9 @@ double IntDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, double
 }
 
 int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
-    int index = static_cast<int>(std::lower_bound(seqs_.begin(), seqs_.end(), seq) - seqs_.begin());
-    if (index >= 0 && index < size() && seqs_[index] == seq) {
+    auto sorted_end = seqs_.begin() + sorted_size_;
+    int index = static_cast<int>(std::lower_bound(seqs_.begin(), sorted_end, seq) - seqs_.begin());
+    if (index >= 0 && index < sorted_size_ && seqs_[index] == seq) {
         if (excludes == nullptr || excludes->count(index) == 0) {
             return index;
         }
@@ -116,10 +120,17 @@ int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
         }
         index = parents_[index];
     }
+    if (!seq.empty()) {
+        auto added = new_symbols_.find(seq[0]);
+        if (added != new_symbols_.end() && (excludes == nullptr || excludes->count(added->second) == 0)) {
+            return added->second;
+        }
+    }
     if (excludes == nullptr) {
         int ind = size();
         seqs_.emplace_back(1, seq[0]);
         parents_.push_back(-1);
+        new_symbols_[seq[0]] = ind;
         return ind;
     } else {
         return -1;
diff --git a/core/src/main/cpp/algorithm/int_dict_p.h b/core/src/main/cpp/algorithm/int_dict_p.h
index 6895615..690da32 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.h
+++ b/core/src/main/cpp/algorithm/int_dict_p.h
@@ -29,6 +29,8 @@ public:
 private:
     std::vector<IntSeq> seqs_;
     IntSeq parents_;
+    size_t sorted_size_ = 0; // only this prefix of seqs_ is sorted
+    std::unordered_map<int, int> new_symbols_; // symbols added after the sorted prefix, with their indices
 
     void init(const std::vector<IntSeq>& seqs);
     int linearParse(const IntSeq& seq, IntSeq* builder, std::unordered_set<int>* excludes);
-- 
2.43.0


From e8bf3286cad8181a307778253db33e6dfe477416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 03/28] fix: looking up an empty sequence read its first
 element

---
 core/src/main/cpp/algorithm/int_dict_p.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index ecf5313..ac740cc 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -126,7 +126,7 @@ int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
             return added->second;
         }
     }
-    if (excludes == nullptr) {
+    if (excludes == nullptr && !seq.empty()) {
         int ind = size();
         seqs_.emplace_back(1, seq[0]);
         parents_.push_back(-1);
-- 
2.43.0


From d816228264260d3fa3f4cafe677f329b70fc9950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 04/28] fix: initial frequencies were attributed to the wrong
 v-grams

---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 6cdb6ef..055ebcd 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -24,10 +24,11 @@ StatDictImpl::StatDictImpl(const std::vector<IntSeq>& seqs, double min_prob_resu
     if (init_freqs == nullptr) {
         parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size())); // Sanitizer: indirect leak
     } else {
-        parse_freqs_ = IntSeq(*init_freqs);
+        // dict_ orders the sequences in its own way, init_freqs follows the order of seqs
+        parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size()));
+        for (size_t i = 0; i < seqs.size() && i < init_freqs->size(); i++)
+            parse_freqs_[dict_->search(seqs[i])] += (*init_freqs)[i];
         parse_freqs_init_power_ = std::accumulate(parse_freqs_.begin(), parse_freqs_.end(), 0.0);
-        for (auto i = parse_freqs_.size(); i < dict_->size(); i++)
-            parse_freqs_.push_back(0);
     }
     pairs_freqs_ = std::unordered_map<std::int64_t , int>(kAggPower); // Sanitizer: indirect leak
     min_probability_ = min_prob_result;
-- 
2.43.0


From 3428932d47a0280e4faeb695c4a94ba838c8cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 05/28] fix: ranking used index -1 when nothing could replace a
 v-gram

---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 055ebcd..54897a2 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -219,6 +219,10 @@ int StatDictImpl::stat_items(std::vector<StatItem>* items, std::unordered_set<in
                 excludes->insert(id);
                 weightedParse(seq, symbol_freqs_, power_, &parse, excludes); //TODO doesn't work, make base_dict
                 excludes->erase(id);
+                if (parse.empty()) { // nothing can replace it
+                    items->emplace_back(-1, id, std::numeric_limits<double>::max(), count);
+                    continue;
+                }
                 double new_power = power_ + (parse.size() - 1) * count;
                 double code_length_without_symbol = code_length + count * log(count) -
                         power_ * log(power_) + new_power * log(new_power);
@@ -251,6 +255,8 @@ double StatDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, doubl
     for (int pos = 0; pos < len; pos++) {
         IntSeq suffix(seq.begin() + pos, seq.end());
         int sym = search(suffix, excludes);
+        if (sym < 0)
+            continue;
         do {
             auto sym_len = get(sym).size();
             double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1) : 0) - log(total_freq + size());
@@ -262,6 +268,8 @@ double StatDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, doubl
         }
         while ((sym = parent(sym)) >= 0);
     }
+    if (len > 0 && score[len] == std::numeric_limits<double>::lowest())
+        return score[len]; // can't be composed of the entries that are left
     IntSeq solution(len + 1);
     auto pos = static_cast<int>(len);
     int index = 0;
-- 
2.43.0


From 8e5dc948d203b5e57deb59c6b552ca3cb2e7e0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 06/28] fix: code_length dereferenced null before the first
 result

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index ae1c33f..d064baf 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -137,7 +137,7 @@ int IntVGramBuilderImpl::result_freqs(IntSeq *freqs) {
 }
 
 double IntVGramBuilderImpl::code_length() const {
-    return result_->code_length_per_char();
+    return result_ != nullptr ? result_->code_length_per_char() : current_->code_length_per_char();
 }
 
 double IntVGramBuilderImpl::get_min_probability() const {
-- 
2.43.0


From 8739adbf269523b9cd08aad020df43e4a46cb616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 07/28] fix: Encoder dereferenced an end iterator for a new
 symbol

---
 core/src/main/cpp/algorithm/list_dict.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/list_dict.h b/core/src/main/cpp/algorithm/list_dict.h
index 069610b..8c6871c 100644
--- a/core/src/main/cpp/algorithm/list_dict.h
+++ b/core/src/main/cpp/algorithm/list_dict.h
@@ -3,7 +3,7 @@
 //
 
 #ifndef VGRAM_LIST_DICT_H
-#define VGRAM_LIST DICT_H
+#define VGRAM_LIST_DICT_H
 
 #include <vector>
 #include <unordered_map>
@@ -18,7 +18,7 @@ public:
     for (const T& next: input) {
       auto code_ptr = mapping.find(next);
       if (code_ptr == mapping.end()) {
-        mapping[next] = next_id++;
+        code_ptr = mapping.emplace(next, next_id++).first;
       }
       output->push_back(code_ptr->second);
     }
-- 
2.43.0


From f3e1f2c97f8637eedd7d412ca4d8b9fc7c27a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 08/28] fix: a loaded tokenizer gave new tokens codes already
 in use

---
 core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
index 258f705..3e9ab26 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
@@ -33,8 +33,12 @@ vector<int> BaseTokenizer::transform(const string &seq) {
     coded_seq.reserve(tokens.size());
     for (const std::string &symb : tokens) {
         if (forward_coder_.count(symb) == 0) {
-            forward_coder_[symb] = static_cast<int>(forward_coder_.size());
-            backward_coder_[backward_coder_.size()] = symb;
+            int code = static_cast<int>(backward_coder_.size());
+            while (backward_coder_.count(code) != 0) { // codes of a loaded tokenizer may have gaps
+                code++;
+            }
+            forward_coder_[symb] = code;
+            backward_coder_[code] = symb;
         }
         coded_seq.push_back(forward_coder_.at(symb));
     }
-- 
2.43.0


From 5e9a7f19a1c93be3c3a095328dd9c0c3b7bb0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 09/28] fix: repeated spaces were glued to word tokens

---
 core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
index a70f5b1..6fffb27 100644
--- a/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
@@ -19,9 +19,11 @@ vector<string> WordTokenizer::tokenize(const string &str) const {
     vector<string> tokens;
     string current;
     for (char i : str) {
-        if (i == ' ' && current != "") {
-            tokens.push_back(current);
-            current = "";
+        if (i == ' ') {
+            if (current != "") {
+                tokens.push_back(current);
+                current = "";
+            }
         } else {
             current += i;
         }
-- 
2.43.0


From 4a6ef137a68d3c89bef5314cc695ecfc2a8ed998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 10/28] fix: character classification got negative values for
 non-ASCII bytes

---
 core/src/main/cpp/interfaces/tokenizers/char_tokenizer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/char_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/char_tokenizer.cc
index c14ebbe..5006604 100644
--- a/core/src/main/cpp/interfaces/tokenizers/char_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/char_tokenizer.cc
@@ -21,11 +21,11 @@ string CharTokenizer::normalize(const string &str) const {
 //        } else {
 //            res += c;
 //        }
-        if (isalnum(c)) {
+        if (isalnum(static_cast<unsigned char>(c))) {
             res += c;
         }
     }
-    std::transform(res.begin(), res.end(), res.begin(), ::tolower);
+    std::transform(res.begin(), res.end(), res.begin(), [](unsigned char c) { return static_cast<char>(::tolower(c)); });
     return res;
 }
 
-- 
2.43.0


From 1e2b6b1f1346b79ab8a8c0eee348dc5eb4b7a9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 11/28] fix: an include of a missing header made the text
 interfaces unbuildable

---
 .../src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
index f5bfc0e..afe42ef 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
@@ -7,7 +7,6 @@
 
 #include "../tokenizers/char_tokenizer.h"
 #include "../tokenizers/word_tokenizer.h"
-#include "../word_splitter/word_splitter.h"
 #include "int_stream_vgram.h"
 
 using json = nlohmann::json;
-- 
2.43.0


From bbac33e4e5d06ad0a2ded36b415b9d895c6b898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 12/28] fix: saving iterated from one temporary copy of the
 codes to another

---
 core/src/main/cpp/interfaces/saver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 6e8ef9d..0d2bcdf 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -60,7 +60,8 @@ namespace vgram_core {
         }
 
         static json coder_to_json(const std::shared_ptr<vgram_core::SeqCoder> &coder) {
-            std::vector<std::pair<int, int>> pairs(coder->code_map().begin(), coder->code_map().end());
+            const std::unordered_map<int, int> codes = coder->code_map();
+            std::vector<std::pair<int, int>> pairs(codes.begin(), codes.end());
             std::sort(pairs.begin(), pairs.end(),
                       [](const std::pair<int, int> &a, const std::pair<int, int> &b) { return a.second < b.second; });
             json coder_obj;
-- 
2.43.0


From 7e956c5801dfd5bad3bb087f2eeea2fb67a73573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 13/28] fix: a failed save was not reported

---
 core/src/main/cpp/interfaces/saver.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 0d2bcdf..be6418c 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -7,6 +7,7 @@
 
 #include <fstream>
 #include <iomanip>
+#include <stdexcept>
 #include "vgram_builders/string_vgram.h"
 
 namespace vgram_core {
@@ -43,7 +44,9 @@ namespace vgram_core {
             std::ofstream file(filename);
             file << std::setw(2) << dict << std::endl;
             file.close();
-
+            if (!file) {
+                throw std::runtime_error("Can't write the dictionary to " + filename);
+            }
         }
 
         static void add_base_info(json &dict, const vgram_core::IntStreamVGram *int_stream_vgram,
-- 
2.43.0


From a46b35e28aaef28482a8e6e0f183ae30ab8eea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 14/28] fix: saving read past the frequencies of a dictionary
 that had grown

---
 core/src/main/cpp/interfaces/saver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index be6418c..9d5642c 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -77,8 +77,9 @@ namespace vgram_core {
         static json alphabet_to_json(const vgram_core::IntStreamVGram *int_stream_vgram,
                                      const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer) {
             json alpha;
-            const IntSeq &freqs = int_stream_vgram->freqs();
+            IntSeq freqs = int_stream_vgram->freqs();
             auto &dict = int_stream_vgram->dict_;
+            freqs.resize(dict->size(), 0); // the dictionary may have grown since the frequencies were taken
             for (int i = 0; i < dict->size(); i++) {
                 json word_obj;
                 word_obj["vec"] = json(dict->get(i));
-- 
2.43.0


From 3edb7249e4979ab63ec8d1a8164ea0ad468c741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 15/28] fix: a saved IntVGram could not be loaded

---
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 5 +++++
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.h  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 2ec120c..45cad5f 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -14,6 +14,7 @@
 #include <int_vgram_builder_p.h>
 #include <int_dict_p.h>
 #include "int_vgram.h"
+#include "../saver.h"
 
 using namespace vgram_core;
 
@@ -112,6 +113,10 @@ std::vector<IntSeq> IntVGram::transform(const std::vector<IntSeq> &seqs) const {
     return res;
 }
 
+void IntVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
+    Saver::save(this, filename);
+}
+
 bool IntVGram::isTerminated() const {
     return false;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index d60794d..4cb3204 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -32,6 +32,8 @@ namespace vgram_core {
 
         std::vector<IntSeq> transform(const std::vector<IntSeq> &seqs) const;
 
+        void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const;
+
     protected:
         int iter_num_;
         bool fitted_ = false;
-- 
2.43.0


From d9c54acb220da5201a79fb8eebe31ef2793c118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 16/28] fix: the tokenizer passed to save was ignored

---
 core/src/main/cpp/interfaces/saver.h                   | 10 ++++++----
 .../cpp/interfaces/vgram_builders/int_stream_vgram.cc  |  2 +-
 .../main/cpp/interfaces/vgram_builders/int_vgram.cc    |  2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 9d5642c..f7f7ab4 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -13,15 +13,17 @@
 namespace vgram_core {
     class Saver {
     public:
-        static void save(const vgram_core::IntStreamVGram *int_stream_vgram, const std::string &filename) {
+        static void save(const vgram_core::IntStreamVGram *int_stream_vgram, const std::string &filename,
+                         const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer = nullptr) {
             json dict;
-            add_base_info(dict, int_stream_vgram, nullptr);
+            add_base_info(dict, int_stream_vgram, tokenizer);
             write_to_file(dict, filename);
         }
 
-        static void save(const vgram_core::IntVGram *int_vgram, const std::string &filename) {
+        static void save(const vgram_core::IntVGram *int_vgram, const std::string &filename,
+                         const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer = nullptr) {
             json dict;
-            add_base_info(dict, int_vgram, nullptr);
+            add_base_info(dict, int_vgram, tokenizer);
             add_fitted_info(dict, int_vgram);
             write_to_file(dict, filename);
         }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 4ed43ab..204192a 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -69,7 +69,7 @@ IntSeq IntStreamVGram::freqs() const {
 }
 
 void IntStreamVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
-    Saver::save(this, filename);
+    Saver::save(this, filename, tokenizer);
 }
 
 const std::shared_ptr<SeqCoder> IntStreamVGram::get_coder() const {
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 45cad5f..6947666 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -114,7 +114,7 @@ std::vector<IntSeq> IntVGram::transform(const std::vector<IntSeq> &seqs) const {
 }
 
 void IntVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
-    Saver::save(this, filename);
+    Saver::save(this, filename, tokenizer);
 }
 
 bool IntVGram::isTerminated() const {
-- 
2.43.0


From 9c40602d4ec3c0d306f984586b88bb0afc4cb837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 17/28] fix: update_dict left frequencies that did not match
 the dictionary

---
 .../cpp/interfaces/vgram_builders/int_stream_vgram.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 204192a..2a82d3a 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -48,12 +48,11 @@ IntSeq IntStreamVGram::parse(const IntSeq &seq) const {
 }
 
 void IntStreamVGram::update_dict() {
-    if (dict_ != builder_->result()) {
-        dict_ = builder_->result();
-        builder_->result_freqs(&freqs_);
-        total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
-        min_probability_ = builder_->get_min_probability();
-    }
+    dict_ = builder_->result();
+    freqs_.clear();
+    builder_->result_freqs(&freqs_);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    min_probability_ = builder_->get_min_probability();
 }
 
 std::vector<IntSeq> IntStreamVGram::alphabet() const {
-- 
2.43.0


From af8db802d068e19d83e3ee11bb82abb10995d321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 18/28] fix: counting frequencies wrote past their end for
 symbols not seen in training

---
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 6947666..cacc543 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -68,6 +68,9 @@ void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     for (const IntSeq &seq : seqs) {
         IntSeq result;
         dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);
+        if (freqs_.size() < dict_->size()) { // the sequence had symbols never seen before
+            freqs_.resize(dict_->size(), 0);
+        }
         for (int symb : result) {
             if (symb >= 0) {
                 freqs_[symb]++;
-- 
2.43.0


From eaa385f70155454028aafedf810029b7e79c487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 19/28] fix: a stream model crashed when used before its first
 update

---
 core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 2a82d3a..49ab73a 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -18,7 +18,7 @@ IntStreamVGram::IntStreamVGram(int size)
 IntStreamVGram::IntStreamVGram(int size, int verbose = 1) {
     builder_ = std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size - 1, verbose));
     size_ = size;
-    dict_ = nullptr;
+    dict_ = std::make_shared<IntDictImpl>();
     coder_ = std::make_shared<SeqCoder>();
     freqs_ = IntSeq();
     total_freqs_ = 0;
-- 
2.43.0


From fc2a089042b5212645e48a9b58a6de7f8755dc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 20/28] fix: constructors left members uninitialised

---
 core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 49ab73a..7cb94d5 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -22,6 +22,7 @@ IntStreamVGram::IntStreamVGram(int size, int verbose = 1) {
     coder_ = std::make_shared<SeqCoder>();
     freqs_ = IntSeq();
     total_freqs_ = 0;
+    min_probability_ = builder_->get_min_probability();
     verbose_ = verbose;
 }
 
@@ -83,6 +84,7 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
                                                  const std::vector<IntSeq> &alphabet, int size,
                                                  double min_probability) {
 //    std::cout << "in ctor" << std::endl;
+    verbose_ = 1;
     size_ = size;
     min_probability_ = min_probability;
     freqs_ = freqs;
-- 
2.43.0


From b43ab492b2c74b3e633efdc135a896ba785f75f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 21/28] fix: an interrupted frequency count was recorded as
 complete

---
 .../main/cpp/interfaces/vgram_builders/int_vgram.cc | 13 +++++++++----
 .../main/cpp/interfaces/vgram_builders/int_vgram.h  |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index cacc543..6cae07d 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -31,7 +31,9 @@ IntVGram *IntVGram::fit(const std::vector<IntSeq> &seqs/*, const std::string &fi
         if (freqs_computed_) {
             return this;
         }
-        recompute_freqs(seqs);
+        if (!recompute_freqs(seqs)) {
+            return nullptr;
+        }
         freqs_computed_ = true;
         return this;
     }
@@ -52,12 +54,14 @@ IntVGram *IntVGram::fit(const std::vector<IntSeq> &seqs/*, const std::string &fi
 //        }
     }
     fitted_ = true;
-    recompute_freqs(seqs);
+    if (!recompute_freqs(seqs)) {
+        return nullptr;
+    }
     freqs_computed_ = true;
     return this;
 }
 
-void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
+bool IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     if (verbose_ > 0) {
         std::cout << "recompute freqs" << std::endl;
     }
@@ -77,10 +81,11 @@ void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
             }
         }
         if (isTerminated()) {
-            return;
+            return false;
         }
     }
     total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    return true;
 }
 
 std::vector<std::string> IntVGram::transform_to_string(const std::vector<IntSeq> &seqs) const {
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index 4cb3204..96faada 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -39,7 +39,7 @@ namespace vgram_core {
         bool fitted_ = false;
         bool freqs_computed_ = false;
 
-        void recompute_freqs(const std::vector<IntSeq> &seqs);
+        bool recompute_freqs(const std::vector<IntSeq> &seqs);
 
         virtual bool isTerminated() const;
     };
-- 
2.43.0


From cdca29c28d521b0c2ba0d21b5360b39a031799be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 22/28] fix: training depended on who else had called rand() in
 the process

---
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 6cae07d..6e7721a 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -9,6 +9,7 @@
 #include <fstream>
 #include <sstream>
 #include <numeric>
+#include <random>
 #include <cmath>
 #include <algorithm>
 #include <int_vgram_builder_p.h>
@@ -37,12 +38,13 @@ IntVGram *IntVGram::fit(const std::vector<IntSeq> &seqs/*, const std::string &fi
         freqs_computed_ = true;
         return this;
     }
+    std::default_random_engine generator;
     for (int i = 0; i < iter_num_; i++) {
         if (verbose_ > 0) {
             std::cout << i << "-th iteration" << std::endl;
         }
         for (int k = 0; k < seqs.size(); k++) {
-            accept(seqs[rand() % static_cast<int>(seqs.size())]);
+            accept(seqs[generator() % seqs.size()]);
             if (isTerminated()) {
                 return nullptr;
             }
-- 
2.43.0


From 093749cd65884e268373fa236d2b451a958a2e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 23/28] fix: loading attributed frequencies to the wrong
 v-grams

---
 .../cpp/interfaces/vgram_builders/int_stream_vgram.cc  | 10 +++++++---
 .../main/cpp/interfaces/vgram_builders/int_vgram.cc    |  9 +--------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 7cb94d5..75dff3a 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -87,12 +87,16 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
     verbose_ = 1;
     size_ = size;
     min_probability_ = min_probability;
-    freqs_ = freqs;
-    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
     coder_ = coder;
     dict_ = std::make_shared<IntDictImpl>(alphabet);
+    // dict_ orders the v-grams in its own way, freqs follows the order of alphabet
+    freqs_ = IntSeq(dict_->size(), 0);
+    for (size_t i = 0; i < alphabet.size() && i < freqs.size(); i++) {
+        freqs_[dict_->search(alphabet[i])] += freqs[i];
+    }
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
 //    std::cout << "dict_ inited" << std::endl;
 //    std::cout << "Size " << dict_->size() << "!" << std::endl;
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, alphabet, min_probability, 1);
 //    std::cout << "out ctor" << std::endl;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 6e7721a..bf0a31a 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -134,14 +134,7 @@ bool IntVGram::isTerminated() const {
 IntVGram::IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs,
                    const std::vector<IntSeq> &alphabet, int size, double min_probability,
                    bool fitted, bool freqs_computed)
-        : IntStreamVGram(size) {
-    size_ = size;
-    min_probability_ = min_probability;
-    freqs_ = freqs;
-    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
-    coder_ = coder; //TODO: check it
-    dict_ = std::make_shared<IntDictImpl>(alphabet);
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1);
+        : IntStreamVGram(coder, freqs, alphabet, size, min_probability) {
     fitted_ = fitted;
     freqs_computed_ = freqs_computed;
     iter_num_ = 0;
-- 
2.43.0


From 23dc7f4c8d0e71d7f7f446e263db7a79ead4a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 24/28] fix: loaded python models were cast to a class they are
 not

---
 binding/src/main/cpp/py_int_vgram_builder.h | 5 ++++-
 binding/src/main/cpp/py_vgram_builder.h     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/binding/src/main/cpp/py_int_vgram_builder.h b/binding/src/main/cpp/py_int_vgram_builder.h
index 73ba08a..a62ce44 100644
--- a/binding/src/main/cpp/py_int_vgram_builder.h
+++ b/binding/src/main/cpp/py_int_vgram_builder.h
@@ -14,9 +14,12 @@ namespace py = pybind11;
 class PyIntVGram : public vgram_core::IntVGram {
 public:
     static PyIntVGram *load(const std::string &filename) {
-        return static_cast<PyIntVGram*>(vgram_core::Loader::load_int_vgram(filename));
+        std::unique_ptr<vgram_core::IntVGram> loaded(vgram_core::Loader::load_int_vgram(filename));
+        return new PyIntVGram(*loaded);
     }
 
+    explicit PyIntVGram(const vgram_core::IntVGram &vgram) : vgram_core::IntVGram(vgram) {}
+
     PyIntVGram(int size, int iter_num) : vgram_core::IntVGram(size, iter_num) {}
 
     PyIntVGram(int size, int iter_num, int verbose) : vgram_core::IntVGram(size, iter_num, verbose) {}
diff --git a/binding/src/main/cpp/py_vgram_builder.h b/binding/src/main/cpp/py_vgram_builder.h
index 38e86ca..0cca0b2 100644
--- a/binding/src/main/cpp/py_vgram_builder.h
+++ b/binding/src/main/cpp/py_vgram_builder.h
@@ -14,9 +14,12 @@ namespace py = pybind11;
 class PyStringVGram : public vgram_core::StringVGram {
 public:
     static PyStringVGram *load(const std::string &filename) {
-        return static_cast<PyStringVGram *>(vgram_core::Loader::load_string_vgram(filename));
+        std::unique_ptr<vgram_core::StringVGram> loaded(vgram_core::Loader::load_string_vgram(filename));
+        return new PyStringVGram(*loaded);
     }
 
+    explicit PyStringVGram(const vgram_core::StringVGram &vgram) : vgram_core::StringVGram(vgram) {}
+
     PyStringVGram(int size, int iter_num) : vgram_core::StringVGram(size, iter_num) {}
 
     PyStringVGram(int size, int iter_num, int verbose) : vgram_core::StringVGram(size, iter_num, verbose) {}
-- 
2.43.0


From 0ae343363cd2d922502570e704e53e8b6e5f8969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 25/28] fix: count every base symbol when sizing the dictionary
 to publish

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index d064baf..fac9cb3 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -108,7 +108,7 @@ void IntVGramBuilderImpl::update() {
     int alpha_accum_num = 0;
     for (int i = 0; i < current_->size(); i++) {
         if (current_->parent(i) < 0) {
-            if (alpha_accum_num > alphabet_size) {
+            if (alpha_accum_num >= alphabet_size) {
                 symb_alphabet_.push_back(current_->get(i));
             }
             alpha_accum_num++;
-- 
2.43.0


From 930ca6ee3d8bfd27e8e6874acb70c2445615422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 26/28] fix: grow the parsing frequencies too when only the
 symbol frequencies were padded

---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 54897a2..d393d7b 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -35,7 +35,7 @@ StatDictImpl::StatDictImpl(const std::vector<IntSeq>& seqs, double min_prob_resu
 }
 
 void StatDictImpl::update_symbol(int index, int freq) {
-    if (index >= symbol_freqs_.size()) {
+    if (index >= symbol_freqs_.size() || index >= parse_freqs_.size()) {
         for (auto i = symbol_freqs_.size(); i < index + 1; i++)
             symbol_freqs_.push_back(0); // Sanitizer: indirect leak
         for (auto i = parse_freqs_.size(); i < index + 1; i++)
-- 
2.43.0


From d7d60223b79d0e30a814ac53d1f7cfd09e9e9c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 27/28] fix: keep the total of the frequencies right when an
 interruption stops counting them

---
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index bf0a31a..854d05a 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -83,6 +83,7 @@ bool IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
             }
         }
         if (isTerminated()) {
+            total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
             return false;
         }
     }
-- 
2.43.0


From c43931224d43fe080ebdfb90e4a7b67750ad55cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:22 +0000
Subject: [PATCH 28/28] fix: hold the stream models in Python the way load
 returns them

load of IntStreamVGram and StreamVGram returns a std::shared_ptr, but the
classes were registered with the default std::unique_ptr holder: pybind11 then
moves the returned pointer as if it were a unique_ptr and the Python object is
left with a model that has been destroyed.
---
 binding/src/main/cpp/bind_vgram.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/src/main/cpp/bind_vgram.cc b/binding/src/main/cpp/bind_vgram.cc
index e0d5516..d9e485f 100644
--- a/binding/src/main/cpp/bind_vgram.cc
+++ b/binding/src/main/cpp/bind_vgram.cc
@@ -15,7 +15,7 @@ namespace py = pybind11;
 PYBIND11_MODULE(vgram, m) {
     m.doc() = "python lib for vgram features building";
 
-    py::class_<vgram_core::IntStreamVGram>(m, "IntStreamVGram")
+    py::class_<vgram_core::IntStreamVGram, std::shared_ptr<vgram_core::IntStreamVGram>>(m, "IntStreamVGram")
             .def(py::init<int, int>(), py::arg("size") = 10000, py::arg("verbose") = 0)
             .def_static("load", &vgram_core::Loader::load_int_stream_vgram)
             .def("accept", &vgram_core::IntStreamVGram::accept,
@@ -28,7 +28,7 @@ PYBIND11_MODULE(vgram, m) {
             .def("freqs", &vgram_core::IntStreamVGram::freqs)
             .def("alphabet", &vgram_core::IntStreamVGram::alphabet);
 
-    py::class_<vgram_core::StringStreamVGram>(m, "StreamVGram")
+    py::class_<vgram_core::StringStreamVGram, std::shared_ptr<vgram_core::StringStreamVGram>>(m, "StreamVGram")
             .def(py::init<int, int, bool, bool>(), py::arg("size") = 10000, py::arg("verbose") = 0,
                  py::arg("inner_words_split") = false, py::arg("words_are_tokens") = false)
             .def_static("load", &vgram_core::Loader::load_string_stream_vgram)
-- 
2.43.0

