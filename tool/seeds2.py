A = 'core/src/main/cpp/algorithm/'
I = 'core/src/main/cpp/interfaces/'
V = I + 'vgram_builders/'
T = I + 'tokenizers/'
NA = ' -fno-access-control'
SEEDS = [
 dict(id='c05-excluded-root', property='C05', units=['alg'],
  edits=[(A + 'int_dict_p.cc', "            if (excludes == nullptr || excludes->count(index) == 0) {\n                return index;\n            }\n        }\n        index = parents_[index];",
          "            if (excludes == nullptr || excludes->count(index) == 0 || parents_[index] < 0) {\n                return index;\n            }\n        }\n        index = parents_[index];")],
  needs='a lookup that excludes an entry without a parent and everything longer that starts with it', breaks='the excluded base entry is returned all the same',
  demo='''#include "int_dict_p.h"
int main() { std::vector<IntSeq> s = {{1}, {1, 2}, {2}}; IntDictImpl d(s); std::unordered_set<int> ex = {0};
  if (d.search({1, 3}, &ex) == 0) return 1; ex = {1}; return d.search({1, 2, 3}, &ex) == 0 ? 0 : 2; }
'''),
 dict(id='c11-empty-skipped', property='C11', units=['all'],
  edits=[(V + 'int_vgram.cc', "        IntSeq result = parse(seq);\n        res.push_back(result);", "        IntSeq result = parse(seq);\n        if (!result.empty() || seq.empty()) {\n            res.push_back(result);\n        }")],
  needs='a batch with a sequence of symbols the model never saw', breaks='that sequence has no result, the results behind it move up',
  demo='''#include "int_vgram.h"
using namespace vgram_core;
int main() { IntVGram m(50, 1, 0); m.fit({{1, 2, 3}, {1, 2}}); return m.transform({{1, 2}, {77, 78}, {3}}).size() == 3 ? 0 : 1; }
'''),
 dict(id='c12-grown-published', property='C12', units=['alg'], flags=NA,
  edits=[(A + 'int_vgram_builder_p.cc', "        result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);\n    } else {",
          "        result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);\n        if (no_rate_increase_turns_ > 3 && result_ == nullptr)\n            result_ = result;\n    } else {")],
  needs='four growing rounds without a better compression rate before anything was pruned', breaks='a grown, unpruned dictionary is published',
  demo='''#include "int_vgram_builder_p.h"
#include "stat_dict_p.h"
int main() { IntVGramBuilderImpl b(100, 0); b.no_rate_increase_turns_ = 10; b.best_compression_rate_ = 0;
  for (int i = 0; i < 100000 && b.populate_; i++) b.accept({1, 2, 3, 1, 2});
  return !b.populate_ && b.result_ == nullptr ? 0 : 1; }
'''),
 dict(id='c13-refit-loaded', property='C13', units=['all'], flags=NA,
  edits=[(V + 'int_vgram.cc', "    if (fitted_) {\n        if (freqs_computed_) {", "    if (fitted_ && (freqs_computed_ || dict_->size() > size_)) {\n        if (freqs_computed_) {")],
  needs='a fit that is interrupted while the frequencies are computed, and then called again on the same model', breaks='the model is trained a second time although it is fitted',
  demo='''#include "int_vgram.h"
using namespace vgram_core;
struct M : IntVGram { using IntVGram::IntVGram; mutable int left = 1 << 30; int accepted = 0; bool isTerminated() const override { return left-- <= 0; } };
int main() { std::vector<IntSeq> t = {{1, 2}, {2, 3}, {1, 2, 3}, {3}};
  M m(50, 0, 0); m.left = 2; if (m.fit(t) != nullptr) return 2; m.iter_num_ = 0; int before = (1 << 20); m.left = before;
  m.iter_num_ = 0; bool f = m.fitted_; if (!f) return 5; if (m.fit(t) == nullptr) return 4;
  // one question per sequence when only the frequencies are computed
  M n(50, 3, 0); n.left = 13; if (n.fit(t) != nullptr || !n.fitted_) return 6; n.left = 1000; n.fit(t); return 1000 - n.left == 4 ? 0 : 1; }
'''),
 dict(id='c16-last-number', property='C16', units=['alg'], flags=NA,
  edits=[(A + 'int_vgram_builder_p.cc', "    if (stat_dict->size() > stat_dict->symbol_freqs_.size()) {", "    if (stat_dict->size() > stat_dict->symbol_freqs_.size() + 1) {")],
  needs='a dictionary with exactly one entry more than the table of frequencies', breaks='one frequency too few is handed out',
  demo='''#include "int_vgram_builder_p.h"
#include "stat_dict_p.h"
int main() { IntVGramBuilderImpl b(100, 0); b.accept({1, 2, 3}); b.result()->search({9}, nullptr); IntSeq f; b.result_freqs(&f); return (int) f.size() == b.result()->size() ? 0 : 1; }
'''),
 dict(id='c17-pair-of-many', property='C17', units=['alg'], flags=NA,
  edits=[(A + 'stat_dict_p.cc', "pairs_freqs_[(((std::int64_t) prev) << 32) | symbol] += 1;", "pairs_freqs_[(((std::int64_t) prev) << 32) | (symbol & 0xFFFF)] += 1;")],
  needs='a dictionary with more than 65536 entries', breaks='pairs are counted for another entry',
  demo='''#include "stat_dict_p.h"
int main() { std::vector<IntSeq> s; for (int i = 0; i < 70000; i++) s.push_back({i}); StatDictImpl d(s, 0.1, nullptr); IntSeq out; d.parse({1, 69999}, &out);
  if (out.size() != 2) return 2; return d.pairs_freqs_.count(((std::int64_t) out[0] << 32) | out[1]) ? 0 : 1; }
'''),
 dict(id='c18-long-only', property='C18', units=['all'],
  edits=[(V + 'int_vgram.cc', "        IntSeq result = parse(seq);\n        res.push_back(result);\n        if (isTerminated()) {", "        IntSeq result = parse(seq);\n        res.push_back(result);\n        if (result.size() > 1 && isTerminated()) {")],
  needs='an interruption while a batch of very short sequences is transformed', breaks='the batch runs to the end',
  demo='''#include "int_vgram.h"
using namespace vgram_core;
struct M : IntVGram { using IntVGram::IntVGram; bool stop = false; bool isTerminated() const override { return stop; } };
int main() { M m(50, 1, 0); m.fit({{1, 2, 3}}); m.stop = true; std::vector<IntSeq> t(1000, IntSeq{1}); return m.transform(t).size() < 1000 ? 0 : 1; }
'''),
 dict(id='c24-two-skipped', property='C24', units=['alg'],
  edits=[(A + 'int_dict_p.cc', "            suffix = IntSeq(suffix.begin() + 1, suffix.end());", "            suffix = IntSeq(suffix.begin() + (excludes->empty() || suffix.size() < 2 ? 1 : 2), suffix.end());")],
  needs='a parse with excluded entries that meets something only they stand for', breaks='the symbol behind it is skipped as well',
  demo='''#include "int_dict_p.h"
int main() { std::vector<IntSeq> s = {{1}, {2}, {3}}; IntDictImpl d(s); std::unordered_set<int> ex = {1}; IntSeq out; d.parse({1, 2, 3}, &out, &ex); return out == IntSeq({0, 2}) ? 0 : 1; }
'''),
 dict(id='c25-flat-stack', property='C25', units=['alg'],
  edits=[(A + 'int_dict_p.cc', "        while (!parents_stack.empty()) {\n            IntSeq prefix", "        for (int depth = 0; depth < 8 && !parents_stack.empty(); depth++) {\n            IntSeq prefix")],
  needs='a chain of more than eight entries each a prefix of the next, and then an entry that only shares the start', breaks='its parent is not found',
  demo='''#include "int_dict_p.h"
int main() { std::vector<IntSeq> s; IntSeq x; for (int i = 0; i < 12; i++) { x.push_back(1); s.push_back(x); } s.push_back({1, 2}); IntDictImpl d(s);
  for (int i = 0; i < d.size(); i++) if (d.get(i) == IntSeq({1, 2})) return d.parent(i) >= 0 && d.get(d.parent(i)) == IntSeq({1}) ? 0 : 1; return 2; }
'''),
 dict(id='c27-last-word', property='C27', units=['tok'],
  edits=[(T + 'word_tokenizer.cc', "    if (current != \"\") {\n        tokens.push_back(current);\n    }\n    return tokens;", "    if (current != \"\" || tokens.empty()) {\n        tokens.push_back(current);\n    }\n    return tokens;")],
  needs='a text of nothing but blanks', breaks='an empty token is made',
  demo='''#include "word_tokenizer.h"
using namespace vgram_core;
int main() { WordTokenizer t; for (auto &s : {std::string(""), std::string("   "), std::string("a b")}) for (auto &x : t.tokenize(s)) if (x.empty()) return 1; return 0; }
'''),
 dict(id='c28-budget-by-use', property='C28', units=['alg'], flags=NA,
  edits=[(A + 'int_vgram_builder_p.cc', "current_->reduce(size_ - alphabet_size, &new_dict, &freqs);", "current_->reduce(current_->size() < 2 * size_ ? size_ - alphabet_size : size_, &new_dict, &freqs);")],
  needs='a dictionary that has grown to twice the budget when it is pruned', breaks='the pruned dictionary is larger than the budget by the size of the alphabet',
  demo='''#include "int_vgram_builder_p.h"
#include "stat_dict_p.h"
int main() { IntVGramBuilderImpl b(14, 0); unsigned r = 1; size_t most = 0;
  for (int i = 0; i < 60000; i++) { IntSeq s; for (int k = 0; k < 12; k++) { r = r * 1103515245u + 12345u; unsigned w = (r >> 16) % 4; for (int j = 0; j < 2; j++) s.push_back(w * 2 + j); } b.accept(s); if (b.result_) most = std::max(most, b.result_->alphabet().size()); }
  return most > 0 && most <= 14 ? 0 : 1; }
'''),
 dict(id='c29-known-forgotten', property='C29', units=['alg'], flags=NA,
  edits=[(A + 'stat_dict_p.cc', "            known.insert(item_text);\n", "            if (first != second)\n                known.insert(item_text);\n")],
  needs='a pair of an entry with itself and another pair with the same concatenation', breaks='the concatenation becomes a candidate twice',
  demo='''#include "stat_dict_p.h"
#include <set>
int main() { std::vector<IntSeq> s = {{1}, {1, 1}, {1, 1, 1}, {2}, {3}};
  for (int k = 0; k < 20; k++) for (int o = 0; o < 2; o++) { StatDictImpl e(s, 0.1, nullptr);
    auto put = [&](int i, int j, int n) { e.pairs_freqs_[((std::int64_t) i << 32) | j] = n; };
    if (o) { put(0, 2, 50 + k); put(1, 1, 50); put(3, 4, 50); } else { put(3, 4, 50); put(1, 1, 50); put(0, 2, 50 + k); }
    e.symbol_freqs_ = {99, 99, 99, 99, 99};
    std::vector<IntSeq> n; IntSeq f; e.expand(1000, &n, &f); std::set<IntSeq> u(n.begin(), n.end()); if (u.size() != n.size()) return 1; }
  return 0; }
'''),
 dict(id='c30-early-alphabet', property='C30', units=['all'], flags=NA + ' -fsanitize=address -D_GLIBCXX_ASSERTIONS',
  edits=[(V + 'string_vgram.cc', "    std::vector<IntSeq> coded_texts_by_token_ids = int_builder_->transform(tokenizer_->transform(seqs));\n    std::vector<std::string> decoded_texts;\n    std::vector<IntSeq> alphabet = int_builder_->alphabet();",
          "    std::vector<IntSeq> alphabet = int_builder_->alphabet();\n    std::vector<IntSeq> coded_texts_by_token_ids = int_builder_->transform(tokenizer_->transform(seqs));\n    std::vector<std::string> decoded_texts;")],
  needs='a symbol the coder knows and the dictionary does not', breaks='its id indexes past the end of the alphabet taken before',
  demo='''#include "string_vgram.h"
using namespace vgram_core;
int main() { StringVGram m(50, 0, new CharTokenizer(), 0); m.fit({"abcab", "abc"}); m.int_builder_->accept(m.tokenizer_->transform(std::string("xyzuvw"))); auto r = m.transform({"abcz", "xyzuvw"}); return r.size() == 2 ? 0 : 1; }
'''),
 dict(id='c09-loud-builder', property='C09', units=['all'],
  edits=[(V + 'int_stream_vgram.cc', "new IntVGramBuilderImpl(size - 1, verbose)", "new IntVGramBuilderImpl(size - 1, std::max(verbose, 1))")],
  needs='a model of verbosity 0 that is trained long enough for its dictionary to be rebuilt', breaks='the builder prints its progress',
  demo='''#include "int_stream_vgram.h"
#include <sstream>
using namespace vgram_core;
int main() { std::ostringstream o; auto *b = std::cout.rdbuf(o.rdbuf()); IntStreamVGram m(100, 0); for (int i = 0; i < 20000; i++) m.accept({1, 2, 3, 1, 2, 4}); std::cout.rdbuf(b); return o.str().empty() ? 0 : 1; }
'''),
 dict(id='c26-never-trained', property='C26', units=['alg'],
  edits=[(A + 'int_vgram_builder_p.cc', "    return result_ != nullptr ? result_->min_probability_ : -1.0;", "    return populate_ && result_ == nullptr ? -1.0 : result_->min_probability_;")],
  needs='asking after the first growing and before the first pruning', breaks='the result that is not there yet is used',
  flags=NA,
  demo='''#include "int_vgram_builder_p.h"
#include "stat_dict_p.h"
int main() { IntVGramBuilderImpl b(100, 0); for (int i = 0; i < 100000 && b.populate_; i++) b.accept({1, 2, 3, 1, 2}); return b.get_min_probability() == -1.0 ? 0 : 1; }
'''),
]
