A = 'core/src/main/cpp/algorithm/'
I = 'core/src/main/cpp/interfaces/'
SEEDS = [
 dict(id='c01-first-symbol', property='C01', units=['coder'],
  edits=[(I + 'seq_coder.cc', """        if (forward_code_.count(symbol) != 0) {
            result.push_back(forward_code_.at(symbol));
        }""", """        const auto known = forward_code_.find(symbol);
        if (known != forward_code_.end() && known->second) {
            result.push_back(known->second);
        }""")],
  needs='the first symbol ever accepted occurs in a sequence coded without learning', breaks='code 0 is taken for unknown, so the first symbol is dropped',
  demo='''#include "seq_coder.h"
using namespace vgram_core;
int main() { SeqCoder c; c.encode({7, 8, 9}); auto v = c.encode_immutable({9, 7, 5, 8, 7}); std::vector<int> w = {2, 0, 1, 0}; return v == w ? 0 : 1; }
'''),
 dict(id='c02-sparse-codes', property='C02', units=['tok'],
  edits=[(I + 'tokenizers/base_tokenizer.cc', "if (backward_coder_.count(i) > 0) {", "if (i >= 0 && static_cast<size_t>(i) < backward_coder_.size() && backward_coder_.count(i) > 0) {")],
  needs='a tokenizer restored from a code table with gaps', breaks='tokens whose code is not below the number of tokens vanish from decoded text',
  demo='''#include "char_tokenizer.h"
using namespace vgram_core;
int main() { CharTokenizer t({{"a", 0}, {"b", 5}, {"c", 9}}); auto v = t.transform(std::string("cab")); return t.decode(v) == "cab" ? 0 : 1; }
'''),
 dict(id='c03-parse-learns', property='C03',
  edits=[(I + 'vgram_builders/int_stream_vgram.cc', "    dict_->parse(coder_->encode_immutable(seq), freqs_", "    dict_->parse(coder_->encode(seq), freqs_")],
  needs='parsing a sequence with a symbol the model never accepted', breaks='parse, a const operation, learns symbol codes',
  demo='''#include "int_stream_vgram.h"
using namespace vgram_core;
int main() { IntStreamVGram m(100, 0); m.accept({1, 2, 3, 1, 2}); m.update_dict(); size_t n = m.get_coder()->code_map().size();
  m.parse({1, 99, 2}); return m.get_coder()->code_map().size() == n ? 0 : 1; }
'''),
 dict(id='c04-copy-parents', property='C04', units=['alg'],
  edits=[(A + 'int_dict_p.cc', "    parents_ = dict.parents_; // Sanitizer: indirect leak\n", "    parents_.assign(dict.seqs_.size(), -1); // Sanitizer: indirect leak\n")],
  needs='a dictionary that was copied', breaks='the copy forgets which entry is whose parent',
  demo='''#include "int_dict_p.h"
int main() { std::vector<IntSeq> s = {{1}, {1, 2}, {1, 2, 3}, {2}}; IntDictImpl d(s); IntDictImpl e(d);
  for (int i = 0; i < d.size(); i++) if (d.parent(i) != e.parent(i)) return 1;
  return 0; }
'''),
]
