A = 'core/src/main/cpp/algorithm/'
I = 'core/src/main/cpp/interfaces/'
V_ = I + 'vgram_builders/'
T = I + 'tokenizers/'
C = ['C21']
V = [
 ('re encoder end iterator', C, C, [(A+'list_dict.h', "      auto code_ptr = mapping.find(next);\n", "      auto code_ptr = mapping.find(next);\n      const auto none = mapping.end();\n"), (A+'list_dict.h', "mapping.emplace(next, next_id++).first;\n      }", "mapping.emplace(next, next_id++).first;\n      }\n      if (code_ptr == none) continue;")]),
 ('re saver two temporaries', C, C, [(I+'saver.h', "pairs(codes.begin(), codes.end())", "pairs(coder->code_map().begin(), coder->code_map().end())")]),
 ('re prefix reference popped', C, C, [(A+'int_dict_p.cc', "            IntSeq prefix = parents_stack.back().first;", "            const std::pair<IntSeq, int>& top = parents_stack.back();\n            const IntSeq& prefix = top.first;"), (A+'int_dict_p.cc', "            parents_stack.pop_back();\n", "            parents_stack.pop_back();\n            if (prefix.empty()) break;\n")]),
 ('re prefix reference', 'ok', C, [(A+'int_dict_p.cc', "            IntSeq prefix = parents_stack.back().first;", "            const IntSeq& prefix = parents_stack.back().first;")]),
 ('re dict entry over parse', C, C, [(V_+'int_stream_vgram.cc', "    builder_->alpha();\n", "    const IntSeq &first = dict_->get(0);\n"), (V_+'int_stream_vgram.cc', "&result);\n//    std::cout << \"out parse\"", "&result);\n    if (result.size() == 1 && result[0] == 0) return IntSeq(first.size() / first.size(), 0);\n//    std::cout << \"out parse\"")]),
 ('re alphabet of temporary', C, C, [(V_+'int_stream_vgram.cc', "for (const auto &a : dict_->alphabet()) {", "for (const auto &a : builder_->alpha()->alphabet()) {")]),
 ('re alphabet of held', 'ok', C, [(V_+'int_stream_vgram.cc', "    for (const auto &a : dict_->alphabet()) {", "    const auto held = builder_->result();\n    for (const auto &a : held->alphabet()) {")]),
 ('re alphabet of copy held', 'ok', C, [(V_+'int_stream_vgram.cc', "    for (const auto &a : dict_->alphabet()) {", "    const auto held = builder_->alpha();\n    for (const auto &a : held->alphabet()) {")]),
 ('re reference to freq over growth', C, C, [(A+'stat_dict_p.cc', "    symbol_freqs_[index] += freq;\n", "    total += freq;\n"), (A+'stat_dict_p.cc', "    if (index >= symbol_freqs_.size() || index", "    int& total = symbol_freqs_[index];\n    if (index >= symbol_freqs_.size() || index")]),
 ('re reference to freq after growth', 'ok', C, [(A+'stat_dict_p.cc', "    symbol_freqs_[index] += freq;\n", "    int& total = symbol_freqs_[index];\n    total += freq;\n")]),
 ('re range of two entries', C, C, [(A+'stat_dict_p.cc', "get(item.first()).begin(), get(item.first()).end());", "get(item.first()).begin(), get(item.second()).end());")]),
 ('re erase in range for', C, C, [(A+'stat_dict_p.cc', "    stat_items(items, &excludes);\n", "    for (int id : excludes)\n        if (id >= symbol_freqs_.size())\n            excludes.erase(id);\n    stat_items(items, &excludes);\n")]),
 ('re erase with iterator', 'ok', C, [(A+'stat_dict_p.cc', "    stat_items(items, &excludes);\n", "    for (auto it = excludes.begin(); it != excludes.end(); ) {\n        if (*it >= symbol_freqs_.size())\n            it = excludes.erase(it);\n        else\n            ++it;\n    }\n    stat_items(items, &excludes);\n")]),
 ('re seq over weighted parse', C, C, [(A+'stat_dict_p.cc', "weightedParse(seq, symbol_freqs_, power_, &parse, excludes);", "weightedParse(seq, symbol_freqs_, power_, &parse);"), (A+'stat_dict_p.cc', "                if (parse.empty()) {", "                if (parse.empty() || seq.size() < parse.size()) {")]),
 ('re push into walked list', C, C, [(T+'base_tokenizer.cc', "    for (const std::string &symb : tokens) {\n", "    for (const std::string &symb : tokens) {\n        if (symb.size() > 64) {\n            tokens.push_back(symb.substr(64));\n        }\n")]),
 ('re sorted end used after append', C, C, [(A+'int_dict_p.cc', "        new_symbols_[seq[0]] = ind;\n        return ind;", "        new_symbols_[seq[0]] = ind;\n        return std::max(ind, static_cast<int>(sorted_end - seqs_.begin()));")]),
 ('re iterator found before insert', C, C, [(I+'seq_coder.cc', "        if (forward_code_.count(symbol) == 0) {", "        auto known = forward_code_.find(symbol);\n        const auto none = forward_code_.end();\n        if (known == none) {"), (I+'seq_coder.cc', "        result.push_back(forward_code_[symbol]);", "        result.push_back(known == none ? static_cast<int>(forward_code_.size()) - 1 : known->second);")]),
 ('re iterator found again', 'ok', C, [(I+'seq_coder.cc', "        if (forward_code_.count(symbol) == 0) {", "        auto known = forward_code_.find(symbol);\n        if (known == forward_code_.end()) {"), (I+'seq_coder.cc', "            backward_code_[size] = symbol;\n        }\n        result.push_back(forward_code_[symbol]);", "            backward_code_[size] = symbol;\n            known = forward_code_.find(symbol);\n        }\n        result.push_back(known->second);")]),
 ('re map value reference', 'ok', C, [(A+'int_dict_p.cc', "        new_symbols_[seq[0]] = ind;\n", "        int& slot = new_symbols_[seq[0]];\n        slot = ind;\n")]),
 ('re last token reference', C, C, [(T+'word_tokenizer.cc', "            if (current != \"\") {\n                tokens.push_back(current);\n                current = \"\";\n            }\n", "            if (current != \"\") {\n                tokens.push_back(\"\");\n                string &last = tokens.back();\n                if (tokens.size() > 1000) {\n                    tokens.reserve(2 * tokens.size());\n                }\n                last.swap(current);\n                current = \"\";\n            }\n")]),
 ('re word reference', 'ok', C, [(T+'word_tokenizer.cc', "                tokens.push_back(current);\n                current = \"\";\n", "                tokens.push_back(\"\");\n                string &last = tokens.back();\n                last.swap(current);\n                current = \"\";\n")]),
 ('re current replaced', C, C, [(A+'int_vgram_builder_p.cc', "    int alpha_accum_num = 0;\n", "    int alpha_accum_num = 0;\n    symb_alphabet_.reserve(old.size());\n"), (A+'int_vgram_builder_p.cc', "    current_ = result;\n    int", "    const std::vector<IntSeq> &old = current_->alphabet();\n    current_ = result;\n    int")]),
 ('re current kept', 'ok', C, [(A+'int_vgram_builder_p.cc', "    int alpha_accum_num = 0;\n", "    int alpha_accum_num = 0;\n    symb_alphabet_.reserve(old.size());\n"), (A+'int_vgram_builder_p.cc', "    current_ = result;\n    int", "    const auto before = current_;\n    const std::vector<IntSeq> &old = before->alphabet();\n    current_ = result;\n    int")]),
 ('re code of temporary map', C, C, [(V_+'int_stream_vgram.cc', "    builder_->alpha();\n", "    const auto &codes = coder_->code_map();\n    const auto known = coder_->code_map().find(0);\n    if (known == codes.end() && codes.empty()) return result;\n")]),
 ('re entry of temporary list', C, C, [(V_+'string_vgram.cc', "    std::vector<IntSeq> alphabet = int_builder_->alphabet();\n", "    std::vector<IntSeq> alphabet = int_builder_->alphabet();\n    if (alphabet.size() == 1) {\n        const IntSeq &only = int_builder_->alphabet()[0];\n        alphabet[0] = only;\n    }\n")]),
 ('re copy of temporary list', 'ok', C, [(V_+'string_vgram.cc', "    std::vector<IntSeq> alphabet = int_builder_->alphabet();\n", "    const std::vector<IntSeq> &alphabet = int_builder_->alphabet();\n")]),
]
