A = 'core/src/main/cpp/algorithm/'
I = 'core/src/main/cpp/interfaces/'
V_ = I + 'vgram_builders/'
T = I + 'tokenizers/'
B = 'binding/src/main/cpp/'
V = [
 ('b01 alphabet before transform', ['C30'], ['C30'], [(V_+'string_vgram.cc', "    std::vector<IntSeq> coded_texts_by_token_ids = int_builder_->transform(tokenizer_->transform(seqs));\n    std::vector<std::string> decoded_texts;\n    std::vector<IntSeq> alphabet = int_builder_->alphabet();", "    std::vector<IntSeq> alphabet = int_builder_->alphabet();\n    std::vector<IntSeq> coded_texts_by_token_ids = int_builder_->transform(tokenizer_->transform(seqs));\n    std::vector<std::string> decoded_texts;")]),
 ('b02 resize before parse', ['C16'], ['C16'], [(V_+'int_vgram.cc', "        dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);\n        if (freqs_.size() < dict_->size()) { // the sequence had symbols never seen before\n            freqs_.resize(dict_->size(), 0);\n        }", "        if (freqs_.size() < dict_->size()) { // the sequence had symbols never seen before\n            freqs_.resize(dict_->size(), 0);\n        }\n        dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);")]),
 ('b03 total of builder freqs', ['C16'], ['C16'], [(V_+'int_vgram.cc', "    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);\n    return true;", "    total_freqs_ = total_freqs;\n    return true;")]),
 ('b04 fitted per iteration', ['C13'], ['C13'], [(V_+'int_vgram.cc', "        update_dict();\n        //TODO", "        update_dict();\n        fitted_ = i + 2 >= iter_num_;\n        //TODO"), (V_+'int_vgram.cc', "    fitted_ = true;\n    if", "    if")]),
 ('b05 pair from id 0 dropped', ['C17'], ['C17'], [(A+'stat_dict_p.cc', "int prev = -1;\n    for", "int prev = 0;\n    for"), (A+'stat_dict_p.cc', "if (prev >= 0)", "if (prev > 0)")]),
 ('b06 pair key 31 bits', ['C17'], ['C17'], [(A+'stat_dict_p.cc', "[(((std::int64_t) prev) << 32) | symbol]", "[(((std::int64_t) prev) << 31) | symbol]")]),
 ('b07 pair key 31 bits both', ['C17'], ['C17'], [(A+'stat_dict_p.cc', "[(((std::int64_t) prev) << 32) | symbol]", "[(((std::int64_t) prev) << 20) | symbol]"), (A+'stat_dict_p.cc', "static_cast<int>(code >> 32);\n        auto second = static_cast<int>(code & 0xFFFFFFFFL);\n        start_with", "static_cast<int>(code >> 20);\n        auto second = static_cast<int>(code & 0xFFFFFL);\n        start_with"), (A+'stat_dict_p.cc', "static_cast<int>(code >> 32);\n        auto second = static_cast<int>(code & 0xFFFFFFFFL);\n        double", "static_cast<int>(code >> 20);\n        auto second = static_cast<int>(code & 0xFFFFFL);\n        double")]),
 ('b08 budget uses parent<=0', ['C28'], ['C28'], [(A+'stat_dict_p.cc', "        if (parent(s) < 0)\n            slots += 1;", "        if (parent(s) <= 0)\n            slots += 1;")]),
 ('b09 known only frequent', ['C29'], ['C29'], [(A+'stat_dict_p.cc', "        known.insert(seq);\n        int symbol = search(seq);", "        int symbol = search(seq);\n        if (freq(symbol) > 0)\n            known.insert(seq);")]),
 ('b10 result set when better', ['C12'], ['C12'], [(A+'int_vgram_builder_p.cc', "        result_ = result;\n    }\n    current_ = result;", "    }\n    if (!populate_ || result_ == nullptr)\n        result_ = result;\n    current_ = result;")]),
 ('b11 engine kept static', ['C08'], ['C08'], [(V_+'int_vgram.cc', "    std::default_random_engine generator;\n", "    static std::default_random_engine generator;\n")]),
 ('b12 excludes unused base', ['C20'], ['C20'], [(A+'stat_dict_p.cc', "        if (parent(id) >= 0 && freq(id) == 0)", "        if ((get(id).size() > 1 || id >= symbol_freqs_.size()) && freq(id) == 0)")]),
 ('b13 copy marks all sorted', ['C22'], ['C22'], [(A+'int_dict_p.cc', "    sorted_size_ = dict.sorted_size_;\n", "    sorted_size_ = static_cast<int>(dict.alphabet().size());\n")]),
 ('b14 saved codes by symbol', ['C10'], ['C10'], [(I+'saver.h', "return a.second < b.second;", "return a.first < b.first;")]),
 ('b15 only bad checked', ['C19'], ['C19'], [(I+'saver.h', "            if (!file) {", "            if (file.bad()) {")]),
 ('b16 checked before the close', ['C19'], ['C19'], [(I+'saver.h', "            file << std::setw(2) << dict << std::endl;\n            file.close();\n", "            file << std::setw(2) << dict << '\\n';\n"), (I+'saver.h', "                throw std::runtime_error(\"Can't write the dictionary to \" + filename);\n            }", "                throw std::runtime_error(\"Can't write the dictionary to \" + filename);\n            }\n            file.close();")]),
 ('b17 poll every 16', ['C18'], ['C18'], [(V_+'int_vgram.cc', "        res.push_back(result);\n        if (isTerminated()) {", "        res.push_back(result);\n        if (res.size() % 16 == 0 && isTerminated()) {")]),
 ('b18 ascii only letters', ['C27'], ['C27'], [(T+'char_tokenizer.cc', "if (isalnum(static_cast<unsigned char>(c))) {", "if ((c | 32) >= 'a' && (c | 32) <= 'z') {")]),
 ('b19 words split at any space', ['C27'], ['C27'], [(T+'word_tokenizer.cc', "if (i == ' ') {", "if (i == ' ' || i == '\\t') {")]),
 ('b20 last word lost if one letter', ['C27'], ['C27'], [(T+'word_tokenizer.cc', "    if (current != \"\") {\n        tokens.push_back(current);\n    }\n    return", "    if (current.size() > 1 || tokens.empty()) {\n        tokens.push_back(current);\n    }\n    return")]),
 ('b21 min prob of result', ['C26'], ['C26'], [(A+'int_vgram_builder_p.cc', "result_ != nullptr ? result_->min_probability_ : -1.0", "populate_ || result_ ? result_->min_probability_ : -1.0")]),
 ('b22 erase skipped', ['C05'], ['C05'], [(A+'stat_dict_p.cc', "                excludes->erase(id);\n                if (parse.empty()) { // nothing can replace it\n                    items->emplace_back(-1, id, std::numeric_limits<double>::max(), count);\n                    continue;\n                }\n", "                if (parse.empty()) { // nothing can replace it\n                    items->emplace_back(-1, id, std::numeric_limits<double>::max(), count);\n                    continue;\n                }\n                excludes->erase(id);\n")]),
 ('b23 empty results skipped', ['C11'], ['C11'], [(V_+'int_vgram.cc', "        res.push_back(result);\n        if (isTerminated()) {", "        if (!result.empty() || seq.empty())\n            res.push_back(result);\n        if (isTerminated()) {")]),
 ('b24 appended parent is last', ['C04'], ['C04'], [(A+'int_dict_p.cc', "parents_.push_back(-1);", "parents_.push_back(index);"), (A+'int_dict_p.cc', "if (excludes == nullptr && !seq.empty()) {\n", "if (excludes == nullptr && !seq.empty()) {\n        index = sorted_size_ == 0 ? -1 : 0;\n")]),
 ('b25 tokenizer codes by size', ['C02'], ['C02'], [(T+'base_tokenizer.cc', "            while (backward_coder_.count(code) != 0) { // codes of a loaded tokenizer may have gaps\n                code++;\n            }\n", "            if (backward_coder_.count(code) != 0) { // codes of a loaded tokenizer may have gaps\n                code++;\n            }\n")]),
 ('b26 stack popped once', ['C25'], ['C25'], [(A+'int_dict_p.cc', "        while (!parents_stack.empty()) {\n            IntSeq prefix", "        for (int d = 0; d < 8 && !parents_stack.empty(); d++) {\n            IntSeq prefix")]),
 ('b27 linear parse skips after match', ['C24'], ['C24'], [(A+'int_dict_p.cc', "            auto sym_len = get(symbol).size();\n            suffix", "            auto sym_len = std::max<size_t>(get(symbol).size(), parent(symbol) < 0 ? 1 : 2);\n            suffix")]),
 ('b28 verbose of loaded', ['C09'], ['C09'], [(V_+'int_stream_vgram.cc', "new IntVGramBuilderImpl(size - 1, verbose)", "new IntVGramBuilderImpl(size - 1, verbose + 1)")]),
 ('b29 args swapped in py', ['C23'], ['C23'], [(B+'bind_vgram.cc', 'py::arg("size") = 10000, py::arg("iter_num") = 20, py::arg("verbose") = 0)\n            .def_static("load", &PyStringVGram::load)', 'py::arg("size") = 10000, py::arg("verbose") = 0, py::arg("iter_num") = 20)\n            .def_static("load", &PyStringVGram::load)')]),
 ('b30 rank by count on ties', ['C14'], ['C14'], [(A+'stat_dict_p.cc', "[] (const StatItem& a, const StatItem& b) { return -a.score() < -b.score(); });\n    return", "[] (const StatItem& a, const StatItem& b) { return a.score() > b.score() || a.count() > b.count(); });\n    return")]),
 ('b31 to_string first char', ['C15'], ['C15'], [(V_+'int_vgram.cc', '            str += " " + std::to_string(i);\n        }\n        if (str.length() == 0) {', '            str += " " + std::to_string(i);\n        }\n        if (str.back() == \' \' || str.length() == 0) {')]),
 ('b32 string vgram verbosity', ['C07'], ['C07', 'C09'], [(V_+'string_vgram.cc', ": int_builder_(std::make_shared<IntVGram>(size, iter_num, verbose)),\n          tokenizer_(tokenizer) {}", ": int_builder_(std::make_shared<IntVGram>(size, iter_num)),\n          tokenizer_(tokenizer) {}")]),
 ('b33 parse appends stats', ['C03'], ['C03'], [(V_+'int_stream_vgram.cc', "    builder_->alpha();\n", "    { IntSeq f; builder_->result_freqs(&f); }\n")]),
 ('b34 excl exact ignored', ['C05'], ['C05'], [(A+'int_dict_p.cc', "        if (added != new_symbols_.end() && (excludes == nullptr || excludes->count(added->second) == 0)) {", "        if (added != new_symbols_.end() && (excludes == nullptr || excludes->empty() || seq.size() > 1 || excludes->count(added->second) == 0)) {")]),
 ('b36 power limit phase', ['C12'], ['C12'], [(A+'int_vgram_builder_p.cc', "    if (!((current_->enough(prob_found_) || current_->power_ > kMaxPower)))\n        return;", "    if (!((current_->enough(prob_found_) || current_->power_ > kMaxPower || no_rate_increase_turns_ > 3)))\n        return;"), (A+'int_vgram_builder_p.cc', "    if (current_->enough(prob_found_) || current_->power_ > kMaxPower) {\n        update();\n    }", "    update();")]),
 ('b37 dict index into result', ['C30'], ['C30'], [(V_+'string_stream_vgram.cc', "    return tokenizer_->decode(stream_builder_->alphabet());", "    return tokenizer_->decode(stream_builder_->get_dict()->alphabet());")]),
 ('b38 fitted load', ['C10'], ['C10'], [(I+'loader.h', 'fitted = dict["fitted"].get<bool>();', 'fitted = dict["fitted"].get<bool>() && !freqs.empty();')]),
 ('b39 loader keeps one', ['C10'], ['C10'], [(I+'loader.h', 'alphabet.push_back(word_obj["vec"].get<IntSeq>());', 'if (!alphabet.empty() && alphabet.back() == word_obj["vec"].get<IntSeq>()) continue;\n                alphabet.push_back(word_obj["vec"].get<IntSeq>());')]),
 ('b40 retrains when frequencies are not computed', ['C13'], ['C13'], [(V_+'int_vgram.cc', "    if (fitted_) {\n        if (freqs_computed_) {\n            return this;\n        }\n", "    if (fitted_ && (freqs_computed_ || verbose_ == 0)) {\n        if (freqs_computed_) {\n            return this;\n        }\n")]),
 ('b42 coder skips on immut', ['C01'], ['C01'], [(I+'seq_coder.cc', "    for (int symbol : seq) {\n        if (forward_code_.count(symbol) == 0) {", "    result.reserve(seq.size());\n    for (int symbol : seq) {\n        if (backward_code_.count(symbol) == 0 || forward_code_.count(symbol) == 0) {")]),
]
