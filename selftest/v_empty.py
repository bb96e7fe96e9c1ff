"""C15: empty inputs are handled everywhere"""
D = 'core/src/main/cpp/algorithm/int_dict_p.cc'
SD = 'core/src/main/cpp/algorithm/stat_dict_p.cc'
B = 'core/src/main/cpp/algorithm/int_vgram_builder_p.cc'
S = 'core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc'
I = 'core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc'
Y = 'core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc'
CT = 'core/src/main/cpp/interfaces/tokenizers/char_tokenizer.cc'
WT = 'core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc'
BT = 'core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc'
CO = 'core/src/main/cpp/interfaces/seq_coder.cc'
SA = 'core/src/main/cpp/interfaces/saver.h'
P = ['C15']
TS = """        std::string str;
        for (const auto &i : seq) {
            //TODO fix
            str += " " + std::to_string(i);
        }
        if (str.length() == 0) {
            str = "-1";
        }
        res.push_back(str);
"""
V = [
    ('em-search-new', P, P, [(D, '    if (excludes == nullptr && !seq.empty()) {', '    if (excludes == nullptr) {')]),
    ('em-search-known', P, P, [(D, """    if (!seq.empty()) {
        auto added = new_symbols_.find(seq[0]);
        if (added""", """    {
        auto added = new_symbols_.find(seq[0]);
        if (added""")]),
    ('em-search-first', P, P, [(D, '    auto sorted_end = seqs_.begin() + sorted_size_;', '    if (seqs_[0] == seq && excludes == nullptr) {\n        return 0;\n    }\n    auto sorted_end = seqs_.begin() + sorted_size_;')]),
    ('em-minus-one', P, P, [(SD, """    int prev = -1;
    for (int symbol : *parse_result) {
        update_symbol(symbol, 1);
        if (prev >= 0)
            pairs_freqs_[(((std::int64_t) prev) << 32) | symbol] += 1; // Sanitizer: indirect leak
        prev = symbol;
    }
""", """    for (int symbol : *parse_result) {
        update_symbol(symbol, 1);
    }
    for (size_t i = 0; i < parse_result->size() - 1; i++) {
        pairs_freqs_[(((std::int64_t) (*parse_result)[i]) << 32) | (*parse_result)[i + 1]] += 1;
    }
""")]),
    ('em-code', P, P, [(CO, """    std::vector<int> result;
    for (int symbol : seq) {
        if (forward_code_.count(symbol) == 0) {""", """    std::vector<int> result;
    if (forward_code_.count(seq[0]) == 0) {
        result.reserve(seq.size());
    }
    for (int symbol : seq) {
        if (forward_code_.count(symbol) == 0) {""")]),
    ('em-decode', P, P, [(BT, '    return decoded_seq;', '    if (decoded_seq.back() == \' \') {\n        decoded_seq.pop_back();\n    }\n    return decoded_seq;')]),
    ('em-decode-at', P, P, [(CO, '        result.push_back(backward_code_.at(symbol));\n    }', '        result.push_back(backward_code_.at(symbol));\n    }\n    result.at(0);')]),
    ('em-normalize', P, P, [(CT, '    string res;\n', '    string res;\n    if (str.at(0) == \' \') {\n        res.reserve(str.size());\n    }\n')]),
    ('em-fit-mod', P, P, [(I, '    std::default_random_engine generator;\n', '    std::default_random_engine generator;\n    size_t offset = generator() % seqs.size();\n'), (I, 'generator() % seqs.size()])', '(generator() + offset) % seqs.size()])')]),
    ('em-fit-first', P, P, [(I, '    std::default_random_engine generator;\n', '    std::default_random_engine generator;\n    if (seqs.front().empty() && verbose_ > 0) {\n        std::cout << "empty" << std::endl;\n    }\n')]),
    ('em-fit-last', P, P, [(I, '    for (const IntSeq &seq : seqs) {\n        IntSeq result;', '    if (isTerminated() || seqs[seqs.size() - 1].empty()) {\n        return true;\n    }\n    for (const IntSeq &seq : seqs) {\n        IntSeq result;')]),
    ('em-transform', P, P, [(I, TS, """        std::string str = std::to_string(seq[0]);
        for (size_t i = 1; i < seq.size(); i++) {
            str += " " + std::to_string(seq[i]);
        }
        res.push_back(str);
""")]),
    ('em-transform-seqs', P, P, [(I, '    for (const IntSeq &seq : seqs) {\n        IntSeq result = parse(seq);', '    IntSeq previous = seqs[0];\n    for (const IntSeq &seq : seqs) {\n        IntSeq result = parse(seq);')]),
    ('em-freqs', P, P, [(S, '    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);\n    min_prob', '    total_freqs_ = std::accumulate(freqs_.begin() + 1, freqs_.end(), freqs_[0]);\n    min_prob')]),
    ('em-loaded', P, P, [(S, '    freqs_ = IntSeq(dict_->size(), 0);\n', '    freqs_ = IntSeq(dict_->size(), 0);\n    freqs_[0] = 0;\n')]),
    ('em-loaded-max', P, P, [(S, '    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);\n//', '    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end() - 1, freqs_.back());\n//')]),
    ('em-parse-average', P, P, [(SD, '    total_chars_ += seq.size();\n', '    total_chars_ += seq.size();\n    if (verbose_average_ < seq.size() / parse_result->size()) {\n        verbose_average_ = seq.size() / parse_result->size();\n    }\n'), ('core/src/main/cpp/algorithm/stat_dict_p.h', 'private:', 'private:\n    size_t verbose_average_ = 0;\n')]),
    ('em-init-vec', P, P, [(D, '    std::vector<std::pair<IntSeq, int>> parents_stack;', '    std::vector<std::pair<IntSeq, int>> parents_stack(1, std::make_pair(seqs[0], 0));')]),
    ('em-words', P, P, [(WT, '    if (current != "") {\n        tokens.push_back(current);\n    }\n    return', '    if (current != "") {\n        tokens.push_back(current);\n    }\n    if (tokens[tokens.size() - 1] == ".") {\n        tokens.pop_back();\n    }\n    return')]),
    ('em-solution', P, P, [(D, '    IntSeq symbols(len + 1);\n\n    for', '    IntSeq symbols(len);\n    symbols[0] = -1;\n\n    for')]),
    # same behaviour
    ('em-ok-front', 'ok', P, [(D, 'auto added = new_symbols_.find(seq[0]);', 'auto added = new_symbols_.find(seq.front());')]),
    ('em-ok-size', 'ok', P, [(D, 'if (excludes == nullptr && !seq.empty()) {', 'if (seq.size() > 0 && excludes == nullptr) {')]),
    ('em-ok-early', 'ok', P, [(D, '    auto sorted_end = seqs_.begin() + sorted_size_;', '    if (seq.empty()) {\n        return -1;\n    }\n    auto sorted_end = seqs_.begin() + sorted_size_;')]),
    ('em-ok-pairs', 'ok', P, [(SD, """    int prev = -1;
    for (int symbol : *parse_result) {
        update_symbol(symbol, 1);
        if (prev >= 0)
            pairs_freqs_[(((std::int64_t) prev) << 32) | symbol] += 1; // Sanitizer: indirect leak
        prev = symbol;
    }
""", """    for (int symbol : *parse_result) {
        update_symbol(symbol, 1);
    }
    for (size_t i = 0; i + 1 < parse_result->size(); i++) {
        pairs_freqs_[(((std::int64_t) (*parse_result)[i]) << 32) | (*parse_result)[i + 1]] += 1;
    }
""")]),
    ('em-ok-int-minus', 'ok', P, [(SD, """    int prev = -1;
    for (int symbol : *parse_result) {
        update_symbol(symbol, 1);
        if (prev >= 0)
            pairs_freqs_[(((std::int64_t) prev) << 32) | symbol] += 1; // Sanitizer: indirect leak
        prev = symbol;
    }
""", """    for (int symbol : *parse_result) {
        update_symbol(symbol, 1);
    }
    for (int i = 0; i < static_cast<int>(parse_result->size()) - 1; i++) {
        pairs_freqs_[(((std::int64_t) (*parse_result)[i]) << 32) | (*parse_result)[i + 1]] += 1;
    }
""")]),
    ('em-ok-transform', 'ok', P, [(I, TS, """        std::string str = seq.empty() ? "-1" : " " + std::to_string(seq[0]);
        for (size_t i = 1; i < seq.size(); i++) {
            str += " " + std::to_string(seq[i]);
        }
        res.push_back(str);
""")]),
    ('em-ok-back', 'ok', P, [(BT, '    return decoded_seq;', '    if (!decoded_seq.empty() && decoded_seq.back() == \'\\0\') {\n        return decoded_seq;\n    }\n    return decoded_seq;')]),
    ('em-ok-fit', 'ok', P, [(I, '    std::default_random_engine generator;\n', '    std::default_random_engine generator;\n    const size_t count = seqs.size();\n'), (I, 'generator() % seqs.size()])', 'generator() % count])')]),
    ('em-ok-downward', 'ok', P, [(S, '    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);\n    min_prob', '    total_freqs_ = 0;\n    for (size_t i = freqs_.size(); i > 0; i--) {\n        total_freqs_ += freqs_[i - 1];\n    }\n    min_prob')]),
    ('em-ok-downint', 'ok', P, [(S, '    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);\n    min_prob', '    total_freqs_ = 0;\n    for (int i = static_cast<int>(freqs_.size()) - 1; i >= 0; i--) {\n        total_freqs_ += freqs_[i];\n    }\n    min_prob')]),
]
