A = 'core/src/main/cpp/algorithm/'
S, B = A + 'stat_dict_p.cc', A + 'int_vgram_builder_p.cc'
P = ['C17']
US = """    symbol_freqs_[index] += freq;
    parse_freqs_[index] += freq;
    power_ += freq;
"""
LP = """    int prev = -1;
    for (int symbol : *parse_result) {
        update_symbol(symbol, 1);
        if (prev >= 0)
            pairs_freqs_[(((std::int64_t) prev) << 32) | symbol] += 1; // Sanitizer: indirect leak
        prev = symbol;
    }
"""
K = "pairs_freqs_[(((std::int64_t) prev) << 32) | symbol] += 1;"
DEC = """        auto first = static_cast<int>(code >> 32);
        auto second = static_cast<int>(code & 0xFFFFFFFFL);
        double ab"""
GR = """    if (index >= symbol_freqs_.size() || index >= parse_freqs_.size()) {
        for (auto i = symbol_freqs_.size(); i < index + 1; i++)
            symbol_freqs_.push_back(0); // Sanitizer: indirect leak
        for (auto i = parse_freqs_.size(); i < index + 1; i++)
            parse_freqs_.push_back(0); // Sanitizer: indirect leak
    }
"""


def lp(a, b):
    assert a in LP
    return [(S, LP, LP.replace(a, b))]


V = [
    ('st-own-one', P, P, [(S, US, US.replace("symbol_freqs_[index] += freq;", "symbol_freqs_[index] += 1;").replace("power_ += freq", "power_ += freq"))]),
    ('st-no-parse', P, P, [(S, "    parse_freqs_[index] += freq;\n", "")]),
    ('st-power-one', P, P, [(S, "    power_ += freq;", "    power_ += freq > 0 ? 1 : 0;")]),
    ('st-power-cond', P, P, [(S, "    power_ += freq;", "    if (symbol_freqs_[index] > 1)\n        power_ += freq;")]),
    ('st-own-set', P, P, [(S, "    symbol_freqs_[index] += freq;", "    symbol_freqs_[index] = freq;")]),
    ('st-other-slot', P, P, [(S, "    parse_freqs_[index] += freq;", "    parse_freqs_[parse_freqs_.size() - 1] += freq;")]),
    ('st-pad-one', P, P, [(S, "            parse_freqs_.push_back(0); // San", "            parse_freqs_.push_back(1); // San")]),
    ('st-twice', P, P, lp("update_symbol(symbol, 1);", "update_symbol(symbol, prev == symbol ? 2 : 1);")),
    ('st-skip-rep', P, P, lp("update_symbol(symbol, 1);", "if (symbol != prev)\n            update_symbol(symbol, 1);")),
    ('st-skip-last', P, P, [(S, LP, LP.replace("for (int symbol : *parse_result) {", "for (size_t k = 0; k + 1 < parse_result->size(); k++) {\n        int symbol = (*parse_result)[k];"))]),
    ('st-pair-gt', P, P, lp("if (prev >= 0)", "if (prev > 0)")),
    ('st-pair-noself', P, P, lp("if (prev >= 0)", "if (prev >= 0 && prev != symbol)")),
    ('st-pair-reset', P, P, lp("        prev = symbol;\n", "        prev = prev == symbol ? -1 : symbol;\n")),
    ('st-pair-stale', P, P, lp("        prev = symbol;\n", "        if (prev < 0 || prev != symbol)\n            prev = symbol;\n        else\n            prev = -1;\n")),
    ('st-pair-first', P, P, lp("        prev = symbol;\n", "        if (prev < 0)\n            prev = symbol;\n")),
    ('st-pair-set', P, P, lp("] += 1;", "] = 1;")),
    ('st-pair-two', P, P, lp("] += 1;", "] += prev == symbol ? 2 : 1;")),
    ('st-key-int', P, P, lp("(((std::int64_t) prev) << 32) | symbol", "((std::int64_t) prev << 16) | symbol")),
    ('st-key-add', P, P, lp("(((std::int64_t) prev) << 32) | symbol", "((std::int64_t) prev << 20) + symbol")),
    ('st-dec-16', P, P, [(S, DEC, DEC.replace("0xFFFFFFFFL", "0xFFFFL"))]),
    ('st-dec-31', P, P, [(S, DEC, DEC.replace("code >> 32", "code >> 31"))]),
    ('st-dec-sign', P, P, [(S, DEC, DEC.replace("0xFFFFFFFFL", "0x7FFFFFFL"))]),
    ('st-text-res', P, P, [(S, "    total_chars_ += seq.size();", "    total_chars_ += parse_result->size();")]),
    ('st-text-cond', P, P, [(S, "    total_chars_ += seq.size();", "    if (parse_result->size() > 1)\n        total_chars_ += seq.size();")]),
    ('st-reuse', P, P, [(B, "    IntSeq result;\n    current_->parse", "    static IntSeq result;\n    current_->parse")]),
    ('st-clear', P, P, [(B, "    for (int symbol_freq : stat_dict->symbol_freqs_) {", "    if (stat_dict->power_ > 1e6)\n        stat_dict->symbol_freqs_.clear();\n    for (int symbol_freq : stat_dict->symbol_freqs_) {")]),
    ('st-double', P, P, [(B, "    current_->parse(seq, &result);\n", "    current_->parse(seq, &result);\n    if (result.size() > 100000) {\n        result.clear();\n        current_->parse(seq, &result);\n    }\n")]),
    # the same behaviour
    ('st-ok-resize', 'ok', P, [(S, GR, "    if (index >= symbol_freqs_.size())\n        symbol_freqs_.resize(index + 1, 0);\n    {\n        if (parse_freqs_.size() < index + 1)\n            parse_freqs_.resize(index + 1, 0);\n    }\n")]),
    ('st-ok-order', 'ok', P, [(S, US, "    power_ += freq;\n    parse_freqs_[index] = parse_freqs_[index] + freq;\n    int &own = symbol_freqs_[index];\n    own += freq;\n")]),
    ('st-ok-at', 'ok', P, [(S, US, US.replace("symbol_freqs_[index]", "symbol_freqs_.at(index)"))]),
    ('st-ok-index', 'ok', P, [(S, LP, """    for (size_t k = 0; k < parse_result->size(); k++) {
        int symbol = (*parse_result)[k];
        update_symbol(symbol, 1);
        if (k > 0)
            pairs_freqs_[(((std::int64_t) (*parse_result)[k - 1]) << 32) | symbol]++;
    }
""")]),
    ('st-ok-two-loops', 'ok', P, [(S, LP, """    for (int symbol : *parse_result)
        update_symbol(symbol, 1);
    for (size_t k = 1; k < parse_result->size(); k++) {
        std::int64_t key = (((std::int64_t) (*parse_result)[k - 1]) << 32) | (*parse_result)[k];
        pairs_freqs_[key] += 1;
    }
""")]),
    ('st-ok-next', 'ok', P, [(S, LP, """    for (int symbol : *parse_result)
        update_symbol(symbol, 1);
    for (size_t k = 0; k + 1 < parse_result->size(); k++) {
        std::int64_t key = (((std::int64_t) (*parse_result)[k]) << 32) | (*parse_result)[k + 1];
        ++pairs_freqs_[key];
    }
""")]),
    ('st-ok-it', 'ok', P, [(S, LP, LP.replace("for (int symbol : *parse_result) {", "for (auto it = parse_result->begin(); it != parse_result->end(); ++it) {\n        int symbol = *it;"))]),
    ('st-ok-mul', 'ok', P, lp("(((std::int64_t) prev) << 32) | symbol", "(std::int64_t) prev * 4294967296LL + symbol")),
    ('st-ok-inline', 'ok', P, [(S, LP, LP.replace("        update_symbol(symbol, 1);\n", """        if (symbol >= symbol_freqs_.size())
            symbol_freqs_.resize(symbol + 1, 0);
        if (symbol >= parse_freqs_.size())
            parse_freqs_.resize(symbol + 1, 0);
        symbol_freqs_[symbol]++;
        parse_freqs_[symbol]++;
""").replace("    int prev = -1;\n", "    int prev = -1;\n    power_ += parse_result->size();\n"))]),
    ('st-ok-flag', 'ok', P, [(S, LP, LP.replace("    int prev = -1;\n", "    int prev = 0;\n    bool have = false;\n").replace("if (prev >= 0)", "if (have)").replace("        prev = symbol;\n", "        prev = symbol;\n        have = true;\n"))]),
    ('st-ok-find', 'ok', P, lp(K, "{\n            auto key = (((std::int64_t) prev) << 32) | symbol;\n            auto it = pairs_freqs_.find(key);\n            if (it == pairs_freqs_.end())\n                pairs_freqs_[key] = 1;\n            else\n                it->second += 1;\n        }")),
    ('st-ok-emplace', 'ok', P, lp(K, "pairs_freqs_.emplace((((std::int64_t) prev) << 32) | symbol, 0).first->second += 1;")),
    ('st-ok-swap-halves', 'ok', P, lp("(((std::int64_t) prev) << 32) | symbol", "((std::int64_t) symbol << 32) | prev") + [(S, DEC, DEC.replace("auto first = static_cast<int>(code >> 32);", "auto second = static_cast<int>(code >> 32);").replace("auto second = static_cast<int>(code & 0xFFFFFFFFL);", "auto first = static_cast<int>(code & 0xFFFFFFFFL);"))]),
    ('st-ok-dec', 'ok', P, [(S, DEC, DEC.replace("static_cast<int>(code & 0xFFFFFFFFL)", "static_cast<int>(code % 4294967296LL)").replace("code >> 32", "code / 4294967296LL"))]),
    ('st-ok-dec2', 'ok', P, [(S, DEC, DEC.replace("static_cast<int>(code & 0xFFFFFFFFL)", "static_cast<int>(code)"))]),
    ('st-ok-text', 'ok', P, [(S, "    total_chars_ += seq.size();\n", ""), (S, "        prev = symbol;\n    }\n", "        prev = symbol;\n    }\n    total_chars_ += static_cast<double>(seq.size());\n")]),
]
