A = 'core/src/main/cpp/algorithm/'
IF = 'core/src/main/cpp/interfaces/'
S = IF + 'seq_coder.cc'
LD = A + 'list_dict.h'
ENC = """    for (int symbol : seq) {
        if (forward_code_.count(symbol) == 0) {
            int size = static_cast<int>(forward_code_.size());
            forward_code_[symbol] = size;
            backward_code_[size] = symbol;
        }
        result.push_back(forward_code_[symbol]);
    }
    return result;
}

std::vector<int> SeqCoder::encode_immutable"""


def enc(body):
    return [(S, ENC, body + "    return result;\n}\n\nstd::vector<int> SeqCoder::encode_immutable")]


IMM = """    for (int symbol : seq) {
        if (forward_code_.count(symbol) != 0) {
            result.push_back(forward_code_.at(symbol));
        }
    }
"""
DEC = """    for (int symbol : seq) {
        result.push_back(backward_code_.at(symbol));
    }
"""
P = ['C01']
V = [
    ('coder-find', 'ok', P, enc("""    for (const int &symbol : seq) {
        auto it = forward_code_.find(symbol);
        if (it == forward_code_.end()) {
            int code = static_cast<int>(forward_code_.size());
            forward_code_.emplace(symbol, code);
            backward_code_.emplace(code, symbol);
            result.push_back(code);
        } else {
            result.push_back(it->second);
        }
    }
""")),
    ('coder-emplace', 'ok', P, enc("""    for (int symbol : seq) {
        auto r = forward_code_.emplace(symbol, static_cast<int>(forward_code_.size()));
        if (r.second) {
            backward_code_[r.first->second] = symbol;
        }
        result.push_back(r.first->second);
    }
""")),
    ('coder-index-loop', 'ok', P, enc("""    result.reserve(seq.size());
    for (size_t i = 0; i < seq.size(); ++i) {
        const int symbol = seq[i];
        if (!forward_code_.count(symbol)) {
            const int next = static_cast<int>(backward_code_.size());
            backward_code_.insert({next, symbol});
            forward_code_.insert({symbol, next});
        }
        result.emplace_back(forward_code_.at(symbol));
    }
""")),
    ('coder-iterators', 'ok', P, enc("""    auto it = seq.begin();
    while (it != seq.end()) {
        int symbol = *it++;
        int code;
        auto known = forward_code_.find(symbol);
        if (known != forward_code_.end()) {
            code = known->second;
        } else {
            code = static_cast<int>(forward_code_.size());
            forward_code_[symbol] = code;
            backward_code_[code] = symbol;
        }
        result.push_back(code);
    }
""")),
    ('coder-resized', 'ok', P, enc("""    result.resize(seq.size());
    for (size_t i = 0; i < seq.size(); i++) {
        if (forward_code_.find(seq[i]) == forward_code_.end()) {
            int size = static_cast<int>(forward_code_.size());
            forward_code_[seq[i]] = size;
            backward_code_[size] = seq[i];
        }
        result[i] = forward_code_[seq[i]];
    }
""")),
    ('coder-transform', 'ok', P, enc("""    std::transform(seq.begin(), seq.end(), std::back_inserter(result), [this](int symbol) {
        if (forward_code_.count(symbol) == 0) {
            int size = static_cast<int>(forward_code_.size());
            forward_code_[symbol] = size;
            backward_code_[size] = symbol;
        }
        return forward_code_[symbol];
    });
""")),
    ('coder-no-check', ['C01'], P, enc("""    for (int symbol : seq) {
        int size = static_cast<int>(forward_code_.size());
        forward_code_[symbol] = size;
        backward_code_[size] = symbol;
        result.push_back(forward_code_[symbol]);
    }
""")),
    ('coder-backward-before', ['C01'], P, enc("""    for (int symbol : seq) {
        if (forward_code_.count(symbol) == 0) {
            forward_code_[symbol] = static_cast<int>(backward_code_.size());
            backward_code_[static_cast<int>(forward_code_.size())] = symbol;
        }
        result.push_back(forward_code_[symbol]);
    }
""")),
    ('coder-one-based', ['C01'], P, enc("""    for (int symbol : seq) {
        if (forward_code_.count(symbol) == 0) {
            int size = static_cast<int>(forward_code_.size()) + 1;
            forward_code_[symbol] = size;
            backward_code_[size] = symbol;
        }
        result.push_back(forward_code_[symbol]);
    }
""")),
    ('coder-skip-negative', ['C01'], P, enc("""    for (int symbol : seq) {
        if (symbol < 0) continue;
        if (forward_code_.count(symbol) == 0) {
            int size = static_cast<int>(forward_code_.size());
            forward_code_[symbol] = size;
            backward_code_[size] = symbol;
        }
        result.push_back(forward_code_[symbol]);
    }
""")),
    ('coder-sometimes-back', ['C01'], P, enc("""    for (int symbol : seq) {
        if (forward_code_.count(symbol) == 0) {
            int size = static_cast<int>(forward_code_.size());
            forward_code_[symbol] = size;
            if (symbol >= 0) backward_code_[size] = symbol;
        }
        result.push_back(forward_code_[symbol]);
    }
""")),
    ('coder-operator-in-immutable', 'ok', P, [(S, IMM, """    for (auto it = seq.cbegin(); it != seq.cend(); ++it) {
        auto found = forward_code_.find(*it);
        if (found == forward_code_.end()) {
            continue;
        }
        result.push_back(found->second);
    }
""")]),
    ('coder-imm-stop', ['C01'], P, [(S, IMM, """    for (int symbol : seq) {
        if (forward_code_.count(symbol) == 0) break;
        result.push_back(forward_code_.at(symbol));
    }
""")]),
    ('coder-imm-dedupe', ['C01'], P, [(S, IMM, """    for (int symbol : seq) {
        if (forward_code_.count(symbol) != 0) {
            if (!result.empty() && result.back() == forward_code_.at(symbol)) continue;
            result.push_back(forward_code_.at(symbol));
        }
    }
""")]),
    ('coder-imm-zero', ['C01'], P, [(S, IMM, """    for (int symbol : seq) {
        result.push_back(forward_code_.count(symbol) != 0 ? forward_code_.at(symbol) : 0);
    }
""")]),
    ('coder-dec-index', 'ok', P, [(S, DEC, """    for (size_t i = 0; i < seq.size(); i++) {
        const int &code = seq[i];
        auto entry = backward_code_.find(code);
        if (entry == backward_code_.end()) {
            throw std::out_of_range("unknown code");
        }
        result.push_back(entry->second);
    }
""")]),
    ('coder-dec-forward', ['C01'], P, [(S, DEC, """    for (int symbol : seq) {
        auto it = backward_code_.find(symbol);
        result.push_back(it == backward_code_.end() ? symbol : it->second);
    }
""")]),
    ('coder-dec-reverse', ['C01'], P, [(S, DEC, """    for (auto it = seq.rbegin(); it != seq.rend(); ++it) {
        result.push_back(backward_code_.at(*it));
    }
""")]),
    ('coder-helper', 'ok', P, [(S, ENC, """    for (int symbol : seq) {
        result.push_back(code_for(symbol));
    }
    return result;
}

int SeqCoder::code_for(int symbol) {
    auto it = forward_code_.find(symbol);
    if (it != forward_code_.end()) {
        return it->second;
    }
    int code = static_cast<int>(forward_code_.size());
    forward_code_[symbol] = code;
    backward_code_[code] = symbol;
    return code;
}

std::vector<int> SeqCoder::encode_immutable"""), (IF + 'seq_coder.h', "    private:\n", "    private:\n        int code_for(int symbol);\n\n")]),
    ('encoder-count', 'ok', P, [(LD, """      auto code_ptr = mapping.find(next);
      if (code_ptr == mapping.end()) {
        code_ptr = mapping.emplace(next, next_id++).first;
      }
      output->push_back(code_ptr->second);
""", """      if (mapping.count(next) == 0) {
        mapping[next] = next_id;
        next_id++;
      }
      output->push_back(mapping[next]);
""")]),
    ('encoder-pre', ['C01'], P, [(LD, "next_id++).first", "++next_id).first")]),
    ('encoder-always', ['C01'], P, [(LD, """      auto code_ptr = mapping.find(next);
      if (code_ptr == mapping.end()) {
        code_ptr = mapping.emplace(next, next_id++).first;
      }
""", """      auto code_ptr = mapping.emplace(next, next_id++).first;
""")]),
]
