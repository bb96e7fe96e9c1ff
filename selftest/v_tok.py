T = 'core/src/main/cpp/interfaces/tokenizers/'
B = T + 'base_tokenizer.cc'
NEW = '''            int code = static_cast<int>(backward_coder_.size());
            while (backward_coder_.count(code) != 0) { // codes of a loaded tokenizer may have gaps
                code++;
            }
            forward_coder_[symb] = code;
            backward_coder_[code] = symb;
'''
TR = '''    for (const std::string &symb : tokens) {
        if (forward_coder_.count(symb) == 0) {
''' + NEW + '''        }
        coded_seq.push_back(forward_coder_.at(symb));
    }
'''
DEC = '''        if (backward_coder_.count(i) > 0) {
            decoded_seq += backward_coder_.at(i);
        }
'''
RES = '''    for (const auto &pair : forward_map) {
        backward_coder_[pair.second] = pair.first;
    }
'''
C = ['C02']
V = [
    ('tok size code', C, C, [(B, NEW, '''            int code = static_cast<int>(forward_coder_.size());
            forward_coder_[symb] = code;
            backward_coder_[code] = symb;
''')]),
    ('tok overwrites', C, C, [(B, 'if (forward_coder_.count(symb) == 0) {', 'if (forward_coder_.count(symb) == 0 || backward_coder_.size() < 2) {')]),
    ('tok no inverse', C, C, [(B, '            backward_coder_[code] = symb;\n', '            if (code > 0) backward_coder_[code] = symb;\n')]),
    ('tok batch by index', C, C, [(B, '        res.push_back(transform(seq));', '        res.push_back(transform(seqs.front()));')]),
    ('tok not normalised', C, C, [(B, 'tokenize(normalize(seq))', 'tokenize(seq)')]),
    ('tok decode stops', C, C, [(B, DEC, '''        if (backward_coder_.count(i) == 0) break;
        decoded_seq += backward_coder_.at(i);
''')]),
    ('tok decode skips zero', C, C, [(B, 'if (backward_coder_.count(i) > 0) {', 'if (i > 0 && backward_coder_.count(i) > 0) {')]),
    ('tok restore partial', C, C, [(B, RES, '''    for (const auto &pair : forward_map) {
        if (pair.second > 0) backward_coder_[pair.second] = pair.first;
    }
''')]),
    ('tok restore forgets forward', C, C, [(B, '    forward_coder_ = forward_map;\n', '')]),
    ('tok emits only new', C, C, [(B, TR, TR.replace('''        }
        coded_seq.push_back(forward_coder_.at(symb));''', '''            coded_seq.push_back(forward_coder_.at(symb));
        }'''))]),
    ('tok drops last', C, C, [(B, TR, TR.replace('for (const std::string &symb : tokens) {', 'for (size_t k = 0; k + 1 < tokens.size(); k++) { const std::string &symb = tokens[k];'))]),
    ('ok tok find', 'ok', C, [(B, TR, '''    for (size_t k = 0; k < tokens.size(); ++k) {
        auto it = forward_coder_.find(tokens[k]);
        if (it == forward_coder_.end()) {
            int fresh = static_cast<int>(backward_coder_.size());
            for (; backward_coder_.find(fresh) != backward_coder_.end(); ++fresh) {}
            backward_coder_.emplace(fresh, tokens[k]);
            it = forward_coder_.emplace(tokens[k], fresh).first;
        }
        coded_seq.push_back(it->second);
    }
''')]),
    ('ok tok decode at', 'ok', C, [(B, DEC, '''        const auto it = backward_coder_.find(i);
        if (it == backward_coder_.end()) {
            continue;
        }
        decoded_seq.append(it->second);
''')]),
    ('ok tok restore emplace', 'ok', C, [(B, RES, '''    for (auto it = forward_coder_.begin(); it != forward_coder_.end(); ++it) {
        backward_coder_.emplace(it->second, it->first);
    }
''')]),
    ('ok tok restore init', 'ok', C, [(B, '''BaseTokenizer::BaseTokenizer(const unordered_map<string, int> &forward_map) {
    forward_coder_ = forward_map;
''', '''BaseTokenizer::BaseTokenizer(const unordered_map<string, int> &forward_map) : forward_coder_(forward_map) {
''')]),
    ('ok tok batch index', 'ok', C, [(B, '''    std::vector<std::vector<int>> res;
    res.reserve(seqs.size());
    for (const std::string &seq : seqs) {
        res.push_back(transform(seq));
    }
''', '''    std::vector<std::vector<int>> res(seqs.size());
    for (size_t i = 0; i < seqs.size(); i++) {
        const std::string &s = seqs[i];
        res[i] = transform(s);
    }
''')]),
    ('ok tok helper', 'ok', C, [(B, TR, '''    auto code_of = [this](const std::string &symb) {
        auto known = forward_coder_.find(symb);
        if (known != forward_coder_.end()) {
            return known->second;
        }
        int code = static_cast<int>(backward_coder_.size());
        while (backward_coder_.count(code) != 0) {
            code++;
        }
        forward_coder_[symb] = code;
        backward_coder_[code] = symb;
        return code;
    };
    for (const std::string &symb : tokens) {
        const int c = code_of(symb);
        coded_seq.push_back(c);
    }
''')]),
]
