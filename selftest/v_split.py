"""C27: tokenizers accept any text and produce proper tokens"""
C = 'core/src/main/cpp/interfaces/tokenizers/char_tokenizer.cc'
W = 'core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc'
P = ['C27']
TL = 'std::transform(res.begin(), res.end(), res.begin(), [](unsigned char c) { return static_cast<char>(::tolower(c)); });'
NB = """    string res;
    for (auto &c : str) {
//        if (c == ' ') {
//            res += BaseTokenizer::kSpaceReplacer;
//        } else {
//            res += c;
//        }
        if (isalnum(static_cast<unsigned char>(c))) {
            res += c;
        }
    }
    """ + TL + """
    return res;
"""
TB = """    vector<string> tokens;
    for (char i : str) {
        tokens.emplace_back(1, i);
    }
    return tokens;
"""
WB = """    vector<string> tokens;
    string current;
    for (char i : str) {
        if (i == ' ') {
            if (current != "") {
                tokens.push_back(current);
                current = "";
            }
        } else {
            current += i;
        }
    }
    if (current != "") {
        tokens.push_back(current);
    }
    return tokens;
"""
A = 'isalnum(static_cast<unsigned char>(c))'
V = [
    ('sp-alpha', P, P, [(C, A, 'isalpha(static_cast<unsigned char>(c))')]),
    ('sp-no-lower', P, P, [(C, TL, '')]),
    ('sp-upper', P, P, [(C, '::tolower', '::toupper')]),
    ('sp-underscore', P, P, [(C, A, A + " || c == '_'")]),
    ('sp-range', P, P, [(C, A, "(c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c > '0' && c <= '9')")]),
    ('sp-or20', P, P, [(C, 'static_cast<char>(::tolower(c))', 'static_cast<char>(c | 0x10)')]),
    ('sp-nul', P, P, [(C, 'if (' + A, "if (c == '\\0') {\n            break;\n        }\n        if (" + A)]),
    ('sp-repeat', P, P, [(C, 'if (' + A, "if (!res.empty() && res.back() == c) {\n            continue;\n        }\n        if (" + A)]),
    ('sp-tok-skip', P, P, [(C, 'tokens.emplace_back(1, i);', "if (i != '0') {\n            tokens.emplace_back(1, i);\n        }")]),
    ('sp-tok-two', P, P, [(C, 'tokens.emplace_back(1, i);', "tokens.emplace_back(i == 'w' ? 2 : 1, i);")]),
    ('sp-isspace', P, P, [(W, "i == ' '", 'isspace(static_cast<unsigned char>(i))')]),
    ('sp-newline', P, P, [(W, "i == ' '", "i == ' ' || i == '\\n'")]),
    ('sp-empty', P, P, [(W, """            if (current != "") {
                tokens.push_back(current);
                current = "";
            }
""", """            tokens.push_back(current);
            current = "";
""")]),
    ('sp-last', P, P, [(W, """    if (current != "") {
        tokens.push_back(current);
    }
    return""", '    return')]),
    ('sp-last-empty', P, P, [(W, """    if (current != "") {
        tokens.push_back(current);
    }
    return""", '    tokens.push_back(current);\n    return')]),
    ('sp-not-cleared', P, P, [(W, '                current = "";\n', '')]),
    ('sp-ok-space-kept', 'ok', P, [(W, "        } else {\n            current += i;\n        }", "        }\n        if (i != ' ' || !current.empty()) {\n            current += i;\n        }")]),
    ('sp-one-char', P, P, [(W, """            if (current != "") {
                tokens""", """            if (current.size() > 1) {
                tokens""")]),
    ('sp-punct', P, P, [(W, "        } else {\n            current += i;", "        } else if (i != '\\r') {\n            current += i;")]),
    ('sp-word-lower', P, P, [(W, 'current += i;', 'current += static_cast<char>(tolower(static_cast<unsigned char>(i)));')]),
    # same behaviour
    ('sp-ok-fused', 'ok', P, [(C, NB, """    string res;
    res.reserve(str.size());
    for (size_t i = 0; i < str.size(); i++) {
        const unsigned char c = static_cast<unsigned char>(str[i]);
        if (!isalnum(c)) {
            continue;
        }
        res.push_back(static_cast<char>(tolower(c)));
    }
    return res;
""")]),
    ('sp-ok-tok-string', 'ok', P, [(C, 'tokens.emplace_back(1, i);', 'tokens.push_back(string(1, i));')]),
    ('sp-ok-tok-substr', 'ok', P, [(C, TB, """    vector<string> tokens;
    tokens.reserve(str.size());
    for (size_t i = 0; i < str.size(); ++i) {
        tokens.push_back(str.substr(i, 1));
    }
    return tokens;
""")]),
    ('sp-ok-loop-lower', 'ok', P, [(C, TL, 'for (char &c : res) {\n        c = static_cast<char>(::tolower(static_cast<unsigned char>(c)));\n    }')]),
    ('sp-ok-copy-if', 'ok', P, [(C, """    for (auto &c : str) {
//        if (c == ' ') {
//            res += BaseTokenizer::kSpaceReplacer;
//        } else {
//            res += c;
//        }
        if (isalnum(static_cast<unsigned char>(c))) {
            res += c;
        }
    }
""", """    std::copy_if(str.begin(), str.end(), std::back_inserter(res), [](unsigned char c) { return isalnum(c) != 0; });
""")]),
    ('sp-ok-empty', 'ok', P, [(W, 'if (current != "") {\n                tokens.push_back(current);\n                current = "";', 'if (!current.empty()) {\n                tokens.push_back(current);\n                current.clear();')]),
    ('sp-ok-continue', 'ok', P, [(W, WB, """    vector<string> tokens;
    string current;
    for (size_t i = 0; i < str.size(); ++i) {
        if (str[i] != ' ') {
            current.push_back(str[i]);
            continue;
        }
        if (current.empty()) {
            continue;
        }
        tokens.push_back(current);
        current.clear();
    }
    if (!current.empty()) {
        tokens.push_back(current);
    }
    return tokens;
""")]),
    ('sp-ok-helper', 'ok', P, [(W, WB, """    vector<string> tokens;
    string current;
    const auto flush = [&tokens, &current]() {
        if (!current.empty()) {
            tokens.push_back(current);
            current.clear();
        }
    };
    for (char i : str) {
        if (i == ' ') {
            flush();
        } else {
            current += i;
        }
    }
    flush();
    return tokens;
""")]),
    ('sp-ok-find', 'ok', P, [(W, WB, """    vector<string> tokens;
    size_t start = 0;
    while (start < str.size()) {
        size_t end = str.find(' ', start);
        if (end == string::npos) {
            end = str.size();
        }
        if (end > start) {
            tokens.push_back(str.substr(start, end - start));
        }
        start = end + 1;
    }
    return tokens;
""")]),
    ('sp-ok-padded', 'ok', P, [(W, WB, """    vector<string> tokens;
    string current;
    for (char i : str + " ") {
        if (i != ' ') {
            current += i;
        } else if (!current.empty()) {
            tokens.push_back(current);
            current.clear();
        }
    }
    return tokens;
""")]),
    ('sp-ok-move', 'ok', P, [(W, 'tokens.push_back(current);\n                current = "";', 'tokens.emplace_back(std::move(current));\n                current = std::string();')]),
]
