A = 'core/src/main/cpp/algorithm/'
IF = 'core/src/main/cpp/interfaces/'
I = IF + 'vgram_builders/int_vgram.cc'
IS = IF + 'vgram_builders/int_stream_vgram.cc'
SV = IF + 'vgram_builders/string_vgram.cc'
SS = IF + 'vgram_builders/string_stream_vgram.cc'
T = IF + 'tokenizers/base_tokenizer.cc'
P = ['C11']
TR = """        IntSeq result = parse(seq);
        res.push_back(result);
        if (isTerminated()) {
            break;
        }
"""
TS = """        std::string str;
        for (const auto &i : seq) {
            //TODO fix
            str += " " + std::to_string(i);
        }
        if (str.length() == 0) {
            str = "-1";
        }
        res.push_back(str);
"""
DW = "        std::string decoded_words;\n        for (int word_id"
V = [
    ('ba-skip-empty', P, P, [(I, TR, "        IntSeq result = parse(seq);\n        if (result.empty()) continue;\n        res.push_back(result);\n        if (isTerminated()) {\n            break;\n        }\n")]),
    ('ba-skip-in', P, P, [(I, TR, "        if (seq.empty()) continue;\n" + TR)]),
    ('ba-stop-empty', P, P, [(I, TR, "        if (seq.empty()) break;\n" + TR)]),
    ('ba-carry', P, P, [(I, "    for (const IntSeq &seq : transform(seqs)) {\n        std::string str;", "    std::string str;\n    for (const IntSeq &seq : transform(seqs)) {\n")]),
    ('ba-carry2', P, P, [(SV, "    for (const IntSeq &coded_text_by_token_ids : coded_texts_by_token_ids) {\n        std::string decoded_words;", "    std::string decoded_words;\n    for (const IntSeq &coded_text_by_token_ids : coded_texts_by_token_ids) {\n")]),
    ('ba-from1', P, P, [(I, "    for (const IntSeq &seq : seqs) {\n        IntSeq result = parse(seq);", "    for (size_t k = 1; k < seqs.size(); k++) {\n        const IntSeq &seq = seqs[k];\n        IntSeq result = parse(seq);")]),
    ('ba-back', P, P, [(I, "    for (const IntSeq &seq : seqs) {\n        IntSeq result = parse(seq);", "    for (int k = (int)seqs.size() - 1; k >= 0; k--) {\n        const IntSeq &seq = seqs[k];\n        IntSeq result = parse(seq);")]),
    ('ba-wrong-el', P, P, [(I, "    for (const IntSeq &seq : seqs) {\n        IntSeq result = parse(seq);", "    for (size_t k = 0; k < seqs.size(); k++) {\n        const IntSeq &seq = seqs[0];\n        IntSeq result = parse(seq);")]),
    ('ba-tok-skip', P, P, [(T, "        res.push_back(transform(seq));", "        if (!seq.empty()) res.push_back(transform(seq));")]),
    ('ba-dec-dedup', P, P, [(T, "        res.push_back(decode(seq));", "        string text = decode(seq);\n        if (res.empty() || res.back() != text) res.push_back(text);")]),
    ('ba-sv-skip', P, P, [(SV, "        decoded_texts.push_back(decoded_words);", "        if (!decoded_words.empty()) decoded_texts.push_back(decoded_words);")]),
    ('ba-size-cache', P, P, [(I, "    for (const IntSeq &seq : seqs) {\n        IntSeq result = parse(seq);\n        res.push_back(result);", "    std::unordered_map<size_t, IntSeq> cache;\n    for (const IntSeq &seq : seqs) {\n        if (cache.count(seq.size()) == 0) cache[seq.size()] = parse(seq);\n        res.push_back(cache[seq.size()]);")]),
    ('ba-alpha-single', P, P, [(IS, "        alpha.push_back(coder_->decode(a));", "        if (a.size() > 1) alpha.push_back(coder_->decode(a));")]),
    ('ba-term-before', P, P, [(I, "    res.reserve(seqs.size());\n    for (const IntSeq &seq : seqs) {", "    res.reserve(seqs.size());\n    if (seqs.size() == 1) return res;\n    for (const IntSeq &seq : seqs) {")]),
    ('ba-double', P, P, [(I, "        if (str.length() == 0) {\n            str = \"-1\";\n        }\n", "        if (str.length() == 0) {\n            res.push_back(\"-1\");\n        }\n")]),
    ('ba-sort', P, P, [(I, "    return res;\n}\n\nvoid IntVGram::save", "    std::sort(res.begin(), res.end());\n    return res;\n}\n\nvoid IntVGram::save")]),
    ('ba-ok-index', 'ok', P, [(I, "    for (const IntSeq &seq : seqs) {\n        IntSeq result = parse(seq);\n        res.push_back(result);", "    for (size_t k = 0; k < seqs.size(); ++k) {\n        res.push_back(parse(seqs[k]));")]),
    ('ba-ok-presize', 'ok', P, [(I, "    res.reserve(seqs.size());\n    for (const IntSeq &seq : seqs) {\n        IntSeq result = parse(seq);\n        res.push_back(result);", "    res.reserve(seqs.size());\n    for (auto it = seqs.begin(); it != seqs.end(); ++it) {\n        res.emplace_back(parse(*it));")]),
    ('ba-ok-helper', 'ok', P, [(I, TS, "        res.push_back(to_text(seq));\n"), (I, "std::vector<std::string> IntVGram::transform_to_string", """static std::string to_text(const IntSeq &seq) {
    std::string str;
    for (const auto &i : seq) {
        str += " " + std::to_string(i);
    }
    return str.empty() ? "-1" : str;
}

std::vector<std::string> IntVGram::transform_to_string""")]),
    ('ba-ok-clear', 'ok', P, [(I, "    for (const IntSeq &seq : transform(seqs)) {\n        std::string str;", "    std::string str;\n    for (const IntSeq &seq : transform(seqs)) {\n        str.clear();")]),
    ('ba-ok-empty', 'ok', P, [(I, "    res.reserve(seqs.size());\n    for (const IntSeq &seq : seqs) {", "    if (seqs.empty())\n        return res;\n    res.reserve(seqs.size());\n    for (const IntSeq &seq : seqs) {")]),
    ('ba-ok-return', 'ok', P, [(I, TR, TR.replace('break;', 'return res;'))]),
    ('ba-ok-cache', 'ok', P, [(T, "    for (auto &seq : seqs) {\n        res.push_back(decode(seq));", "    for (size_t i = 0; i != seqs.size(); i++) {\n        const auto &seq = seqs.at(i);\n        auto text = decode(seq);\n        res.push_back(std::move(text));")]),
    ('ba-ok-transform', 'ok', P, [(T, "    for (const std::string &seq : seqs) {\n        res.push_back(transform(seq));\n    }\n", "    std::transform(seqs.begin(), seqs.end(), std::back_inserter(res), [this](const std::string &s) { return transform(s); });\n"), (T, "#include <sstream>", "#include <sstream>\n#include <algorithm>\n#include <iterator>")]),
    ('ba-ok-while', 'ok', P, [(I, "    for (const IntSeq &seq : seqs) {\n" + "        IntSeq result = parse(seq);\n        res.push_back(result);\n        if (isTerminated()) {\n            break;\n        }\n    }", "    size_t k = 0;\n    bool stopped = false;\n    while (k < seqs.size() && !stopped) {\n        res.push_back(parse(seqs[k]));\n        ++k;\n        stopped = isTerminated();\n    }")]),
]
