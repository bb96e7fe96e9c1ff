D = 'core/src/main/cpp/algorithm/int_dict_p.cc'
S = 'core/src/main/cpp/algorithm/stat_dict_p.cc'
INS = """                excludes->insert(id);
                weightedParse(seq, symbol_freqs_, power_, &parse, excludes); //TODO doesn't work, make base_dict
                excludes->erase(id);
"""
P = ['C05']
V = [
    ('lk-no-prefix-test', ['C05'], P, [(D, "if (std::mismatch(seqs_[index].begin(), seqs_[index].end(), seq.begin()).first == seqs_[index].end()) {", "if (!seqs_[index].empty()) {")]),
    ('lk-first-not-excluded', ['C05'], P, [(D, "        if (excludes == nullptr || excludes->count(index) == 0) {\n            return index;\n        }\n    }\n    index--;", "        return index;\n    }\n    index--;")]),
    ('lk-loop-exclude-parent', ['C05'], P, [(D, "            if (excludes == nullptr || excludes->count(index) == 0) {\n                return index;", "            if (excludes == nullptr || excludes->count(parents_[index]) == 0) {\n                return index;")]),
    ('lk-exclude-sense', ['C05'], P, [(D, "            if (excludes == nullptr || excludes->count(index) == 0) {\n                return index;", "            if (excludes == nullptr || excludes->count(index)) {\n                return index;")]),
    ('lk-append-empty-excl', ['C05'], P, [(D, "if (excludes == nullptr && !seq.empty()) {", "if ((excludes == nullptr || excludes->empty()) && !seq.empty()) {")]),
    ('lk-fwd-null', ['C05'], P, [(S, "int sym = search(suffix, excludes);", "int sym = search(suffix);")]),
    ('lk-fwd-dict', ['C05'], P, [(S, "return dict_->search(seq, excludes);", "return dict_->search(seq, nullptr);")]),
    ('lk-linear-null', ['C05'], P, [(D, "int symbol = search(suffix, excludes);", "int symbol = search(suffix, nullptr);")]),
    ('lk-not-undone-empty', ['C05'], P, [(S, INS, """                excludes->insert(id);
                weightedParse(seq, symbol_freqs_, power_, &parse, excludes);
                if (!parse.empty())
                    excludes->erase(id);
""")]),
    ('lk-undone-early', ['C05'], P, [(S, INS, """                excludes->insert(id);
                excludes->erase(id);
                weightedParse(seq, symbol_freqs_, power_, &parse, excludes);
""")]),
    ('lk-undone-other', ['C05'], P, [(S, "                excludes->erase(id);\n", "                excludes->erase(count);\n")]),
    ('lk-copy', 'ok', P, [(S, INS, """                std::unordered_set<int> without(*excludes);
                without.insert(id);
                weightedParse(seq, symbol_freqs_, power_, &parse, &without);
""")]),
    ('lk-guard', 'ok', P, [(S, INS, """                {
                    auto added = excludes->insert(id);
                    weightedParse(seq, symbol_freqs_, power_, &parse, excludes);
                    if (added.second)
                        excludes->erase(added.first);
                }
""")]),
    ('lk-guard2', 'ok', P, [(S, INS, """                const auto own = excludes->emplace(id).first;
                weightedParse(seq, symbol_freqs_, power_, &parse, excludes);
                excludes->erase(own);
""")]),
    ('lk-permitted-lambda', 'ok', P, [(D, "    index--;\n    while", "    const auto allowed = [excludes](int id) { return excludes == nullptr || excludes->find(id) == excludes->end(); };\n    --index;\n    while"),
                                     (D, "            if (excludes == nullptr || excludes->count(index) == 0) {\n                return index;\n            }\n        }\n        index = parents_[index];", "            if (allowed(index)) {\n                return index;\n            }\n        }\n        index = parents_[index];")]),
    ('lk-manual-prefix', 'ok', P, [(D, "if (std::mismatch(seqs_[index].begin(), seqs_[index].end(), seq.begin()).first == seqs_[index].end()) {",
                                      "bool pre = true;\n        for (size_t k = 0; k < seqs_[index].size() && pre; k++) {\n            pre = seqs_[index][k] == seq[k];\n        }\n        if (pre) {")]),
    ('lk-equal-prefix', 'ok', P, [(D, "if (std::mismatch(seqs_[index].begin(), seqs_[index].end(), seq.begin()).first == seqs_[index].end()) {",
                                      "const IntSeq& entry = seqs_[index];\n        if (std::equal(entry.begin(), entry.end(), seq.begin())) {")]),
    ('lk-return-var', 'ok', P, [(D, "        if (excludes == nullptr || excludes->count(index) == 0) {\n            return index;\n        }\n    }\n    index--;",
                                    "        const bool banned = excludes != nullptr && excludes->count(index) > 0;\n        if (!banned) {\n            return index;\n        }\n    }\n    index--;")]),
]
