D = 'core/src/main/cpp/algorithm/int_dict_p.cc'
H = 'core/src/main/cpp/algorithm/int_dict_p.h'
S = 'core/src/main/cpp/algorithm/stat_dict_p.cc'
P = ['C24']
LIN = """    IntSeq suffix = seq;
    while (!suffix.empty()) {
        int symbol = search(suffix, excludes);
        if (symbol < 0) {
            suffix = IntSeq(suffix.begin() + 1, suffix.end());
        } else {
            auto sym_len = get(symbol).size();
            suffix = IntSeq(suffix.begin() + sym_len, suffix.end());
            builder->push_back(symbol);
        }
    }
"""
UPD = """                score[sym_len + pos] = score[pos] + sym_log_prob;
                symbols[sym_len + pos] = sym;
"""
INS = "    builder->insert(builder->end(), solution.begin() + len - index, solution.end() - 1);\n"
RB = """    IntSeq solution(len + 1);
    size_t pos = len;
    int index = 0;
    while (pos > 0) {
        int sym = symbols[pos];
        solution[len - (++index)] = sym;
        pos -= get(sym).size();
    }
"""
SRB = RB.replace("    size_t pos = len;", "    auto pos = static_cast<int>(len);")
SINS = "    result->insert(result->end(), solution.begin() + len - index, solution.end() - 1);\n"
FOR = """    for (int pos = 0; pos < len; pos++) {
        IntSeq suffix(seq.begin() + pos, seq.end());
        int sym = search(suffix, excludes);
        if (sym < 0)
            continue;
        do {
"""
FOR2 = FOR


def lin(a, b):
    assert a in LIN
    return [(D, LIN, LIN.replace(a, b))]


def ups(a, b, f=D):
    assert a in UPD
    return [(f, UPD, UPD.replace(a, b))]


V = [
    ('pa-lin-one', ['C24'], P, lin("suffix.begin() + sym_len", "suffix.begin() + 1")),
    ('pa-lin-short', ['C24'], P, lin("get(symbol).size()", "get(symbol).size() - (get(symbol).size() > 2 ? 1 : 0)")),
    ('pa-lin-less', ['C24'], P, lin("suffix.begin() + sym_len", "suffix.begin() + sym_len - 1")),
    ('pa-lin-parentlen', ['C24'], P, lin("get(symbol).size()", "get(parents_[symbol]).size()")),
    ('pa-lin-skip2', ['C24'], P, lin("suffix.begin() + 1", "suffix.begin() + 2")),
    ('pa-lin-break', ['C24'], P, lin("            suffix = IntSeq(suffix.begin() + 1, suffix.end());", "            break;")),
    ('pa-lin-noadv', ['C24'], P, lin("            suffix = IntSeq(suffix.begin() + sym_len, suffix.end());\n", "")),
    ('pa-lin-last', ['C24'], P, lin("!suffix.empty()", "suffix.size() > 1")),
    ('pa-lin-twice', ['C24'], P, lin("            builder->push_back(symbol);\n", "            builder->push_back(symbol);\n            if (sym_len > 3)\n                builder->push_back(symbol);\n")),
    ('pa-lin-front', ['C24'], P, lin("builder->push_back(symbol)", "builder->insert(builder->begin(), symbol)")),
    ('pa-lin-nodup', ['C24'], P, lin("builder->push_back(symbol)", "if (builder->empty() || builder->back() != symbol)\n                builder->push_back(symbol)")),
    ('pa-lin-start', ['C24'], P, lin("IntSeq suffix = seq;", "IntSeq suffix(seq.begin() + (seq.size() > 100 ? 1 : 0), seq.end());")),
    ('pa-lin-start1', ['C24'], P, lin("IntSeq suffix = seq;", "IntSeq suffix(seq.begin() + 1, seq.end());")),
    ('pa-lin-clear', ['C24'], P, lin("    while", "    builder->clear();\n    while")),
    ('pa-lin-miss', ['C24'], P, lin("symbol < 0", "symbol <= 0")),
    ('pa-link-key', ['C24'], P, ups("symbols[sym_len + pos]", "symbols[pos]")),
    ('pa-link-key1', ['C24'], P, ups("symbols[sym_len + pos]", "symbols[sym_len + pos - 1]")),
    ('pa-link-score', ['C24'], P, ups("score[sym_len + pos]", "score[pos + 1]")),
    ('pa-link-always', ['C24'], P, [(D, UPD + "            }\n", UPD.replace("                symbols[sym_len + pos] = sym;\n", "") + "            }\n            symbols[sym_len + pos] = sym;\n")]),
    ('pa-from1', ['C24'], P, [(D, FOR, FOR.replace("pos = 0", "pos = 1"))]),
    ('pa-tolast', ['C24'], P, [(D, FOR, FOR.replace("pos < len", "pos + 1 < len"))]),
    ('pa-step2', ['C24'], P, [(D, FOR, FOR.replace("pos++", "pos += 2"))]),
    ('pa-rb-from', ['C24'], P, [(D, RB, RB.replace("pos = len", "pos = len - 1"))]),
    ('pa-rb-one', ['C24'], P, [(D, RB, RB.replace("pos > 0", "pos > 1"))]),
    ('pa-rb-step', ['C24'], P, [(D, RB, RB.replace("pos -= get(sym).size()", "pos -= 1"))]),
    ('pa-rb-step2', ['C24'], P, [(D, RB, RB.replace("pos -= get(sym).size()", "pos -= get(symbols[pos]).size() > 2 ? 2 : get(symbols[pos]).size()"))]),
    ('pa-rb-at', ['C24'], P, [(D, RB, RB.replace("symbols[pos]", "symbols[pos - 1]"))]),
    ('pa-rb-fwd', ['C24'], P, [(D, RB, RB.replace("solution[len - (++index)]", "solution[index++]")), (D, INS, INS.replace("solution.begin() + len - index, solution.end() - 1", "solution.begin(), solution.begin() + index"))]),
    ('pa-ins-begin', ['C24'], P, [(D, INS, INS.replace("builder->end()", "builder->begin()"))]),
    ('pa-ins-end', ['C24'], P, [(D, INS, INS.replace("solution.end() - 1", "solution.end()"))]),
    ('pa-ins-all', ['C24'], P, [(D, INS, INS.replace("solution.begin() + len - index", "solution.begin()"))]),
    ('pa-ins-short', ['C24'], P, [(D, INS, INS.replace("len - index", "len - index + 1"))]),
    ('pa-stat-key', ['C24'], P, ups("symbols[sym_len + pos]", "symbols[sym_len + pos - 1]", S)),
    ('pa-stat-rb', ['C24'], P, [(S, SRB, SRB.replace("pos = static_cast<int>(len)", "pos = static_cast<int>(len) - 1"))]),
    ('pa-stat-ins', ['C24'], P, [(S, SINS, SINS.replace("solution.end() - 1", "solution.end()"))]),
    ('pa-stat-from1', ['C24'], P, [(S, FOR, FOR.replace("pos = 0", "pos = 1"))]),
    # the same behaviour
    ('pa-ok-erase', 'ok', P, lin("suffix = IntSeq(suffix.begin() + sym_len, suffix.end())", "suffix.erase(suffix.begin(), suffix.begin() + sym_len)")),
    ('pa-ok-hoist', 'ok', P, [(D, LIN, """    IntSeq suffix = seq;
    while (suffix.size() > 0) {
        const int symbol = search(suffix, excludes);
        size_t step = 1;
        if (symbol >= 0) {
            builder->push_back(symbol);
            step = get(symbol).size();
        }
        suffix = IntSeq(suffix.begin() + step, suffix.end());
    }
""")]),
    ('pa-ok-pos', 'ok', P, [(D, LIN, """    size_t at = 0;
    while (at < seq.size()) {
        int symbol = search(IntSeq(seq.begin() + at, seq.end()), excludes);
        if (symbol < 0) {
            ++at;
            continue;
        }
        builder->push_back(symbol);
        at += seqs_[symbol].size();
    }
""")]),
    ('pa-ok-for', 'ok', P, [(D, LIN, """    for (size_t at = 0; at != seq.size();) {
        IntSeq rest(seq.begin() + at, seq.end());
        int symbol = search(rest, excludes);
        if (symbol == -1) {
            at++;
        } else {
            at += get(symbol).size();
            builder->push_back(symbol);
        }
    }
""")]),
    ('pa-ok-helper', 'ok', P, lin("get(symbol).size()", "length(symbol)") + [(H, "    void init(", "    size_t length(int symbol) const { return seqs_[symbol].size(); }\n    void init(")]),
    ('pa-ok-local', 'ok', P, [(D, LIN, LIN.replace("    IntSeq suffix", "    IntSeq found;\n    IntSeq suffix").replace("builder->push_back", "found.push_back") + "    builder->insert(builder->end(), found.begin(), found.end());\n")]),
    ('pa-ok-early', 'ok', P, lin("    IntSeq suffix", "    if (seq.empty())\n        return static_cast<int>(builder->size());\n    IntSeq suffix")),
    ('pa-ok-end', 'ok', P, [(D, UPD, "                const size_t end = pos + sym_len;\n" + UPD.replace("sym_len + pos", "end"))]),
    ('pa-ok-swap', 'ok', P, [(D, UPD, "\n".join(reversed(UPD.rstrip().split("\n"))) + "\n")]),
    ('pa-ok-while', 'ok', P, [(D, FOR, FOR.replace("        if (sym < 0)\n            continue;\n        do {", "        while (sym >= 0) {")), (D, "        }\n        while ((sym = parent(sym)) >= 0);", "            sym = parents_[sym];\n        }")]),
    ('pa-ok-reverse', 'ok', P, [(D, RB, RB.replace("    IntSeq solution(len + 1);", "    IntSeq solution;").replace("    int index = 0;\n", "").replace("solution[len - (++index)] = sym", "solution.push_back(sym)")),
                                (D, INS, "    std::reverse(solution.begin(), solution.end());\n    builder->insert(builder->end(), solution.begin(), solution.end());\n")]),
    ('pa-ok-rbegin', 'ok', P, [(D, RB, RB.replace("    IntSeq solution(len + 1);", "    IntSeq solution;").replace("    int index = 0;\n", "").replace("solution[len - (++index)] = sym", "solution.push_back(sym)")),
                               (D, INS, "    builder->insert(builder->end(), solution.rbegin(), solution.rend());\n")]),
    ('pa-ok-exact', 'ok', P, [(D, RB, RB.replace("solution(len + 1)", "solution(len)")), (D, INS, INS.replace("solution.end() - 1", "solution.end()"))]),
    ('pa-ok-cursor', 'ok', P, [(D, RB, RB.replace("    int index = 0;", "    size_t first = len;").replace("len - (++index)", "--first")), (D, INS, INS.replace("len - index", "first"))]),
    ('pa-ok-ulen', 'ok', P, [(D, FOR, FOR.replace("int pos", "size_t pos"))]),
]
