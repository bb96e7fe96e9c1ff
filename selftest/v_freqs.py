A = 'core/src/main/cpp/algorithm/'
I = 'core/src/main/cpp/interfaces/'
S, B = A + 'stat_dict_p.cc', A + 'int_vgram_builder_p.cc'
ISV, IV = I + 'vgram_builders/int_stream_vgram.cc', I + 'vgram_builders/int_vgram.cc'
SAV, LOA = I + 'saver.h', I + 'loader.h'
P = ['C16']
R1 = """        for (size_t i = 0; i < seqs.size() && i < init_freqs->size(); i++)
            parse_freqs_[dict_->search(seqs[i])] += (*init_freqs)[i];
"""
R1A = """        parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size()));
        for (size_t i = 0; i < seqs.size() && i < init_freqs->size(); i++)
            parse_freqs_[dict_->search(seqs[i])] += (*init_freqs)[i];
"""
R2A = """    freqs_ = IntSeq(dict_->size(), 0);
    for (size_t i = 0; i < alphabet.size() && i < freqs.size(); i++) {
        freqs_[dict_->search(alphabet[i])] += freqs[i];
    }
"""
TOT = "    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);\n"
UPS = """    if (index >= symbol_freqs_.size() || index >= parse_freqs_.size()) {
        for (auto i = symbol_freqs_.size(); i < index + 1; i++)
            symbol_freqs_.push_back(0); // Sanitizer: indirect leak
        for (auto i = parse_freqs_.size(); i < index + 1; i++)
            parse_freqs_.push_back(0); // Sanitizer: indirect leak
    }
"""
RF = """    if (stat_dict->size() > stat_dict->symbol_freqs_.size()) {
        for (auto i = stat_dict->symbol_freqs_.size(); i < stat_dict->size(); ++i) {
            stat_dict->symbol_freqs_.push_back(0);
        }
    }
    for (int symbol_freq : stat_dict->symbol_freqs_) {
        freqs->push_back(symbol_freq);
    }
"""
RF2 = """    if (result_ == nullptr) {
        return result_freqs(current_, freqs);
    }
    return result_freqs(result_, freqs);
"""
RC = """        if (freqs_.size() < dict_->size()) { // the sequence had symbols never seen before
            freqs_.resize(dict_->size(), 0);
        }
        for (int symb : result) {
            if (symb >= 0) {
                freqs_[symb]++;
            }
        }
"""
TERM = """        if (isTerminated()) {
            total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
            return false;
        }
"""
V = [
    ('fq-asis', ['C16'], P, [(S, R1A, "        parse_freqs_ = *init_freqs;\n")]),
    ('fq-asis-loop', ['C16'], P, [(S, R1, R1.replace("dict_->search(seqs[i])", "i"))]),
    ('fq-asis2', ['C16'], P, [(ISV, R2A, "    freqs_ = freqs;\n")]),
    ('fq-other-alphabet', ['C16'], P, [(ISV, "IntVGramBuilderImpl>(*dict_, freqs_, alphabet,", "IntVGramBuilderImpl>(*dict_, freqs, alphabet,")]),
    ('fq-skip-first', ['C16'], P, [(S, R1, R1.replace("size_t i = 0", "size_t i = 1"))]),
    ('fq-skip-last', ['C16'], P, [(ISV, R2A, R2A.replace("i < alphabet.size()", "i + 1 < alphabet.size()"))]),
    ('fq-shift', ['C16'], P, [(S, R1, R1.replace("i < init_freqs->size()", "i + 1 < init_freqs->size()").replace("(*init_freqs)[i]", "(*init_freqs)[i + 1]"))]),
    ('fq-total-stale-update', ['C16'], P, [(ISV, "    builder_->result_freqs(&freqs_);\n" + TOT, "    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);\n    builder_->result_freqs(&freqs_);\n")]),
    ('fq-total-dropped', ['C16'], P, [(ISV, "    builder_->result_freqs(&freqs_);\n" + TOT, "    builder_->result_freqs(&freqs_);\n")]),
    ('fq-total-param', ['C16'], P, [(ISV, TOT + "//    std::cout << \"dict_ inited\"", "    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);\n//    std::cout << \"dict_ inited\"")]),
    ('fq-total-fit', ['C16'], P, [(IV, TOT + "    return true", "    return true")]),
    ('fq-total-fit2', ['C16'], P, [(IV, TOT + "    return true", "    total_freqs_ = total_freqs;\n    return true")]),
    ('fq-total-term', ['C16'], P, [(IV, TERM, TERM.replace("            total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);\n", ""))]),
    ('fq-noclear', ['C16'], P, [(ISV, "    freqs_.clear();\n", "")]),
    ('fq-pair-total', ['C16'], P, [(IV, "encode(seq), freqs, total_freqs, &result)", "encode(seq), freqs, total_freqs_, &result)")]),
    ('fq-pair-table', ['C16'], P, [(IV, "encode(seq), freqs, total_freqs, &result)", "encode(seq), freqs_, total_freqs, &result)")]),
    ('fq-pair-stat', ['C16'], P, [(S, "parse_freqs_, power_ + parse_freqs_init_power_,", "parse_freqs_, power_,")]),
    ('fq-pair-stat2', ['C16'], P, [(S, "parse_freqs_, power_ + parse_freqs_init_power_,", "symbol_freqs_, power_ + parse_freqs_init_power_,")]),
    ('fq-initpower', ['C16'], P, [(S, "std::accumulate(parse_freqs_.begin(), parse_freqs_.end(), 0.0)", "std::accumulate(symbol_freqs_.begin(), symbol_freqs_.end(), 0.0)")]),
    ('fq-recount-add', ['C16'], P, [(IV, "    freqs_ = IntSeq(freqs.size(), 0);\n", "    freqs_.resize(freqs.size(), 0);\n")]),
    ('fq-recount-two', ['C16'], P, [(IV, RC, RC.replace("freqs_[symb]++", "freqs_[symb] += 2"))]),
    ('fq-noresize', ['C16'], P, [(IV, RC, RC[RC.index("        for"):])]),
    ('fq-resize-late', ['C16'], P, [(IV, RC, RC[RC.index("        for"):] + RC[:RC.index("        for")])]),
    ('fq-within-own', ['C16'], P, [(S, UPS, UPS.replace(" || index >= parse_freqs_.size()", ""))]),
    ('fq-within-short', ['C16'], P, [(S, UPS, UPS.replace("i < index + 1; i++)\n            symbol", "i < index; i++)\n            symbol"))]),
    ('fq-handed-parse', ['C16'], P, [(B, "stat_dict->symbol_freqs_) {\n        freqs", "stat_dict->parse_freqs_) {\n        freqs")]),
    ('fq-handed-current', ['C16'], P, [(B, RF2, "    return result_freqs(current_, freqs);\n")]),
    ('fq-handed-flip', ['C16'], P, [(B, RF2, RF2.replace("==", "!="))]),
    ('fq-handed-nopad', ['C16'], P, [(B, RF, RF[RF.index("    for (int symbol_freq"):])]),
    ('fq-handed-short', ['C16'], P, [(B, RF, RF.replace("i < stat_dict->size(); ++i", "i + 1 < stat_dict->size(); ++i"))]),
    ('fq-saved-shift', ['C16'], P, [(SAV, '["freq"] = freqs[i]', '["freq"] = freqs[i > 0 ? i - 1 : 0]')]),
    ('fq-saved-noresize', ['C16'], P, [(SAV, "            freqs.resize(dict->size(), 0); // the dictionary may have grown since the frequencies were taken\n", "")]),
    ('fq-loaded-skip', ['C16'], P, [(LOA, "                freqs.push_back(", "                if (word_obj[\"freq\"].get<int>() > 0)\n                    freqs.push_back(")]),
    ('fq-loaded-front', ['C16'], P, [(LOA, "                freqs.push_back(word_obj[\"freq\"].get<int>());", "                freqs.insert(freqs.begin(), word_obj[\"freq\"].get<int>());")]),
    # the same behaviour
    ('fq-ok-local', 'ok', P, [(S, R1, """        for (size_t i = 0; i < std::min(seqs.size(), init_freqs->size()); ++i) {
            int place = dict_->search(seqs[i], nullptr);
            parse_freqs_[place] = parse_freqs_[place] + init_freqs->at(i);
        }
""")]),
    ('fq-ok-helper', 'ok', P, [(ISV, TOT + "    min_probability_ = builder_", "    total_freqs_ = std::accumulate(freqs_.cbegin(), freqs_.cend(), 0);\n    min_probability_ = builder_")]),
    ('fq-ok-loop-total', 'ok', P, [(ISV, TOT + "    min_probability_ = builder_", "    total_freqs_ = 0;\n    for (int f : freqs_)\n        total_freqs_ += f;\n    min_probability_ = builder_")]),
    ('fq-ok-swap', 'ok', P, [(ISV, "    freqs_.clear();\n    builder_->result_freqs(&freqs_);\n", "    IntSeq fresh;\n    builder_->result_freqs(&fresh);\n    freqs_ = fresh;\n")]),
    ('fq-ok-resize', 'ok', P, [(S, UPS, """    size_t need = static_cast<size_t>(index) + 1;
    if (symbol_freqs_.size() < need)
        symbol_freqs_.resize(need, 0);
    if (parse_freqs_.size() < need)
        parse_freqs_.resize(need, 0);
""")]),
    ('fq-ok-while', 'ok', P, [(S, UPS, """    while (symbol_freqs_.size() <= index)
        symbol_freqs_.push_back(0);
    while (parse_freqs_.size() <= index)
        parse_freqs_.push_back(0);
""")]),
    ('fq-ok-pick', 'ok', P, [(B, RF2, "    return result_freqs(result_ != nullptr ? result_ : current_, freqs);\n")]),
    ('fq-ok-resize2', 'ok', P, [(B, RF, """    if (stat_dict->symbol_freqs_.size() < stat_dict->size())
        stat_dict->symbol_freqs_.resize(stat_dict->size(), 0);
    freqs->reserve(freqs->size() + stat_dict->symbol_freqs_.size());
    for (size_t i = 0; i < stat_dict->symbol_freqs_.size(); ++i)
        freqs->push_back(stat_dict->symbol_freqs_[i]);
""")]),
    ('fq-ok-insert', 'ok', P, [(B, RF, RF[:RF.index("    for (int symbol_freq")] + "    freqs->insert(freqs->end(), stat_dict->symbol_freqs_.begin(), stat_dict->symbol_freqs_.end());\n")]),
    ('fq-ok-nopos', 'ok', P, [(IV, RC, RC.replace("            if (symb >= 0) {\n                freqs_[symb]++;\n            }\n", "            freqs_[symb] += 1;\n"))]),
    ('fq-ok-index', 'ok', P, [(IV, RC, """        if (freqs_.size() < static_cast<size_t>(dict_->size()))
            freqs_.resize(dict_->size());
        for (size_t k = 0; k < result.size(); ++k) {
            if (result[k] < 0)
                continue;
            freqs_[result[k]] = freqs_[result[k]] + 1;
        }
""")]),
    ('fq-ok-assign', 'ok', P, [(IV, "    freqs_ = IntSeq(freqs.size(), 0);\n", "    freqs_.assign(freqs.size(), 0);\n")]),
    ('fq-ok-save', 'ok', P, [(SAV, '                word_obj["freq"] = freqs[i];\n', '                const int count = freqs[i];\n                word_obj["freq"] = count;\n')]),
    ('fq-ok-save2', 'ok', P, [(SAV, '= freqs[i];', '= i < freqs.size() ? freqs[i] : 0;'), (SAV, "            freqs.resize(dict->size(), 0); // the dictionary may have grown since the frequencies were taken\n", "")]),
    ('fq-ok-load', 'ok', P, [(LOA, """                freqs.push_back(word_obj["freq"].get<int>());
                alphabet.push_back(word_obj["vec"].get<IntSeq>());
""", """                IntSeq entry = word_obj["vec"].get<IntSeq>();
                int count = word_obj["freq"].get<int>();
                alphabet.push_back(entry);
                freqs.push_back(count);
""")]),
]
