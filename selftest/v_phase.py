A = 'core/src/main/cpp/algorithm/'
IF = 'core/src/main/cpp/interfaces/'
B, BH = A + 'int_vgram_builder_p.cc', A + 'int_vgram_builder_p.h'
S = A + 'stat_dict_p.cc'
IS = IF + 'vgram_builders/int_stream_vgram.cc'
P = ['C12']
FL = "    populate_ = !populate_;\n"
ACC = "    if (current_->enough(prob_found_) || current_->power_ > kMaxPower) {\n        update();\n    }\n"
GU = "    if (!((current_->enough(prob_found_) || current_->power_ > kMaxPower)))\n        return;\n"
PUB = "        result_ = result;\n    }\n    current_ = result;\n"
LOOP = "    int alpha_accum_num = 0;\n"
V = [
    ('ph-pub-both', P, P, [(B, PUB, "    }\n    result_ = result;\n    current_ = result;\n")]),
    ('ph-pub-grown', P, P, [(B, PUB, PUB.replace("    current_ = result;\n", "    current_ = result;\n    if (no_rate_increase_turns_ > 3)\n        result_ = current_;\n"))]),
    ('ph-pub-prev', P, P, [(B, "        result_ = result;\n", "        result_ = current_;\n")]),
    ('ph-flip-cond', P, P, [(B, FL, "    if (current_->size() > alphabet_size)\n        populate_ = !populate_;\n")]),
    ('ph-flip-early', P, P, [(B, FL, ""), (B, LOOP, "    if (no_rate_increase_turns_ < 10)\n        populate_ = !populate_;\n" + LOOP)]),
    ('ph-flip-twice', P, P, [(B, FL, FL + "    if (size_ < 0) populate_ = !populate_;\n")]),
    ('ph-both', P, P, [(B, "    } else {\n        double min_prob_result = current_->reduce", "    }\n    if (!populate_ || no_rate_increase_turns_ > 3) {\n        double min_prob_result = current_->reduce")]),
    ('ph-no-gate', P, P, [(B, ACC, "    update();\n"), (B, GU, "")]),
    ('ph-gate-size', P, P, [(B, ACC, "    if (current_->enough(prob_found_) || current_->power_ > kMaxPower || current_->size() > 2 * size_) {\n        update();\n    }\n"), (B, GU, "")]),
    ('ph-enough-rev', P, P, [(S, "power_ > -log(prob_found) / min_probability_", "power_ < -log(prob_found) / min_probability_")]),
    ('ph-choose', P, P, [(B, "    return result_ != nullptr ? result_->dict_ : current_->dict_;", "    return current_->dict_;")]),
    ('ph-choose-alpha', P, P, [(B, "    return std::make_shared<IntDictImpl>(result_->alphabet());", "    return std::make_shared<IntDictImpl>(current_->alphabet());")]),
    ('ph-choose-freqs', P, P, [(B, "        return result_freqs(current_, freqs);\n    }\n    return result_freqs(result_, freqs);", "        return result_freqs(current_, freqs);\n    }\n    return result_freqs(populate_ ? result_ : current_, freqs);")]),
    ('ph-choose-flag', P, P, [(B, "    return result_ != nullptr ? result_->code_length_per_char() : current_->code_length_per_char();", "    return populate_ ? result_->code_length_per_char() : current_->code_length_per_char();")]),
    ('ph-reset', P, P, [(B, "    populate_ = !populate_;", "    populate_ = true;")]),
    ('ph-get-flip', P, P, [(B, "double IntVGramBuilderImpl::get_min_probability() const {", "double IntVGramBuilderImpl::get_min_probability() const {\n    const_cast<IntVGramBuilderImpl *>(this)->populate_ = true;")]),
    ('ph-ok-const', 'ok', P, [(B, FL, "    if (populate_)\n        populate_ = false;\n    else\n        populate_ = true;\n")]),
    ('ph-ok-branch', 'ok', P, [(B, FL, ""), (B, "        result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);\n    } else {", "        result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);\n        populate_ = false;\n    } else {"), (B, "        result_ = result;\n", "        result_ = result;\n        populate_ = true;\n")]),
    ('ph-ok-gate', 'ok', P, [(B, ACC, "    update();\n")]),
    ('ph-ok-gate2', 'ok', P, [(B, GU, "")]),
    ('ph-ok-gatevar', 'ok', P, [(B, ACC, "    const bool done = current_->enough(prob_found_) || current_->power_ > kMaxPower;\n    if (done) {\n        update();\n    }\n"), (B, GU, "")]),
    ('ph-ok-gatefn', 'ok', P, [(B, ACC, "    if (phase_over()) {\n        update();\n    }\n"), (B, GU, "    if (!phase_over())\n        return;\n"), (B, "void IntVGramBuilderImpl::accept", "bool IntVGramBuilderImpl::phase_over() const {\n    if (current_->power_ > kMaxPower)\n        return true;\n    return current_->enough(prob_found_);\n}\n\nvoid IntVGramBuilderImpl::accept"), (BH, "    void update();", "    void update();\n    bool phase_over() const;")]),
    ('ph-ok-swap', 'ok', P, [(B, "    if (populate_) {\n        if (verbose_ > 0) {", "    const bool growing = populate_;\n    populate_ = !growing;\n    if (growing) {\n        if (verbose_ > 0) {"), (B, FL, "")]),
    ('ph-ok-best', 'ok', P, [(B, "    return result_ != nullptr ? result_->dict_ : current_->dict_;", "    const std::shared_ptr<StatDictImpl> &best = result_ ? result_ : current_;\n    return best->dict_;")]),
    ('ph-ok-bestfn', 'ok', P, [(B, "    return result_ != nullptr ? result_->dict_ : current_->dict_;", "    return best()->dict_;"), (B, "std::shared_ptr<IntDict> IntVGramBuilderImpl::result() const", "std::shared_ptr<StatDictImpl> IntVGramBuilderImpl::best() const {\n    if (result_ == nullptr)\n        return current_;\n    return result_;\n}\n\nstd::shared_ptr<IntDict> IntVGramBuilderImpl::result() const"), (BH, "    void update();", "    void update();\n    std::shared_ptr<StatDictImpl> best() const;"), (B, "    return result_ != nullptr ? result_->code_length_per_char() : current_->code_length_per_char();", "    return best()->code_length_per_char();")]),
    ('ph-ok-split', 'ok', P, [(B, "        double min_prob_result = current_->reduce(size_ - alphabet_size, &new_dict, &freqs);\n        result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);\n        result_ = result;", "        prune(alphabet_size);\n        result = result_;"), (B, "void IntVGramBuilderImpl::update() {", "void IntVGramBuilderImpl::prune(int alphabet_size) {\n    std::vector<IntSeq> new_dict;\n    IntSeq freqs;\n    const double p = current_->reduce(size_ - alphabet_size, &new_dict, &freqs);\n    result_ = std::make_shared<StatDictImpl>(new_dict, p, &freqs);\n}\n\nvoid IntVGramBuilderImpl::update() {"), (BH, "    void update();", "    void update();\n    void prune(int alphabet_size);")]),
]
