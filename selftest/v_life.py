"""C26: models can be used in every state of their life"""
B = 'core/src/main/cpp/algorithm/int_vgram_builder_p.cc'
S = 'core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc'
SH = 'core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h'
I = 'core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc'
Y = 'core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc'
V_ = 'core/src/main/cpp/interfaces/saver.h'
P = ['C26']
ALPHA = """    if (result_ == nullptr) {
        return std::make_shared<IntDictImpl>(current_->alphabet());
    }
    return std::make_shared<IntDictImpl>(result_->alphabet());
"""
RF = """    if (result_ == nullptr) {
        return result_freqs(current_, freqs);
    }
    return result_freqs(result_, freqs);
"""
CL = 'return result_ != nullptr ? result_->code_length_per_char() : current_->code_length_per_char();'
MP = 'return result_ != nullptr ? result_->min_probability_ : -1.0;'
RE = 'return result_ != nullptr ? result_->dict_ : current_->dict_;'
V = [
    ('li-alpha', P, P, [(B, ALPHA, '    return std::make_shared<IntDictImpl>(result_->alphabet());\n')]),
    ('li-freqs', P, P, [(B, RF, '    return result_freqs(result_, freqs);\n')]),
    ('li-length', P, P, [(B, CL, 'return result_->code_length_per_char();')]),
    ('li-prob', P, P, [(B, MP, 'return result_->min_probability_;')]),
    ('li-result', P, P, [(B, RE, 'return result_->dict_;')]),
    ('li-inverted', P, P, [(B, 'return result_ != nullptr ? result_->code', 'return result_ == nullptr ? result_->code')]),
    ('li-populate', P, P, [(B, CL, 'return populate_ ? result_->code_length_per_char() : current_->code_length_per_char();')]),
    ('li-power', P, P, [(B, MP, 'return current_->power_ > 0 ? result_->min_probability_ : -1.0;')]),
    ('li-accept-null', P, P, [(B, "        result_ = result;\n    }\n    current_ = result;", "        result_ = result;\n    }\n    current_ = populate_ ? result : result_;"), (B, '        result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);\n    } else', '        result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);\n        result_ = nullptr;\n    } else'), (B, MP, 'return result_->min_probability_;')]),
    ('li-init-current', P, P, [(B, '    current_ = std::make_shared<StatDictImpl>(alphabet.alphabet());\n    result_ = nullptr;', '    if (alphabet.size() > 0) {\n        current_ = std::make_shared<StatDictImpl>(alphabet.alphabet());\n    }\n    result_ = nullptr;')]),
    ('li-loaded-current', P, P, [(B, '    current_ = result;\n    result_ = result;\n}', '    result_ = result;\n}')]),
    ('li-ctor-current', P, P, [(B, '    current_ = std::make_shared<StatDictImpl>();\n', '')]),
    ('li-late-dict', P, P, [(S, '    dict_ = std::make_shared<IntDictImpl>();\n', '')]),
    ('li-late-coder', P, P, [(S, '    coder_ = std::make_shared<SeqCoder>();\n', '')]),
    ('li-lazy-coder', P, P, [(S, '    coder_ = std::make_shared<SeqCoder>();\n', ''), (S, '    builder_->accept(coder_->encode(seq));', '    if (!coder_) {\n        coder_ = std::make_shared<SeqCoder>();\n    }\n    builder_->accept(coder_->encode(seq));')]),
    ('li-loaded-builder', P, P, [(S, '    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, alphabet, min_probability, 1);\n', '    if (!alphabet.empty()) {\n        builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, alphabet, min_probability, 1);\n    }\n')]),
    ('li-drop-builder', P, P, [(I, '    fitted_ = true;\n    if (!recompute_freqs(seqs)) {\n        return nullptr;\n    }\n    freqs_computed_ = true;', '    fitted_ = true;\n    if (!recompute_freqs(seqs)) {\n        return nullptr;\n    }\n    builder_.reset();\n    freqs_computed_ = true;')]),
    ('li-not-fitted', P, P, [(I, '    std::vector<IntSeq> res;\n    res.reserve(seqs.size());\n    for (const IntSeq &seq : seqs) {', '    if (!fitted_) {\n        throw std::logic_error("not fitted");\n    }\n    std::vector<IntSeq> res;\n    res.reserve(seqs.size());\n    for (const IntSeq &seq : seqs) {')]),
    ('li-save-unfitted', P, P, [(I, '    Saver::save(this, filename, tokenizer);', '    if (!freqs_computed_) {\n        throw std::runtime_error("nothing to save");\n    }\n    Saver::save(this, filename, tokenizer);')]),
    ('li-get-empty', P, P, [(S, '    dict_ = builder_->result();\n    freqs_.clear();', '    if (freqs_.empty()) {\n        dict_ = nullptr;\n        return;\n    }\n    dict_ = builder_->result();\n    freqs_.clear();')]),
    ('li-tok-default', P, P, [(Y, '          tokenizer_(std::make_shared<CharTokenizer>()) {}', '          tokenizer_(nullptr) {}')]),
    ('li-saver-tok', P, P, [(V_, 'if (tokenizer', 'if (true || tokenizer')]),
    # same behaviour
    ('li-ok-bool', 'ok', P, [(B, RF, '    return result_freqs(result_ ? result_ : current_, freqs);\n'), (B, MP, 'return !result_ ? -1.0 : result_->min_probability_;')]),
    ('li-ok-pick', 'ok', P, [(B, ALPHA, '    std::shared_ptr<StatDictImpl> d = result_;\n    if (!d) {\n        d = current_;\n    }\n    return std::make_shared<IntDictImpl>(d->alphabet());\n')]),
    ('li-ok-early', 'ok', P, [(B, CL, 'if (result_) {\n        return result_->code_length_per_char();\n    }\n    return current_->code_length_per_char();')]),
    ('li-ok-get', 'ok', P, [(B, MP, 'const StatDictImpl *r = result_.get();\n    if (r == nullptr) {\n        return -1.0;\n    }\n    return r->min_probability_;')]),
    ('li-ok-flag', 'ok', P, [(B, RE, 'const bool none = result_ == nullptr;\n    if (none) {\n        return current_->dict_;\n    }\n    return result_->dict_;')]),
    ('li-ok-lambda', 'ok', P, [(B, RE, 'const auto has = [this]() { return result_ != nullptr; };\n    return has() ? result_->dict_ : current_->dict_;')]),
    ('li-ok-never-null', 'ok', P, [(B, '    current_ = std::make_shared<StatDictImpl>();\n    result_ = nullptr;', '    current_ = std::make_shared<StatDictImpl>();\n    result_ = std::shared_ptr<StatDictImpl>();')]),
    ('li-ok-lazy', 'ok', P, [(S, 'IntSeq result;\n//    if (dict_)', 'IntSeq result;\n    if (!dict_) {\n        return result;\n    }\n//    if (dict_)')]),
]
