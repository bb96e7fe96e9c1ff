I = 'core/src/main/cpp/interfaces/'
VB = I + 'vgram_builders/'
S = VB + 'int_stream_vgram.cc'
D = 'core/src/main/cpp/algorithm/int_dict_p.cc'
C = ['C03']
V = [
    ('inf encode learns', C, C, [(S, 'dict_->parse(coder_->encode_immutable(seq), freqs_', 'dict_->parse(coder_->encode(seq), freqs_')]),
    ('inf accept in transform', C, C, [(VB + 'int_vgram.cc', '        IntSeq result = parse(seq);', '        builder_->accept(coder_->encode_immutable(seq));\n        IntSeq result = parse(seq);')]),
    ('inf save resizes', C, C, [(I + 'saver.h', '            IntSeq freqs = int_stream_vgram->freqs();', '            IntSeq freqs;\n            int_stream_vgram->builder_->result_freqs(&freqs);')]),
    ('inf string transform fits', C, C, [(VB + 'string_vgram.cc', '    std::vector<std::string> decoded_texts;\n', '    std::vector<std::string> decoded_texts;\n    if (int_builder_->freqs().empty()) int_builder_->fit(tokenizer_->transform(seqs));\n')]),
    ('inf parse updates', C, C, [(VB + 'string_stream_vgram.cc', '    IntSeq tokens_ids = stream_builder_->parse(intSeq);', '    stream_builder_->update_dict();\n    IntSeq tokens_ids = stream_builder_->parse(intSeq);')]),
    ('inf tokenizer decode caches', C, C, [(I + 'tokenizers/base_tokenizer.cc', '    string decoded_seq;\n    for', '    string decoded_seq;\n    for (auto i : seq) if (backward_coder_.count(i) == 0) const_cast<BaseTokenizer *>(this)->backward_coder_[i];\n    for')]),
    ('ok inf helper', 'ok', C, [(S, '''    builder_->alpha();
''', ''), (S, '''    dict_->parse(coder_->encode_immutable(seq), freqs_, total_freqs_, &result);
''', '''    std::shared_ptr<IntDict> dict = dict_;
    const IntSeq coded = coder_->encode_immutable(seq);
    const auto &freqs = freqs_;
    dict->parse(coded, freqs, total_freqs_, &result);
''')]),
    ('ok search helper', 'ok', C, [(D, '''        int ind = size();
        seqs_.emplace_back(1, seq[0]);
        parents_.push_back(-1);
        new_symbols_[seq[0]] = ind;
        return ind;
''', '''        auto append = [this](int symbol) {
            const int ind = size();
            seqs_.push_back(IntSeq(1, symbol));
            parents_.emplace_back(-1);
            new_symbols_.emplace(symbol, ind);
            return ind;
        };
        return append(seq[0]);
''')]),
]
