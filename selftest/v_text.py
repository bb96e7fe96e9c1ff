G = 'core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc'
GH = 'core/src/main/cpp/interfaces/vgram_builders/string_vgram.h'
M = 'core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc'
I = 'core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc'
IV = 'core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc'
T = 'core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc'
S = 'core/src/main/cpp/interfaces/saver.h'
L = 'core/src/main/cpp/interfaces/loader.h'
P = ['C30']
LOOP = """    for (int token_id : tokens_ids) {
        vector<int> token_raw_representation = stream_builder_->get_dict()->alphabet()[token_id];
        vector<int> token_int_representation = stream_builder_->get_coder()->decode(token_raw_representation);
        token_words.push_back(tokenizer_->decode(token_int_representation));
    }
"""
W = """        for (int word_id : coded_text_by_token_ids) {
            if (!decoded_words.empty()) {
                decoded_words += " ";
            }
            decoded_words += tokenizer_->decode(alphabet[word_id]);
        }
"""


def m(a, b):
    assert a in LOOP
    return [(M, LOOP, LOOP.replace(a, b))]


def w(a, b):
    assert a in W
    return [(G, W, W.replace(a, b))]


V = [
    ('tx-noundo', ['C30'], P, m("tokenizer_->decode(token_int_representation)", "tokenizer_->decode(token_raw_representation)")),
    ('tx-twice', ['C30'], P, m("get_coder()->decode(token_raw_representation)", "get_coder()->decode(stream_builder_->get_coder()->decode(token_raw_representation))")),
    ('tx-recode', ['C30'], P, m("get_coder()->decode(token_raw", "get_coder()->encode_immutable(token_raw")),
    ('tx-next', ['C30'], P, m("alphabet()[token_id]", "alphabet()[token_id + 1]")),
    ('tx-bytoken', ['C30'], P, [(M, LOOP, LOOP.replace("tokens_ids", "intSeq"))]),
    ('tx-position', ['C30'], P, [(M, LOOP, LOOP.replace("for (int token_id : tokens_ids) {", "for (int k = 0; k < tokens_ids.size(); k++) {").replace("token_id]", "k]"))]),
    ('tx-parent', ['C30'], P, m("alphabet()[token_id]", "get(stream_builder_->get_dict()->parent(token_id))")),
    ('tx-parse-pop', ['C30'], P, [(M, "    IntSeq tokens_ids = stream", "    if (intSeq.size() > 1)\n        intSeq.pop_back();\n    IntSeq tokens_ids = stream")]),
    ('tx-parse-code', ['C30'], P, [(M, "stream_builder_->parse(intSeq)", "stream_builder_->parse(stream_builder_->get_coder()->encode_immutable(intSeq))")]),
    ('tx-alpha-raw', ['C30'], P, [(M, "tokenizer_->decode(stream_builder_->alphabet())", "tokenizer_->decode(stream_builder_->get_dict()->alphabet())")]),
    ('tx-accept-code', ['C30'], P, [(M, "stream_builder_->accept(tokenizer_->transform(seq))", "stream_builder_->accept(stream_builder_->get_coder()->encode(tokenizer_->transform(seq)))")]),
    ('tx-accept-some', ['C30'], P, [(M, "    stream_builder_->accept(tokenizer_->transform(seq));", "    if (seq.size() > 1)\n        stream_builder_->accept(tokenizer_->transform(seq));")]),
    ('tx-accept-twice', ['C30'], P, [(M, "    stream_builder_->accept(tokenizer_->transform(seq));", "    IntSeq codes = tokenizer_->transform(seq);\n    stream_builder_->accept(codes);\n    stream_builder_->accept(codes);")]),
    ('tx-accept-cut', ['C30'], P, [(M, "tokenizer_->transform(seq));\n}\n\nvector", "tokenizer_->transform(seq.substr(0, 1000)));\n}\n\nvector")]),
    ('tx-fit-other', ['C30'], P, [(G, "int_builder_->fit(tokenizer_->transform(seqs));", "CharTokenizer t;\n    int_builder_->fit(t.transform(seqs));")]),
    ('tx-fit-none', ['C30'], P, [(G, "    int_builder_->fit(tokenizer_->transform(seqs));\n", "    tokenizer_->transform(seqs);\n")]),
    ('tx-tr-other', ['C30'], P, w("tokenizer_->decode(alphabet[word_id])", "tokenizer_->decode(coded_text_by_token_ids)")),
    ('tx-tr-one', ['C30'], P, w("alphabet[word_id]", "IntSeq(1, word_id)")),
    ('tx-tr-pos', ['C30'], P, w("alphabet[word_id]", "alphabet[decoded_texts.size()]")),
    ('tx-tr-skip', ['C30'], P, w("            decoded_words += tok", "            if (word_id > 0)\n                decoded_words += tok")),
    ('tx-tr-dup', ['C30'], P, w("            decoded_words += tok", "            decoded_words += tokenizer_->decode(alphabet[word_id]);\n            decoded_words += tok")),
    ('tx-int-plain', ['C30'], P, [(I, "dict_->parse(coder_->encode_immutable(seq), ", "dict_->parse(seq, ")]),
    ('tx-int-alpha', ['C30'], P, [(I, "alpha.push_back(coder_->decode(a));", "alpha.push_back(a);")]),
    ('tx-int-acc', ['C30'], P, [(I, "builder_->accept(coder_->encode(seq));", "coder_->encode(seq);\n    builder_->accept(seq);")]),
    ('tx-int-accid', ['C30'], P, [(I, "builder_->accept(coder_->encode(seq));", "coder_->encode(seq);\n    builder_->accept(parse(seq));")]),
    ('tx-fit-plain', ['C30'], P, [(IV, "dict_->parse(coder_->encode(seq), freqs", "dict_->parse(seq, freqs")]),
    ('tx-fit-freq', ['C30'], P, [(IV, "        for (int symb : result) {", "        for (int symb : coder_->encode(seq)) {")]),
    ('tx-norm', ['C30'], P, [(T, "tokenize(normalize(seq))", "tokenize(seq)")]),
    ('tx-save-text', ['C30'], P, [(S, "tokenizer->decode(int_stream_vgram->get_coder()->decode(dict->get(i)))", "tokenizer->decode(dict->get(i))")]),
    ('tx-load-text', ['C30'], P, [(L, "coder->decode(word_obj[\"vec\"].get<IntSeq>())", "coder->decode(coder->decode(word_obj[\"vec\"].get<IntSeq>()))")]),
    # the same behaviour
    ('tx-ok-get', 'ok', P, m("stream_builder_->get_dict()->alphabet()[token_id]", "stream_builder_->get_dict()->get(token_id)")),
    ('tx-ok-oneline', 'ok', P, [(M, LOOP, """    auto dict = stream_builder_->get_dict();
    auto coder = stream_builder_->get_coder();
    token_words.reserve(tokens_ids.size());
    for (size_t k = 0; k < tokens_ids.size(); ++k) {
        token_words.push_back(tokenizer_->decode(coder->decode(dict->get(tokens_ids[k]))));
    }
""")]),
    ('tx-ok-alpha', 'ok', P, [(M, LOOP, """    const vector<IntSeq> entries = stream_builder_->alphabet();
    for (int token_id : tokens_ids) {
        token_words.push_back(tokenizer_->decode(entries[token_id]));
    }
""")]),
    ('tx-ok-texts', 'ok', P, [(M, LOOP, """    const vector<string> entries = alphabet();
    for (int token_id : tokens_ids) {
        token_words.push_back(entries[token_id]);
    }
""")]),
    ('tx-ok-temp', 'ok', P, [(M, "    stream_builder_->accept(tokenizer_->transform(seq));", "    const IntSeq codes = tokenizer_->transform(seq);\n    stream_builder_->accept(codes);")]),
    ('tx-ok-fitloop', 'ok', P, [(G, "    int_builder_->fit(tokenizer_->transform(seqs));", "    std::vector<IntSeq> codes;\n    for (const std::string &seq : seqs)\n        codes.push_back(tokenizer_->transform(seq));\n    int_builder_->fit(codes);")]),
    ('tx-ok-word', 'ok', P, w("            decoded_words += tokenizer_->decode(alphabet[word_id]);", "            const IntSeq &word = alphabet[word_id];\n            decoded_words += tokenizer_->decode(word);")),
    ('tx-ok-index', 'ok', P, [(G, W, """        for (size_t k = 0; k < coded_text_by_token_ids.size(); ++k) {
            if (k > 0) {
                decoded_words += " ";
            }
            decoded_words += tokenizer_->decode(alphabet[coded_text_by_token_ids[k]]);
        }
""")]),
    ('tx-ok-helper', 'ok', P, w("tokenizer_->decode(alphabet[word_id])", "word_text(alphabet, word_id)") + [(G, "void StringVGram::save", "std::string StringVGram::word_text(const std::vector<IntSeq> &alphabet, int id) const {\n    return tokenizer_->decode(alphabet[id]);\n}\n\nvoid StringVGram::save"), (GH, "    private:", "    private:\n        std::string word_text(const std::vector<IntSeq> &alphabet, int id) const;\n")]),
    ('tx-ok-texts2', 'ok', P, [(G, "std::vector<IntSeq> alphabet = int_builder_->alphabet();", "std::vector<std::string> words = tokenizer_->decode(int_builder_->alphabet());"), (G, "tokenizer_->decode(alphabet[word_id])", "words[word_id]")]),
    ('tx-ok-codes', 'ok', P, [(I, "dict_->parse(coder_->encode_immutable(seq), ", "const IntSeq codes = coder_->encode_immutable(seq);\n    dict_->parse(codes, ")]),
    ('tx-ok-norm', 'ok', P, [(T, "tokenize(normalize(seq));", "{};\n    const std::string text = normalize(seq);\n    tokens = tokenize(text);")]),
]
