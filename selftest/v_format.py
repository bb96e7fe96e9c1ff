"""C10: saving and loading agree on the format"""
S = 'core/src/main/cpp/interfaces/saver.h'
L = 'core/src/main/cpp/interfaces/loader.h'
IV = 'core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc'
P = ['C10']
V = [
    ('fm-key-renamed', P, P, [(S, 'dict["min_prob"]', 'dict["min_probability"]')]),
    ('fm-key-cond', P, P, [(S, 'word_obj["freq"] = freqs[i];', 'if (freqs[i] > 0) { word_obj["freq"] = freqs[i]; }')]),
    ('fm-fitted-cond', P, P, [(S, 'dict["fitted"] = int_vgram->fitted_;', 'if (int_vgram->fitted_) { dict["fitted"] = true; }')]),
    ('fm-fitted-swap', P, P, [(S, 'dict["fitted"] = int_vgram->fitted_;\n            dict["freqs_computed"] = int_vgram->freqs_computed_;',
                               'dict["fitted"] = int_vgram->freqs_computed_;\n            dict["freqs_computed"] = int_vgram->fitted_;')]),
    ('fm-load-swap', P, P, [(L, 'size, min_probability, fitted, freqs_computed);\n        }', 'size, min_probability, freqs_computed, fitted);\n        }')]),
    ('fm-fitted-string', P, P, [(S, 'add_fitted_info(dict, string_vgram->int_builder_.get());', '')]),
    ('fm-min-prob-int', P, P, [(L, 'min_probability = dict["min_prob"];', 'min_probability = dict["min_prob"].get<int>();')]),
    ('fm-min-prob-float', P, P, [(L, 'min_probability = dict["min_prob"];', 'min_probability = dict["min_prob"].get<float>();')]),
    ('fm-fitted-const', P, P, [(L, 'fitted = dict["fitted"].get<bool>();', 'fitted = true;')]),
    ('fm-ctor-fitted', P, P, [(IV, 'fitted_ = fitted;', 'fitted_ = freqs_computed;')]),
    ('fm-sort-first', P, P, [(S, 'return a.second < b.second;', 'return a.first < b.first;')]),
    ('fm-sort-desc', P, P, [(S, 'return a.second < b.second;', 'return a.second > b.second;')]),
    ('fm-no-sort', P, P, [(S, '''            std::sort(pairs.begin(), pairs.end(),
                      [](const std::pair<int, int> &a, const std::pair<int, int> &b) { return a.second < b.second; });
''', '')]),
    ('fm-second', P, P, [(S, 'coder_obj.push_back(p.first);', 'coder_obj.push_back(p.second);')]),
    ('fm-skip-symbol', P, P, [(S, 'coder_obj.push_back(p.first);', 'if (p.second >= 0 && p.first != 0) { coder_obj.push_back(p.first); }')]),
    ('fm-skip-entry', P, P, [(S, 'json word_obj;\n', 'if (freqs[i] == 0) { continue; }\n                json word_obj;\n')]),
    ('fm-skip-first', P, P, [(S, 'for (int i = 0; i < dict->size(); i++)', 'for (int i = 1; i < dict->size(); i++)')]),
    ('fm-skip-last', P, P, [(S, 'for (int i = 0; i < dict->size(); i++)', 'for (int i = 0; i + 1 < dict->size(); i++)')]),
    ('fm-load-break', P, P, [(L, 'freqs.push_back(word_obj["freq"].get<int>());', 'if (freqs.size() >= 65536) { break; }\n                freqs.push_back(word_obj["freq"].get<int>());')]),
    ('fm-load-skip', P, P, [(L, 'freqs.push_back(word_obj["freq"].get<int>());', 'if (word_obj["freq"].get<int>() == 0) { continue; }\n                freqs.push_back(word_obj["freq"].get<int>());')]),
    ('fm-load-coder-twice', P, P, [(L, 'coder->encode(std::vector<int>(1, n));', 'coder->encode(std::vector<int>(1, n));\n                coder->encode(std::vector<int>(1, n));')]),
    ('fm-load-coder-skip', P, P, [(L, 'coder->encode(std::vector<int>(1, n));', 'if (n >= 0) { coder->encode(std::vector<int>(1, n)); }')]),
    ('fm-load-no-coder', P, P, [(L, '            read_coder(dict, coder);\n', '')]),
    ('fm-other-coder', P, P, [(L, 'return new IntVGram(coder, freqs,', 'return new IntVGram(std::make_shared<SeqCoder>(), freqs,')]),
    ('fm-text-any', P, P, [(L, 'if (vec.size() == 1) {', 'if (!vec.empty()) {')]),
    ('fm-text-code', P, P, [(L, 'const std::vector<int> vec = coder->decode(word_obj["vec"].get<IntSeq>());', 'const std::vector<int> vec = word_obj["vec"].get<IntSeq>();')]),
    ('fm-text-codes-written', P, P, [(S, 'tokenizer->decode(int_stream_vgram->get_coder()->decode(dict->get(i)))', 'tokenizer->decode(dict->get(i))')]),
    ('fm-text-single', P, P, [(S, 'if (tokenizer != nullptr) {', 'if (tokenizer != nullptr && dict->get(i).size() > 1) {')]),
    ('fm-text-i1', P, P, [(S, 'word_obj["text"] = tokenizer->decode(int_stream_vgram->get_coder()->decode(dict->get(i)));', 'word_obj["text"] = tokenizer->decode(int_stream_vgram->get_coder()->decode(dict->get(dict->size() - 1 - i)));')]),
    ('fm-no-text-arg', P, P, [(S, 'add_base_info(dict, string_vgram->int_builder_.get(), string_vgram->tokenizer_);', 'add_base_info(dict, string_vgram->int_builder_.get(), nullptr);')]),
    ('fm-freq-half', P, P, [(S, 'word_obj["freq"] = freqs[i];', 'word_obj["freq"] = freqs[i] / 2;')]),
    ('fm-vec-cut', P, P, [(S, 'word_obj["vec"] = json(dict->get(i));', 'IntSeq vec = dict->get(i);\n                if (vec.size() > 255) { vec.resize(255); }\n                word_obj["vec"] = vec;')]),
    # the same format, written differently
    ('fm-ok-alphabet', 'ok', P, [(S, 'word_obj["vec"] = json(dict->get(i));', 'word_obj["vec"] = dict->alphabet()[i];')]),
    ('fm-ok-cmp', 'ok', P, [(S, 'return a.second < b.second;', 'return b.second > a.second;')]),
    ('fm-ok-local', 'ok', P, [(S, 'word_obj["vec"] = json(dict->get(i));\n', 'const IntSeq &entry = dict->get(i);\n                word_obj["freq"] = 0;\n                word_obj["vec"] = entry;\n')]),
    ('fm-ok-order', 'ok', P, [(S, 'dict["size"] = int_stream_vgram->size_;\n            dict["min_prob"] = int_stream_vgram->min_probability_;', 'dict["min_prob"] = int_stream_vgram->min_probability_;\n            dict["size"] = int_stream_vgram->size_;')]),
    ('fm-ok-inline', 'ok', P, [(L, '            read_coder(dict, coder);\n', '            for (const auto &symbol : dict["coder"]) {\n                const int n = symbol.get<int>();\n                coder->encode(IntSeq{n});\n            }\n')]),
    ('fm-ok-index', 'ok', P, [(L, '''            for (int n : dict["coder"]) {
                coder->encode(std::vector<int>(1, n));
            }''', '''            const json &codes = dict["coder"];
            for (size_t i = 0; i < codes.size(); ++i) {
                coder->encode(std::vector<int>(1, codes[i].get<int>()));
            }''')]),
    ('fm-ok-ctor', 'ok', P, [(IV, 'fitted_ = fitted;', 'const bool was_fitted = fitted;\n    fitted_ = was_fitted;')]),
    ('fm-ok-continue', 'ok', P, [(L, '''                if (vec.size() == 1) {
                    std::string key = word_obj["text"].get<std::string>();
                    forward_map[key] = vec[0];
                }''', '''                if (vec.size() != 1) {
                    continue;
                }
                forward_map[word_obj["text"].get<std::string>()] = vec.front();''')]),
    ('fm-ok-helper', 'ok', P, [(S, '''            json coder_obj;
            for (const auto &p : pairs) {
                coder_obj.push_back(p.first);
            }
            return coder_obj;
        }
''', '''            return symbols_of(pairs);
        }

        static json symbols_of(const std::vector<std::pair<int, int>> &pairs) {
            json result;
            for (size_t i = 0; i < pairs.size(); i++) {
                result.push_back(pairs[i].first);
            }
            return result;
        }
''')]),
    ('fm-ok-extra', 'ok', P, [(S, 'dict["size"] = int_stream_vgram->size_;', 'dict["size"] = int_stream_vgram->size_;\n            dict["version"] = 1;')]),
    ('fm-ok-at', 'ok', P, [(L, 'fitted = dict["fitted"].get<bool>();', 'fitted = dict.at("fitted").get<bool>();')]),
    ('fm-ok-getto', 'ok', P, [(L, 'size = dict["size"];', 'const int saved_size = dict["size"].get<int>();\n            size = saved_size;')]),
]
