A = 'core/src/main/cpp/algorithm/'
I = 'core/src/main/cpp/interfaces/'
V_ = I + 'vgram_builders/'
T = I + 'tokenizers/'
B = 'binding/src/main/cpp/'
V = [
 ('r01 dp helper + index loops', 'ok', [], [(A+'stat_dict_p.cc', """    for (int pos = 0; pos < len; pos++) {
        IntSeq suffix(seq.begin() + pos, seq.end());
        int sym = search(suffix, excludes);
        if (sym < 0)
            continue;
        do {
            auto sym_len = get(sym).size();
            double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1) : 0) - log(total_freq + size());
            if (score[sym_len + pos] < score[pos] + sym_log_prob)
            {
                score[sym_len + pos] = score[pos] + sym_log_prob;
                symbols[sym_len + pos] = sym;
            }
        }
        while ((sym = parent(sym)) >= 0);
    }
    if (len > 0""", """    const auto log_prob = [&](int sym) {
        double numerator = 0;
        if (sym < static_cast<int>(freqs.size()))
            numerator = log(freqs[sym] + 1);
        return numerator - log(total_freq + size());
    };
    size_t pos0 = 0;
    while (pos0 < len) {
        const IntSeq rest(seq.begin() + pos0, seq.end());
        for (int sym = search(rest, excludes); sym >= 0; sym = parent(sym)) {
            const size_t end = pos0 + get(sym).size();
            const double candidate = score[pos0] + log_prob(sym);
            if (candidate > score[end]) {
                symbols[end] = sym;
                score[end] = candidate;
            }
        }
        ++pos0;
    }
    if (len > 0""")]),
 ('r02 backtrack with reverse', 'ok', [], [(A+'int_dict_p.cc', """    IntSeq solution(len + 1);
    size_t pos = len;
    int index = 0;
    while (pos > 0) {
        int sym = symbols[pos];
        solution[len - (++index)] = sym;
        pos -= get(sym).size();
    }
    builder->insert(builder->end(), solution.begin() + len - index, solution.end() - 1);
    return score[len];""", """    IntSeq reversed;
    for (size_t end = len; end > 0; end -= get(symbols[end]).size()) {
        reversed.push_back(symbols[end]);
    }
    builder->insert(builder->end(), reversed.rbegin(), reversed.rend());
    return score[len];""")]),
 ('r03 search split in three', 'ok', [], [(A+'int_dict_p.cc', """    if (!seq.empty()) {
        auto added = new_symbols_.find(seq[0]);
        if (added != new_symbols_.end() && (excludes == nullptr || excludes->count(added->second) == 0)) {
            return added->second;
        }
    }
    if (excludes == nullptr && !seq.empty()) {
        int ind = size();
        seqs_.emplace_back(1, seq[0]);
        parents_.push_back(-1);
        new_symbols_[seq[0]] = ind;
        return ind;
    } else {
        return -1;
    }
""", """    if (seq.empty())
        return -1;
    const int symbol = seq.front();
    const auto added = new_symbols_.find(symbol);
    const bool known = added != new_symbols_.end();
    if (known && (excludes == nullptr || excludes->find(added->second) == excludes->end()))
        return added->second;
    if (excludes != nullptr)
        return -1;
    const int ind = size();
    parents_.push_back(-1);
    seqs_.push_back(IntSeq(1, symbol));
    new_symbols_.emplace(symbol, ind);
    return ind;
""")]),
 ('r04 linear parse by position', 'ok', [], [(A+'int_dict_p.cc', """    IntSeq suffix = seq;
    while (!suffix.empty()) {
        int symbol = search(suffix, excludes);
        if (symbol < 0) {
            suffix = IntSeq(suffix.begin() + 1, suffix.end());
        } else {
            auto sym_len = get(symbol).size();
            suffix = IntSeq(suffix.begin() + sym_len, suffix.end());
            builder->push_back(symbol);
        }
    }
""", """    size_t at = 0;
    while (at < seq.size()) {
        const IntSeq rest(seq.begin() + at, seq.end());
        const int symbol = search(rest, excludes);
        if (symbol >= 0) {
            builder->push_back(symbol);
            at += get(symbol).size();
        } else {
            ++at;
        }
    }
""")]),
 ('r05 init with prefix helper', 'ok', [], [(A+'int_dict_p.cc', """        IntSeq current = seqs_[i];
        while (!parents_stack.empty()) {
            IntSeq prefix = parents_stack.back().first;
            if (std::mismatch(prefix.begin(), prefix.end(), current.begin()).first == prefix.end()) {
                parents_[i] = parents_stack.back().second;
                break;
            }
            parents_stack.pop_back();
        }
        parents_stack.emplace_back(current, i);""", """        const IntSeq &current = seqs_[i];
        const auto is_prefix = [&current](const IntSeq &prefix) {
            return prefix.size() <= current.size() && std::equal(prefix.begin(), prefix.end(), current.begin());
        };
        while (!parents_stack.empty() && !is_prefix(parents_stack.back().first))
            parents_stack.pop_back();
        if (!parents_stack.empty())
            parents_[i] = parents_stack.back().second;
        parents_stack.push_back(std::make_pair(current, i));""")]),
 ('r06 expand: pair split helper', 'ok', [], [(A+'stat_dict_p.cc', """    for (auto &pairs_freq : pairs_freqs_) {
        std::int64_t code = pairs_freq.first;
        int freq = pairs_freq.second;
        auto first = static_cast<int>(code >> 32);
        auto second = static_cast<int>(code & 0xFFFFFFFFL);
        start_with[first] += freq;
        ends_with[second] += freq;
    }
""", """    const auto left_of = [](std::int64_t key) { return static_cast<int>(key >> 32); };
    const auto right_of = [](std::int64_t key) { return static_cast<int>(key & 0xFFFFFFFFL); };
    for (auto it = pairs_freqs_.begin(); it != pairs_freqs_.end(); ++it) {
        start_with[left_of(it->first)] += it->second;
        ends_with[right_of(it->first)] += it->second;
    }
""")]),
 ('r07 update split in phases', 'ok', [], [(A+'int_vgram_builder_p.cc', """    current_ = result;
    int alpha_accum_num = 0;
    for (int i = 0; i < current_->size(); i++) {
        if (current_->parent(i) < 0) {
            if (alpha_accum_num >= alphabet_size) {
                symb_alphabet_.push_back(current_->get(i));
            }
            alpha_accum_num++;
        }
    }
    populate_ = !populate_;""", """    populate_ = !populate_;
    current_ = result;
    int base_seen = 0;
    const int count = current_->size();
    for (int i = 0; i < count; ++i) {
        if (current_->parent(i) >= 0)
            continue;
        if (base_seen++ >= alphabet_size)
            symb_alphabet_.push_back(current_->get(i));
    }""")]),
 ('r08 reduce computes power in pass', 'ok', [], [(A+'stat_dict_p.cc', """    double power = 0.0;
    for (const auto& item : items)
        power += item.count();
""", """    const double power = std::accumulate(items.begin(), items.end(), 0.0,
                                         [](double sum, const StatItem& item) { return sum + item.count(); });
    new_dict->reserve(new_dict->size() + items.size());
""")]),
 ('r09 filter: resize via erase', 'ok', [], [(A+'stat_dict_p.cc', """    while (items->size() > std::min((int)items->size(), slots))
        items->pop_back();
""", """    const size_t keep = std::min(items->size(), static_cast<size_t>(std::max(slots, 0)));
    items->erase(items->begin() + keep, items->end());
""")]),
 ('r10 stat_items guard clauses', 'ok', [], [(A+'stat_dict_p.cc', """        if (excludes->count(id) == 0) {
            int count = freq(id);""", """        const bool left_out = excludes->count(id) != 0;
        if (!left_out) {
            const int count = freq(id);""")]),
 ('r11 recompute with helper', 'ok', [], [(V_+'int_vgram.cc', """        for (int symb : result) {
            if (symb >= 0) {
                freqs_[symb]++;
            }
        }
        if (isTerminated()) {
            total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
            return false;
        }
    }
    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
    return true;""", """        for (size_t k = 0; k < result.size(); ++k) {
            const int symb = result[k];
            if (symb < 0)
                continue;
            freqs_[symb] += 1;
        }
        completed = !isTerminated();
        if (!completed)
            break;
    }
    total_freqs_ = 0;
    for (int f : freqs_)
        total_freqs_ += f;
    return completed;"""), (V_+'int_vgram.cc', "    for (const IntSeq &seq : seqs) {\n        IntSeq result;\n        dict_", "    bool completed = true;\n    for (const IntSeq &seq : seqs) {\n        IntSeq result;\n        dict_")]),
 ('r12 fit: while loops', 'ok', [], [(V_+'int_vgram.cc', """        for (int k = 0; k < seqs.size(); k++) {
            accept(seqs[generator() % seqs.size()]);
            if (isTerminated()) {
                return nullptr;
            }
        }
""", """        size_t left = seqs.size();
        while (left > 0) {
            const size_t chosen = generator() % seqs.size();
            accept(seqs.at(chosen));
            --left;
            if (isTerminated())
                return nullptr;
        }
""")]),
 ('r13 fit: finish helper', 'ok', [], [(V_+'int_vgram.cc', """    fitted_ = true;
    if (!recompute_freqs(seqs)) {
        return nullptr;
    }
    freqs_computed_ = true;
    return this;
}""", """    fitted_ = true;
    freqs_computed_ = recompute_freqs(seqs);
    return freqs_computed_ ? this : nullptr;
}""")]),
 ('r14 transform by index', 'ok', [], [(V_+'int_vgram.cc', """    for (const IntSeq &seq : seqs) {
        IntSeq result = parse(seq);
        res.push_back(result);
        if (isTerminated()) {
            break;
        }
    }
    return res;""", """    bool stop = false;
    for (auto it = seqs.cbegin(); it != seqs.cend() && !stop; ++it) {
        res.emplace_back(parse(*it));
        stop = isTerminated();
    }
    return res;""")]),
 ('r15 to_string with stringstream-less join', 'ok', [], [(V_+'int_vgram.cc', """        if (str.length() == 0) {
            str = "-1";
        }
        res.push_back(str);""", """        res.push_back(str.empty() ? std::string("-1") : str);""")]),
 ('r16 string transform helper', 'ok', [], [(V_+'string_vgram.cc', """        std::string decoded_words;
        for (int word_id : coded_text_by_token_ids) {
            if (!decoded_words.empty()) {
                decoded_words += " ";
            }
            decoded_words += tokenizer_->decode(alphabet[word_id]);
        }
        decoded_texts.push_back(decoded_words);""", """        decoded_texts.emplace_back();
        std::string &text = decoded_texts.back();
        for (auto id = coded_text_by_token_ids.begin(); id != coded_text_by_token_ids.end(); ++id) {
            const std::string word = tokenizer_->decode(alphabet.at(*id));
            text = text.empty() ? word : text + " " + word;
        }""")]),
 ('r17 stream text parse', 'ok', [], [(V_+'string_stream_vgram.cc', """    vector<string> token_words;
    for (int token_id : tokens_ids) {
        vector<int> token_raw_representation = stream_builder_->get_dict()->alphabet()[token_id];
        vector<int> token_int_representation = stream_builder_->get_coder()->decode(token_raw_representation);
        token_words.push_back(tokenizer_->decode(token_int_representation));
    }
    return token_words;""", """    const auto dict = stream_builder_->get_dict();
    const auto coder = stream_builder_->get_coder();
    vector<string> token_words(tokens_ids.size());
    std::transform(tokens_ids.begin(), tokens_ids.end(), token_words.begin(), [&](int id) {
        return tokenizer_->decode(coder->decode(dict->get(id)));
    });
    return token_words;"""), (V_+'string_stream_vgram.cc', "#include <utility>\n", "#include <utility>\n#include <algorithm>\n")]),
 ('r18 tokenizer: find/emplace', 'ok', [], [(T+'base_tokenizer.cc', """        if (forward_coder_.count(symb) == 0) {
            int code = static_cast<int>(backward_coder_.size());
            while (backward_coder_.count(code) != 0) { // codes of a loaded tokenizer may have gaps
                code++;
            }
            forward_coder_[symb] = code;
            backward_coder_[code] = symb;
        }
        coded_seq.push_back(forward_coder_.at(symb));""", """        auto known = forward_coder_.find(symb);
        if (known == forward_coder_.end()) {
            int code = static_cast<int>(backward_coder_.size());
            for (; backward_coder_.find(code) != backward_coder_.end(); ++code) {
            }
            backward_coder_.emplace(code, symb);
            known = forward_coder_.emplace(symb, code).first;
        }
        coded_seq.push_back(known->second);""")]),
 ('r19 tokenizer: code_of helper', 'ok', [], [(T+'base_tokenizer.cc', """    for (auto i : seq) {
        if (backward_coder_.count(i) > 0) {
            decoded_seq += backward_coder_.at(i);
        }
    }
    return decoded_seq;""", """    for (size_t k = 0; k != seq.size(); ++k) {
        const auto entry = backward_coder_.find(seq[k]);
        if (entry == backward_coder_.end())
            continue;
        decoded_seq.append(entry->second);
    }
    return decoded_seq;""")]),
 ('r20 char tokenizer one pass', 'ok', [], [(T+'char_tokenizer.cc', """        if (isalnum(static_cast<unsigned char>(c))) {
            res += c;
        }
    }
    std::transform(res.begin(), res.end(), res.begin(), [](unsigned char c) { return static_cast<char>(::tolower(c)); });
    return res;""", """        const auto byte = static_cast<unsigned char>(c);
        if (!isalnum(byte))
            continue;
        res.push_back(static_cast<char>(::tolower(byte)));
    }
    return res;""")]),
 ('r21 word tokenizer with find', 'ok', [], [(T+'word_tokenizer.cc', """    string current;
    for (char i : str) {
        if (i == ' ') {
            if (current != "") {
                tokens.push_back(current);
                current = "";
            }
        } else {
            current += i;
        }
    }
    if (current != "") {
        tokens.push_back(current);
    }
    return tokens;""", """    string::size_type begin = 0;
    while (begin < str.size()) {
        const auto space = str.find(' ', begin);
        const auto end = space == string::npos ? str.size() : space;
        if (end > begin)
            tokens.push_back(str.substr(begin, end - begin));
        begin = end + 1;
    }
    return tokens;""")]),
 ('r22 coder: emplace', 'ok', [], [(I+'seq_coder.cc', """        if (forward_code_.count(symbol) == 0) {
            int size = static_cast<int>(forward_code_.size());
            forward_code_[symbol] = size;
            backward_code_[size] = symbol;
        }
        result.push_back(forward_code_[symbol]);""", """        const int next = static_cast<int>(forward_code_.size());
        const auto inserted = forward_code_.emplace(symbol, next);
        if (inserted.second)
            backward_code_.emplace(next, symbol);
        result.push_back(inserted.first->second);""")]),
 ('r23 saver: entry helper', 'ok', [], [(I+'saver.h', """                json word_obj;
                word_obj["vec"] = json(dict->get(i));
                word_obj["freq"] = freqs[i];
                if (tokenizer != nullptr) {
                    word_obj["text"] = tokenizer->decode(int_stream_vgram->get_coder()->decode(dict->get(i)));
                }
                alpha.push_back(word_obj);""", """                const IntSeq &entry = dict->get(i);
                json word_obj;
                if (tokenizer) {
                    const IntSeq symbols = int_stream_vgram->get_coder()->decode(entry);
                    word_obj["text"] = tokenizer->decode(symbols);
                }
                word_obj["freq"] = freqs.at(i);
                word_obj["vec"] = entry;
                alpha.push_back(std::move(word_obj));""")]),
 ('r24 saver: write helper', 'ok', [], [(I+'saver.h', """            std::ofstream file(filename);
            file << std::setw(2) << dict << std::endl;
            file.close();
            if (!file) {
                throw""", """            const std::string text = dict.dump(2);
            std::ofstream file(filename);
            file << text << '\\n';
            file.flush();
            const bool written = file.good();
            file.close();
            if (!written || file.fail()) {
                throw""")]),
 ('r25 loader: iterate array', 'ok', [], [(I+'loader.h', """            for (const auto &word_obj : dict["alphabet"]) {
                freqs.push_back(word_obj["freq"].get<int>());
                alphabet.push_back(word_obj["vec"].get<IntSeq>());
            }""", """            const json &entries = dict["alphabet"];
            freqs.reserve(entries.size());
            alphabet.reserve(entries.size());
            for (auto entry = entries.begin(); entry != entries.end(); ++entry) {
                alphabet.push_back(entry->at("vec").get<IntSeq>());
                freqs.push_back(entry->at("freq").get<int>());
            }""")]),
 ('r26 loader: whole coder', 'ok', [], [(I+'loader.h', """            for (int n : dict["coder"]) {
                coder->encode(std::vector<int>(1, n));
            }""", """            coder->encode(dict["coder"].get<std::vector<int>>());""")]),
 ('r27 stream ctor order', 'ok', [], [(V_+'int_stream_vgram.cc', """    builder_ = std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size - 1, verbose));
    size_ = size;
    dict_ = std::make_shared<IntDictImpl>();
    coder_ = std::make_shared<SeqCoder>();
    freqs_ = IntSeq();
    total_freqs_ = 0;
""", """    size_ = size;
    coder_ = std::make_shared<SeqCoder>();
    dict_ = std::make_shared<IntDictImpl>();
    builder_ = std::make_shared<IntVGramBuilderImpl>(size - 1, verbose);
    total_freqs_ = 0;
""")]),
 ('r28 update_dict via swap', 'ok', [], [(V_+'int_stream_vgram.cc', """    freqs_.clear();
    builder_->result_freqs(&freqs_);
    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
""", """    IntSeq fresh;
    builder_->result_freqs(&fresh);
    total_freqs_ = std::accumulate(fresh.begin(), fresh.end(), 0);
    freqs_.swap(fresh);
""")]),
 ('r29 parse drops dead calls', 'ok', [], [(V_+'int_stream_vgram.cc', "    coder_->encode_immutable(seq);\n", "    const IntSeq coded = coder_->encode_immutable(seq);\n"), (V_+'int_stream_vgram.cc', "    builder_->alpha();\n", ""), (V_+'int_stream_vgram.cc', "    dict_->parse(coder_->encode_immutable(seq), freqs_", "    dict_->parse(coded, freqs_")]),
 ('r30 update_symbol resize', 'ok', [], [(A+'stat_dict_p.cc', """    if (index >= symbol_freqs_.size() || index >= parse_freqs_.size()) {
        for (auto i = symbol_freqs_.size(); i < index + 1; i++)
            symbol_freqs_.push_back(0); // Sanitizer: indirect leak
        for (auto i = parse_freqs_.size(); i < index + 1; i++)
            parse_freqs_.push_back(0); // Sanitizer: indirect leak
    }
""", """    const auto grow = [index](IntSeq &freqs) {
        if (freqs.size() <= static_cast<size_t>(index))
            freqs.resize(static_cast<size_t>(index) + 1, 0);
    };
    grow(symbol_freqs_);
    grow(parse_freqs_);
""")]),
 ('r31 result_freqs as copy', 'ok', [], [(A+'int_vgram_builder_p.cc', """    if (stat_dict->size() > stat_dict->symbol_freqs_.size()) {
        for (auto i = stat_dict->symbol_freqs_.size(); i < stat_dict->size(); ++i) {
            stat_dict->symbol_freqs_.push_back(0);
        }
    }
    for (int symbol_freq : stat_dict->symbol_freqs_) {
        freqs->push_back(symbol_freq);
    }
""", """    const int count = stat_dict->size();
    for (int i = 0; i < count; ++i) {
        freqs->push_back(stat_dict->freq(i));
    }
""")]),
 ('r32 expand final loop', 'ok', [], [(A+'stat_dict_p.cc', """    for (const StatItem& item : items) {
        if (item.score() < 0)
            break;
        if (--slots < 0)
            break;
        IntSeq item_text;
        stat_item_to_text(item, &item_text);
        new_dict->push_back(item_text);
        freqs->push_back(item.count());
""", """    for (size_t i = 0; i < items.size() && static_cast<int>(i) < slots; ++i) {
        const StatItem& item = items[i];
        if (item.score() < 0)
            break;
        IntSeq item_text;
        stat_item_to_text(item, &item_text);
        freqs->push_back(item.count());
        new_dict->push_back(std::move(item_text));
""")]),
 ('r33 accept guards', 'ok', [], [(A+'int_vgram_builder_p.cc', """    if (current_->enough(prob_found_) || current_->power_ > kMaxPower) {
        update();
    }""", """    const bool collected = current_->enough(prob_found_);
    const bool too_many = current_->power_ > kMaxPower;
    if (!collected && !too_many)
        return;
    update();""")]),
 ('r34 string ctor delegation', 'ok', [], [(V_+'string_vgram.cc', """        : int_builder_(std::make_shared<IntVGram>(size, iter_num, 1)),
          tokenizer_(tokenizer) {}""", """        : StringVGram(size, iter_num, tokenizer, 1) {}""")]),
 ('r35 dict from symbols', 'ok', [], [(A+'int_dict_p.cc', """    std::vector<IntSeq> vec(seqs.size(), IntSeq(1, -1));
    for (int i = 0; i < seqs.size(); i++) {
        vec[i][0] = seqs[i];
    }
    init(vec);""", """    std::vector<IntSeq> vec;
    vec.reserve(seqs.size());
    for (int symbol : seqs)
        vec.push_back(IntSeq{symbol});
    init(vec);""")]),
 ('r36 dict copy ctor inits', 'ok', [], [(A+'int_dict_p.cc', """IntDictImpl::IntDictImpl(const IntDictImpl& dict) {
    seqs_ = dict.seqs_; // Sanitizer: indirect leak
    parents_ = dict.parents_; // Sanitizer: indirect leak
    sorted_size_ = dict.sorted_size_;
    new_symbols_ = dict.new_symbols_;
}""", """IntDictImpl::IntDictImpl(const IntDictImpl& dict)
        : seqs_(dict.seqs_), parents_(dict.parents_), sorted_size_(dict.sorted_size_), new_symbols_(dict.new_symbols_) {
}""")]),
 ('r37 stat ctor shares', 'ok', [], [(A+'stat_dict_p.cc', """    if (init_freqs == nullptr) {
        parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size())); // Sanitizer: indirect leak
    } else {
        // dict_ orders the sequences in its own way, init_freqs follows the order of seqs
        parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size()));
        for""", """    parse_freqs_.assign(static_cast<size_t>(dict_->size()), 0);
    if (init_freqs != nullptr) {
        // dict_ orders the sequences in its own way, init_freqs follows the order of seqs
        for""")]),
 ('r38 parse counting loop', 'ok', [], [(A+'stat_dict_p.cc', """    int prev = -1;
    for (int symbol : *parse_result) {
        update_symbol(symbol, 1);
        if (prev >= 0)
            pairs_freqs_[(((std::int64_t) prev) << 32) | symbol] += 1; // Sanitizer: indirect leak
        prev = symbol;
    }""", """    for (size_t i = 0; i < parse_result->size(); i++) {
        const int symbol = (*parse_result)[i];
        if (i > 0) {
            const auto left = static_cast<std::int64_t>((*parse_result)[i - 1]);
            ++pairs_freqs_[left * (std::int64_t(1) << 32) + symbol];
        }
        update_symbol(symbol, 1);
    }""")]),
 ('r39 text of item', 'ok', [], [(A+'stat_dict_p.cc', """    if (item.first() >= 0) {
        output->insert(output->end(), get(item.first()).begin(), get(item.first()).end());
        output->insert(output->end(), get(item.second()).begin(), get(item.second()).end());
    } else {
        output->insert(output->end(), get(item.second()).begin(), get(item.second()).end());
    }""", """    const int first = item.first();
    if (first >= 0) {
        const IntSeq& head = get(first);
        std::copy(head.begin(), head.end(), std::back_inserter(*output));
    }
    const IntSeq& tail = get(item.second());
    output->insert(output->end(), tail.cbegin(), tail.cend());""")]),
]

V = V + [
 ('r40 loader: index over array', 'ok', [], [(I+'loader.h', """            for (const auto &word_obj : dict["alphabet"]) {
                freqs.push_back(word_obj["freq"].get<int>());
                alphabet.push_back(word_obj["vec"].get<IntSeq>());
            }""", """            const json &entries = dict.at("alphabet");
            for (std::size_t i = 0; i < entries.size(); ++i) {
                const json &entry = entries[i];
                alphabet.push_back(entry["vec"].get<IntSeq>());
                freqs.push_back(entry["freq"].get<int>());
            }""")]),
]
