D = 'core/src/main/cpp/algorithm/int_dict_p.cc'
SEARCH = '''    auto sorted_end = seqs_.begin() + sorted_size_;
    int index = static_cast<int>(std::lower_bound(seqs_.begin(), sorted_end, seq) - seqs_.begin());
    if (index >= 0 && index < sorted_size_ && seqs_[index] == seq) {
        if (excludes == nullptr || excludes->count(index) == 0) {
            return index;
        }
    }
    index--;
    while (index >= 0 && index < size()) {
        if (std::mismatch(seqs_[index].begin(), seqs_[index].end(), seq.begin()).first == seqs_[index].end()) {
            if (excludes == nullptr || excludes->count(index) == 0) {
                return index;
            }
        }
        index = parents_[index];
    }
    if (!seq.empty()) {
        auto added = new_symbols_.find(seq[0]);
        if (added != new_symbols_.end() && (excludes == nullptr || excludes->count(added->second) == 0)) {
            return added->second;
        }
    }
    if (excludes == nullptr && !seq.empty()) {
        int ind = size();
        seqs_.emplace_back(1, seq[0]);
        parents_.push_back(-1);
        new_symbols_[seq[0]] = ind;
        return ind;
    } else {
        return -1;
    }
'''
APP = '''        int ind = size();
        seqs_.emplace_back(1, seq[0]);
        parents_.push_back(-1);
        new_symbols_[seq[0]] = ind;
        return ind;
'''
LOOP = '''    while (index >= 0 && index < size()) {
        if (std::mismatch(seqs_[index].begin(), seqs_[index].end(), seq.begin()).first == seqs_[index].end()) {
            if (excludes == nullptr || excludes->count(index) == 0) {
                return index;
            }
        }
        index = parents_[index];
    }
'''
FIRST = '''    if (index >= 0 && index < sorted_size_ && seqs_[index] == seq) {
        if (excludes == nullptr || excludes->count(index) == 0) {
            return index;
        }
    }
'''
ADDED = '''    if (!seq.empty()) {
        auto added = new_symbols_.find(seq[0]);
        if (added != new_symbols_.end() && (excludes == nullptr || excludes->count(added->second) == 0)) {
            return added->second;
        }
    }
'''
ALL = ['C03', 'C04', 'C05']
V = [
    ('dict insert sorted', ['C04'], ['C04'], [(D, APP, '''        auto where = std::lower_bound(seqs_.begin(), seqs_.end(), IntSeq(1, seq[0]));
        int ind = static_cast<int>(where - seqs_.begin());
        seqs_.insert(where, IntSeq(1, seq[0]));
        parents_.push_back(-1);
        new_symbols_[seq[0]] = ind;
        return ind;
''')]),
    ('dict parent 0', ['C04'], ['C04'], [(D, 'parents_.push_back(-1);', 'parents_.push_back(0);')]),
    ('dict no parent', ['C04'], ['C04'], [(D, 'parents_.push_back(-1);', 'if (size() > 2) parents_.push_back(-1);')]),
    ('dict append all', ['C04'], ['C04'], [(D, 'seqs_.emplace_back(1, seq[0]);', 'seqs_.push_back(seq);')]),
    ('dict append last', ['C04'], ['C04'], [(D, APP, APP.replace('seqs_.emplace_back(1, seq[0]);', 'seqs_.emplace_back(1, seq[seq.size() - 1]);'))]),
    ('dict append again', ['C04'], ['C04'], [(D, ADDED, ADDED.replace('if (!seq.empty())', 'if (seq.size() > 1)'))]),
    ('dict erase', ['C04'], ['C04'], [(D, '    linearParse(seq, output, excludes);\n', '    linearParse(seq, output, excludes);\n    if (seqs_.size() > 1000000) { seqs_.pop_back(); parents_.pop_back(); }\n')]),
    ('dict copy drops', ['C04'], ['C04'], [(D, '    new_symbols_ = dict.new_symbols_;\n', '')]),
    ('dict accessor', ['C04'], ['C04'], [(D, 'return static_cast<int>(seqs_.size());', 'return static_cast<int>(sorted_size_);')]),
    # behaviour kept
    ('ok dict for loop', 'ok', ALL, [(D, LOOP, '''    for (; index >= 0 && index < size(); index = parents_[index]) {
        const IntSeq &entry = seqs_[index];
        const bool matches = std::mismatch(entry.begin(), entry.end(), seq.begin()).first == entry.end();
        if (matches && (excludes == nullptr || excludes->find(index) == excludes->end())) {
            return index;
        }
    }
''')]),
    ('ok dict allowed lambda', 'ok', ALL, [(D, SEARCH, '''    auto allowed = [excludes](int id) { return excludes == nullptr || excludes->count(id) == 0; };
    auto sorted_end = seqs_.begin() + sorted_size_;
    auto found = std::lower_bound(seqs_.begin(), sorted_end, seq);
    int index = static_cast<int>(found - seqs_.begin());
    if (index < sorted_size_ && seqs_[index] == seq && allowed(index)) {
        return index;
    }
    for (index = index - 1; index >= 0 && index < size(); index = parents_[index]) {
        if (std::mismatch(seqs_[index].begin(), seqs_[index].end(), seq.begin()).first != seqs_[index].end()) {
            continue;
        }
        if (allowed(index)) {
            return index;
        }
    }
    if (seq.empty()) {
        return -1;
    }
    auto added = new_symbols_.find(seq[0]);
    if (added != new_symbols_.end() && allowed(added->second)) {
        return added->second;
    }
    if (excludes != nullptr) {
        return -1;
    }
    int ind = size();
    seqs_.push_back(IntSeq(1, seq[0]));
    parents_.push_back(-1);
    new_symbols_[seq[0]] = ind;
    return ind;
''')]),
    ('ok dict count', 'ok', ALL, [(D, ADDED, '''    if (!seq.empty() && new_symbols_.count(seq[0]) > 0) {
        const int id = new_symbols_.at(seq[0]);
        if (excludes == nullptr || excludes->count(id) == 0) {
            return id;
        }
    }
''')]),
    ('ok dict early', 'ok', ALL, [(D, '''    if (excludes == nullptr && !seq.empty()) {
''' + APP + '''    } else {
        return -1;
    }
''', '''    if (excludes != nullptr || seq.empty()) {
        return -1;
    }
    const int symbol = seq.front();
    new_symbols_[symbol] = size();
    parents_.push_back(-1);
    seqs_.push_back(IntSeq{symbol});
    return size() - 1;
''')]),
    ('ok dict append helper', 'ok', ALL, [(D, '''    if (excludes == nullptr && !seq.empty()) {
''' + APP, '''    if (excludes == nullptr && !seq.empty()) {
        return append_symbol(seq[0]);
'''), (D, '''int IntDictImpl::search(''', '''int IntDictImpl::append_symbol(int symbol) {
    const int id = size();
    seqs_.emplace_back(1, symbol);
    parents_.push_back(-1);
    new_symbols_[symbol] = id;
    return id;
}

int IntDictImpl::search('''), ('core/src/main/cpp/algorithm/int_dict_p.h', '    void init(', '    int append_symbol(int symbol);\n    void init(')]),
]
