D = 'core/src/main/cpp/algorithm/int_dict_p.cc'
H = 'core/src/main/cpp/algorithm/int_dict_p.h'
P = ['C22']
ADD = """        int ind = size();
        seqs_.emplace_back(1, seq[0]);
        parents_.push_back(-1);
        new_symbols_[seq[0]] = ind;
        return ind;
"""
FND = """    if (!seq.empty()) {
        auto added = new_symbols_.find(seq[0]);
        if (added != new_symbols_.end() && (excludes == nullptr || excludes->count(added->second) == 0)) {
            return added->second;
        }
    }
"""
BIS = """    auto sorted_end = seqs_.begin() + sorted_size_;
    int index = static_cast<int>(std::lower_bound(seqs_.begin(), sorted_end, seq) - seqs_.begin());
"""
CPY = """    sorted_size_ = dict.sorted_size_;
    new_symbols_ = dict.new_symbols_;
"""
SRT = """    std::sort(seqs_.begin(), seqs_.end());
    sorted_size_ = seqs_.size();
"""
V = [
    ('so-whole', ['C22'], P, [(D, BIS, BIS.replace("seqs_.begin() + sorted_size_", "seqs_.end()"))]),
    ('so-whole2', ['C22'], P, [(D, BIS, BIS.replace("seqs_.begin() + sorted_size_", "seqs_.begin() + size()"))]),
    ('so-plus1', ['C22'], P, [(D, BIS, BIS.replace("seqs_.begin() + sorted_size_", "seqs_.begin() + sorted_size_ + 1"))]),
    ('so-desc', ['C22'], P, [(D, SRT, SRT.replace("seqs_.end()", "seqs_.end(), std::greater<IntSeq>()"))]),
    ('so-nosort', ['C22'], P, [(D, SRT, SRT.split("\n")[1] + "\n")]),
    ('so-count-grows', ['C22'], P, [(D, ADD, ADD.replace("        return ind", "        sorted_size_ = seqs_.size();\n        return ind"))]),
    ('so-count-inc', ['C22'], P, [(D, ADD, ADD.replace("        return ind", "        sorted_size_++;\n        return ind"))]),
    ('so-copy-size', ['C22'], P, [(D, CPY, CPY.replace("dict.sorted_size_", "dict.seqs_.size()"))]),
    ('so-copy-notable', ['C22'], P, [(D, CPY, CPY.split("\n")[0] + "\n")]),
    ('so-noput', ['C22'], P, [(D, ADD, ADD.replace("        new_symbols_[seq[0]] = ind;\n", ""))]),
    ('so-wrongid', ['C22'], P, [(D, ADD, ADD.replace("= ind;\n        return", "= size();\n        return"))]),
    ('so-noget', ['C22'], P, [(D, FND, "")]),
    ('so-get-noex', ['C22'], P, [(D, FND, FND.replace("!seq.empty()", "!seq.empty() && excludes == nullptr"))]),
    ('so-get-ex', ['C22'], P, [(D, FND, FND.replace("!seq.empty()", "!seq.empty() && excludes != nullptr"))]),
    ('so-get-len1', ['C22'], P, [(D, FND, FND.replace("!seq.empty()", "seq.size() == 1"))]),
    ('so-put-once', ['C22'], P, [(D, ADD, ADD.replace("        new_symbols_", "        if (seq.size() == 1)\n            new_symbols_"))]),
    ('so-key-last', ['C22'], P, [(D, ADD, ADD.replace("new_symbols_[seq[0]]", "new_symbols_[seq.back()]"))]),
    # the same behaviour
    ('so-ok-min', 'ok', P, [(D, BIS, BIS.replace("seqs_.begin() + sorted_size_", "seqs_.begin() + std::min(sorted_size_, seqs_.size())"))]),
    ('so-ok-inline', 'ok', P, [(D, BIS, "    int index = static_cast<int>(std::lower_bound(seqs_.begin(), seqs_.begin() + sorted_size_, seq) - seqs_.begin());\n")]),
    ('so-ok-less', 'ok', P, [(D, SRT, SRT.replace("seqs_.end()", "seqs_.end(), std::less<IntSeq>()"))]),
    ('so-ok-lambda', 'ok', P, [(D, SRT, SRT.replace("seqs_.end()", "seqs_.end(), [](const IntSeq& a, const IntSeq& b) { return a < b; }"))]),
    ('so-ok-stable', 'ok', P, [(D, SRT, SRT.replace("std::sort", "std::stable_sort"))]),
    ('so-ok-count', 'ok', P, [(D, FND, """    if (!seq.empty() && new_symbols_.count(seq[0]) > 0) {
        int added = new_symbols_.at(seq[0]);
        if (excludes == nullptr || excludes->count(added) == 0)
            return added;
    }
""")]),
    ('so-ok-first', 'ok', P, [(D, FND, FND.replace("seq[0]", "seq.front()")), (D, ADD, ADD.replace("seq[0]", "seq.front()"))]),
    ('so-ok-helper', 'ok', P, [(D, ADD, "        return append(seq[0]);\n"), (H, "    void init(", "    int append(int symbol);\n    void init("),
                               (D, "int IntDictImpl::parse(const IntSeq& seq, const IntSeq& freqs", "int IntDictImpl::append(int symbol) {\n    int ind = size();\n    new_symbols_[symbol] = ind;\n    seqs_.push_back(IntSeq(1, symbol));\n    parents_.push_back(-1);\n    return ind;\n}\n\nint IntDictImpl::parse(const IntSeq& seq, const IntSeq& freqs")]),
    ('so-ok-emplace', 'ok', P, [(D, ADD, ADD.replace("new_symbols_[seq[0]] = ind;", "new_symbols_.emplace(seq[0], ind);"))]),
    ('so-ok-early', 'ok', P, [(D, ADD, ADD.replace("        int ind", "        const int ind")), (D, FND, """    if (seq.empty())
        return -1;
    auto added = new_symbols_.find(seq.front());
    if (added != new_symbols_.end()) {
        bool allowed = excludes == nullptr || excludes->count(added->second) == 0;
        if (allowed)
            return added->second;
    }
""")]),
    ('so-ok-initlist', 'ok', P, [(D, """IntDictImpl::IntDictImpl(const IntDictImpl& dict) {
    seqs_ = dict.seqs_; // Sanitizer: indirect leak
    parents_ = dict.parents_; // Sanitizer: indirect leak
    sorted_size_ = dict.sorted_size_;
    new_symbols_ = dict.new_symbols_;
}""", """IntDictImpl::IntDictImpl(const IntDictImpl& dict) : seqs_(dict.seqs_), parents_(dict.parents_), sorted_size_(dict.sorted_size_), new_symbols_(dict.new_symbols_) {
}""")]),
    ('so-ok-sortfirst', 'ok', P, [(D, SRT, ""), (D, "    seqs_ = std::vector<IntSeq>(seqs); // Sanitizer: indirect leak\n", "    seqs_ = seqs;\n    std::sort(seqs_.begin(), seqs_.end());\n    sorted_size_ = seqs_.size();\n")]),
    ('so-ok-ascending', 'ok', P, [(D, ADD, ADD.replace("        return ind", "        if (sorted_size_ == static_cast<size_t>(ind) && (ind == 0 || seqs_[ind - 1] < seqs_[ind]))\n            sorted_size_++;\n        return ind"))]),
    ('so-ok-scan', 'ok', P, [(D, FND, """    if (!seq.empty()) {
        for (size_t i = sorted_size_; i < seqs_.size(); ++i) {
            if (seqs_[i][0] == seq[0] && (excludes == nullptr || excludes->count(static_cast<int>(i)) == 0))
                return static_cast<int>(i);
        }
    }
""")]),
]
