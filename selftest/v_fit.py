IF = 'core/src/main/cpp/interfaces/'
I, IH = IF + 'vgram_builders/int_vgram.cc', IF + 'vgram_builders/int_vgram.h'
P = ['C13']
FT = "    fitted_ = true;\n    if (!recompute_freqs(seqs)) {\n        return nullptr;\n    }\n    freqs_computed_ = true;\n    return this;\n"
HEAD = """    if (fitted_) {
        if (freqs_computed_) {
            return this;
        }
        if (!recompute_freqs(seqs)) {
            return nullptr;
        }
        freqs_computed_ = true;
        return this;
    }
"""
INT = """            if (isTerminated()) {
                return nullptr;
            }
        }
        update_dict();"""
V = [
    ('ft-early-mark', P, P, [(I, "    std::default_random_engine generator;", "    fitted_ = true;\n    std::default_random_engine generator;"), (I, FT, FT.replace("    fitted_ = true;\n", ""))]),
    ('ft-in-loop', P, P, [(I, "        update_dict();\n        //TODO", "        update_dict();\n        fitted_ = true;\n        //TODO"), (I, FT, FT.replace("    fitted_ = true;\n", ""))]),
    ('ft-mark-on-int', P, P, [(I, INT, INT.replace("                return nullptr;", "                fitted_ = true;\n                return nullptr;"))]),
    ('ft-break', P, P, [(I, INT, INT.replace("                return nullptr;", "                break;"))]),
    ('ft-comp-first', P, P, [(I, FT, "    fitted_ = true;\n    freqs_computed_ = true;\n    if (!recompute_freqs(seqs)) {\n        return nullptr;\n    }\n    return this;\n")]),
    ('ft-ignore-int', P, P, [(I, FT, "    fitted_ = true;\n    recompute_freqs(seqs);\n    freqs_computed_ = true;\n    return this;\n")]),
    ('ft-rec-true', P, P, [(I, "        if (isTerminated()) {\n            total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);\n            return false;\n        }\n", "        if (isTerminated()) {\n            break;\n        }\n")]),
    ('ft-retrain', P, P, [(I, HEAD, "    if (fitted_ && freqs_computed_) {\n        return this;\n    }\n")]),
    ('ft-retrain2', P, P, [(I, HEAD, HEAD.replace("    if (fitted_) {", "    if (fitted_ && !seqs.empty()) {"))]),
    ('ft-this-int', P, P, [(I, INT, INT.replace("return nullptr;", "return this;"))]),
    ('ft-off1', P, P, [(I, "for (int i = 0; i < iter_num_; i++)", "for (int i = 1; i < iter_num_; i++)")]),
    ('ft-off1k', P, P, [(I, "for (int k = 0; k < seqs.size(); k++)", "for (int k = 0; k + 1 < seqs.size(); k++)")]),
    ('ft-head-noret', P, P, [(I, "        if (!recompute_freqs(seqs)) {\n            return nullptr;\n        }\n        freqs_computed_ = true;\n        return this;\n    }\n    std", "        freqs_computed_ = recompute_freqs(seqs) || freqs_computed_ || seqs.size() > 1;\n        return this;\n    }\n    std")]),
    ('ft-stop-early', P, P, [(I, "        update_dict();\n        //TODO", "        update_dict();\n        if (total_freqs_ > 1000000) break;\n        //TODO")]),
    ('ft-skip', P, P, [(I, "            accept(seqs[generator() % seqs.size()]);", "            if (k % 2 == 0 || i > 0)\n                accept(seqs[generator() % seqs.size()]);")]),
    ('ft-count-part', P, P, [(I, "    for (const IntSeq &seq : seqs) {\n        IntSeq result;\n        dict_", "    for (size_t k = 1; k < seqs.size(); ++k) {\n        const IntSeq &seq = seqs[k];\n        IntSeq result;\n        dict_")]),
    ('ft-count-skip', P, P, [(I, "    for (const IntSeq &seq : seqs) {\n        IntSeq result;\n        dict_", "    for (const IntSeq &seq : seqs) {\n        if (seq.size() > 100000) continue;\n        IntSeq result;\n        dict_")]),
    ('ft-ctor', P, P, [(I, "    iter_num_ = iter_num;\n    fitted_ = false;", "    iter_num_ = iter_num;\n    fitted_ = iter_num == 0;\n    freqs_computed_ = true;")]),
    ('ft-transform', P, P, [(I, "    std::vector<IntSeq> res;\n    res.reserve(seqs.size());\n    for (const IntSeq &seq : seqs) {", "    std::vector<IntSeq> res;\n    const_cast<IntVGram *>(this)->fitted_ = true;\n    res.reserve(seqs.size());\n    for (const IntSeq &seq : seqs) {")]),
    ('ft-ok-flag', 'ok', P, [(I, FT, "    fitted_ = true;\n    const bool complete = recompute_freqs(seqs);\n    freqs_computed_ = complete;\n    return complete ? this : nullptr;\n")]),
    ('ft-ok-merge', 'ok', P, [(I, HEAD + "    std::default_random_engine generator;\n    for (int i = 0; i < iter_num_; i++) {", "    if (fitted_ && freqs_computed_)\n        return this;\n    std::default_random_engine generator;\n    for (int i = 0; !fitted_ && i < iter_num_; i++) {")]),
    ('ft-ok-down', 'ok', P, [(I, "for (int i = 0; i < iter_num_; i++)", "for (int left = iter_num_, i = 0; left > 0; --left, ++i)")]),
    ('ft-ok-helper', 'ok', P, [(I, "        for (int k = 0; k < seqs.size(); k++) {\n            accept(seqs[generator() % seqs.size()]);\n            if (isTerminated()) {\n                return nullptr;\n            }\n        }\n        update_dict();", "        if (!run_iteration(seqs, generator))\n            return nullptr;\n        update_dict();"), (I, "IntVGram *IntVGram::fit", "bool IntVGram::run_iteration(const std::vector<IntSeq> &seqs, std::default_random_engine &generator) {\n    for (size_t k = 0; k < seqs.size(); k++) {\n        accept(seqs[generator() % seqs.size()]);\n        if (isTerminated())\n            return false;\n    }\n    return true;\n}\n\nIntVGram *IntVGram::fit"), (IH, "        bool recompute_freqs", "        bool run_iteration(const std::vector<IntSeq> &seqs, std::default_random_engine &generator);\n\n        bool recompute_freqs"), (IH, '#include "int_stream_vgram.h"', '#include <random>\n#include "int_stream_vgram.h"')]),
    ('ft-ok-helper2', 'ok', P, [(I, HEAD, "    if (fitted_) {\n        return freqs_computed_ ? this : finish(seqs);\n    }\n"), (I, FT, "    fitted_ = true;\n    return finish(seqs);\n"), (I, "IntVGram *IntVGram::fit", "IntVGram *IntVGram::finish(const std::vector<IntSeq> &seqs) {\n    if (!recompute_freqs(seqs)) {\n        return nullptr;\n    }\n    freqs_computed_ = true;\n    return this;\n}\n\nIntVGram *IntVGram::fit"), (IH, "        bool recompute_freqs", "        IntVGram *finish(const std::vector<IntSeq> &seqs);\n\n        bool recompute_freqs")]),
    ('ft-ok-countdown', 'ok', P, [(I, "    for (const IntSeq &seq : seqs) {\n        IntSeq result;\n        dict_", "    for (size_t n = 0; n != seqs.size(); ++n) {\n        const IntSeq &seq = seqs[n];\n        IntSeq result;\n        dict_")]),
]
