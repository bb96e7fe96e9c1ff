A = 'core/src/main/cpp/algorithm/'
IF = 'core/src/main/cpp/interfaces/'
D, S, B = A + 'int_dict_p.cc', A + 'stat_dict_p.cc', A + 'int_vgram_builder_p.cc'
I = IF + 'vgram_builders/int_vgram.cc'
IS = IF + 'vgram_builders/int_stream_vgram.cc'
P = ['C09']
BLK = """        if (verbose_ > 0) {
            std::cout << "Size: " << current_->size() << " rate: " << compression_rate <<
                      " minimal probability: " << current_->min_probability_ << std::endl;
        }
"""
V = [
    ('qt-ge', P, P, [(I, "    if (verbose_ > 0) {\n        std::cout << \"rec", "    if (verbose_ >= 0) {\n        std::cout << \"rec")]),
    ('qt-iter', P, P, [(I, "        if (verbose_ > 0) {\n            std::cout << i << \"-th iteration\" << std::endl;\n        }\n", "        std::cout << i << \"-th iteration\" << std::endl;\n")]),
    ('qt-size', P, P, [(B, "        if (verbose_ > 0) {\n            std::cout << \"Size", "        if (verbose_ > 0 || populate_) {\n            std::cout << \"Size")]),
    ('qt-printf', P, P, [(S, "    int prev = -1;", "    if (seq.size() > 1000000) printf(\"long sequence\\n\");\n    int prev = -1;"), (S, "#include <iostream>", "#include <iostream>\n#include <cstdio>")]),
    ('qt-cerr', P, P, [(I, "            if (isTerminated()) {\n                return nullptr;", "            if (isTerminated()) {\n                std::cerr << \"interrupted\" << std::endl;\n                return nullptr;")]),
    ('qt-builder', P, P, [(IS, "new IntVGramBuilderImpl(size - 1, verbose)", "new IntVGramBuilderImpl(size - 1)")]),
    ('qt-neg', P, P, [(I, "    if (verbose_ > 0) {\n        std::cout << \"rec", "    if (!(verbose_ < 0)) {\n        std::cout << \"rec")]),
    ('qt-init', P, P, [(B, "    verbose_ = verbose;\n    size_ = size;\n    symb", "    verbose_ = 1;\n    size_ = size;\n    symb")]),
    ('qt-else', P, P, [(B, BLK, BLK + "        else {\n            std::cout << \".\";\n        }\n")]),
    ('qt-lp', P, P, [(D, "        if (symbol < 0) {\n", "        if (symbol < 0) {\n            std::cout << \"unknown symbol\" << std::endl;\n")]),
    ('qt-shadow', P, P, [(I, "        if (verbose_ > 0) {\n            std::cout << i", "        if (iter_num_ > 0) {\n            std::cout << i")]),
    ('qt-ok-eq', 'ok', P, [(I, "    if (verbose_ > 0) {\n        std::cout << \"rec", "    if (verbose_ >= 1) {\n        std::cout << \"rec")]),
    ('qt-ok-ret', 'ok', P, [(B, BLK, "        report(compression_rate);\n"), (B, "void IntVGramBuilderImpl::update() {", "void IntVGramBuilderImpl::report(double compression_rate) const {\n    if (verbose_ <= 0)\n        return;\n    std::cout << \"Size: \" << current_->size() << \" rate: \" << compression_rate << std::endl;\n}\n\nvoid IntVGramBuilderImpl::update() {"),
                           (A + 'int_vgram_builder_p.h', "    void update();", "    void update();\n\n    void report(double compression_rate) const;")]),
    ('qt-ok-helper', 'ok', P, [(I, "    if (verbose_ > 0) {\n        std::cout << \"rec", "    const bool loud = verbose_ > 0;\n    if (loud) {\n        std::cout << \"rec")]),
    ('qt-ok-lambda', 'ok', P, [(I, "        if (verbose_ > 0) {\n            std::cout << i << \"-th iteration\" << std::endl;\n        }\n", "        auto log = [&](int k) { if (verbose_ > 0) std::cout << k << \"-th iteration\" << std::endl; };\n        log(i);\n")]),
    ('qt-ok-and', 'ok', P, [(I, "        if (verbose_ > 0) {\n            std::cout << i", "        if (i % 1 == 0 && verbose_ > 0) {\n            std::cout << i")]),
    ('qt-ok-ge2', 'ok', P, [(D, "    if (log_probability > 0) {", "    const bool positive = log_probability > 0;\n    if (positive) {")]),
    ('qt-ok-neg', 'ok', P, [(I, "    if (verbose_ > 0) {\n        std::cout << \"recompute freqs\" << std::endl;\n    }\n", "    bool quiet = verbose_ <= 0;\n    if (!quiet)\n        std::cout << \"recompute freqs\" << std::endl;\n")]),
    ('qt-ok-stream', 'ok', P, [(I, "    if (verbose_ > 0) {\n        std::cout << \"recompute freqs\" << std::endl;\n    }\n", "    if (verbose_ > 0) {\n        std::ostringstream msg;\n        msg << \"recompute freqs\";\n        std::cout << msg.str() << std::endl;\n    }\n")]),
]
