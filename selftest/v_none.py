D = 'core/src/main/cpp/algorithm/int_dict_p.cc'
S = 'core/src/main/cpp/algorithm/stat_dict_p.cc'
B = 'core/src/main/cpp/algorithm/int_vgram_builder_p.cc'
I = 'core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc'
P = ['C06']
V = [
    ('nn-lp-le0', ['C06'], P, [(D, "if (symbol < 0) {", "if (symbol <= 0) {")]),
    ('nn-wp-none', ['C06'], P, [(D, "        if (sym < 0)\n            continue;\n", "")]),
    ('nn-swp-none', ['C06'], P, [(S, "        if (sym < 0)\n            continue;\n", "")]),
    ('nn-wp-gt', ['C06'], P, [(D, "while ((sym = parent(sym)) >= 0);", "while ((sym = parent(sym)) > 0);")]),
    ('nn-swp-gt', ['C06'], P, [(S, "while ((sym = parent(sym)) >= 0);", "while ((sym = parent(sym)) > 0);")]),
    ('nn-swp-neq0', ['C06'], P, [(S, "while ((sym = parent(sym)) >= 0);", "while ((sym = parent(sym)) != 0);")]),
    ('nn-pair-none', ['C06'], P, [(S, "        if (prev >= 0)\n", "")]),
    ('nn-pair-gt', ['C06'], P, [(S, "        if (prev >= 0)\n", "        if (prev > 0)\n")]),
    ('nn-parent-le', ['C06'], P, [(S, "        if (parent(s) < 0)", "        if (parent(s) <= 0)")]),
    ('nn-parent-excl', ['C06'], P, [(S, "if (parent(id) >= 0 && freq(id) == 0)", "if (parent(id) > 0 && freq(id) == 0)")]),
    ('nn-text-gt', ['C06'], P, [(S, "    if (item.first() >= 0) {\n        output", "    if (item.first() > 0) {\n        output")]),
    ('nn-text-none', ['C06'], P, [(S, "    if (item.first() >= 0) {\n        output", "    if (item.count() >= 0) {\n        output")]),
    ('nn-exp-gt', ['C06'], P, [(S, "        if (item.first() >= 0)\n            min", "        if (item.first() > 0)\n            min")]),
    ('nn-red-parent', ['C06'], P, [(S, "if (parent(item.second()) >= 0)", "if (parent(item.second()) > 0)")]),
    ('nn-symb-gt', ['C16'], ['C16'], [(I, "if (symb >= 0) {", "if (symb > 0) {")]),
    ('nn-ret0', ['C06'], P, [(D, "        return -1;\n", "        return 0;\n")]),
    ('nn-search-gt', ['C06'], P, [(D, "while (index >= 0 && index < size()) {", "while (index < size()) {")]),
    ('nn-search-gt2', ['C06'], P, [(D, "while (index >= 0 && index < size()) {", "while (index > 0 && index < size()) {")]),
    ('nn-parents0', ['C06'], P, [(D, "parents_.push_back(-1);", "parents_.push_back(0);")]),
    ('nn-parents0i', ['C06'], P, [(D, "parents_ = IntSeq(seqs_.size(), -1); // S", "parents_ = IntSeq(seqs_.size()); // S")]),
    ('nn-lp-push', ['C06'], P, [(D, "            builder->push_back(symbol);\n        }", "        }\n        builder->push_back(symbol);")]),
    ('nn-eq', 'ok', P, [(D, "if (symbol < 0) {", "if (symbol == -1) {"), (S, "while ((sym = parent(sym)) >= 0);", "while ((sym = parent(sym)) != -1);")]),
    ('nn-gt-1', 'ok', P, [(S, "while ((sym = parent(sym)) >= 0);", "while ((sym = parent(sym)) > -1);"), (S, "        if (prev >= 0)\n", "        if (!(prev < 0))\n")]),
    ('nn-flag', 'ok', P, [(D, "if (symbol < 0) {", "const bool missing = symbol < 0;\n        if (missing) {")]),
    ('nn-const', 'ok', P, [(D, "        return -1;\n", "        static const int kNone = -1;\n        return kNone;\n"), (D, "if (symbol < 0) {", "const int kNone = -1;\n        if (symbol == kNone) {")]),
    ('nn-for', 'ok', P, [(D, """        int sym = search(suffix, excludes);
        if (sym < 0)
            continue;
        do {
            auto""", """        for (int sym = search(suffix, excludes); sym >= 0; sym = parent(sym)) {
            auto"""), (D, """            }
        }
        while ((sym = parent(sym)) >= 0);
""", """            }
        }
""")]),
    ('nn-nest', 'ok', P, [(S, """        if (sym < 0)
            continue;
        do {
            auto""", """        while (sym >= 0) {
            auto"""), (S, """            }
        }
        while ((sym = parent(sym)) >= 0);
""", """            }
            sym = parent(sym);
        }
""")]),
    ('nn-lambda', 'ok', P, [(S, "        if (prev >= 0)\n", "        auto known = [](int id) { return id >= 0; };\n        if (known(prev))\n")]),
    ('nn-first', 'ok', P, [(S, """    int prev = -1;
    for (int symbol : *parse_result) {
        update_symbol(symbol, 1);
        if (prev >= 0)
""", """    int prev = 0;
    bool first = true;
    for (int symbol : *parse_result) {
        update_symbol(symbol, 1);
        if (!first)
"""), (S, "        prev = symbol;\n", "        prev = symbol;\n        first = false;\n")]),
    ('nn-helper', 'ok', P, [(S, "void StatDictImpl::stat_item_to_text(const StatItem& item, IntSeq* output) const {\n    if (item.first() >= 0) {",
                            "static bool isPair(const StatItem& item) {\n    return item.first() >= 0;\n}\n\nvoid StatDictImpl::stat_item_to_text(const StatItem& item, IntSeq* output) const {\n    if (isPair(item)) {")]),
    ('nn-two', 'ok', P, [(D, "            auto sym_len = get(symbol).size();\n            suffix", "            const int id = symbol;\n            auto sym_len = get(id).size();\n            suffix")]),
]
