A = 'core/src/main/cpp/algorithm/'
S, B = A + 'stat_dict_p.cc', A + 'int_vgram_builder_p.cc'
P = ['C20', 'C28', 'C29']
MAX = "std::numeric_limits<double>::max()"
BASE = """                items->emplace_back(-1, id, std::numeric_limits<double>::max(), count);
            }
        }
    }"""
ALPH = """    for (const IntSeq& seq : alphabet()) {
        known.insert(seq);
        int symbol = search(seq);
        items.emplace_back(-1, symbol, std::numeric_limits<double>::max(), freq(symbol));
    }
    slots += alphabet().size();
"""
FILT = """    for (int s = 0; s < symbol_freqs_.size(); s++)
        if (parent(s) < 0)
            slots += 1;
"""
EXC = """    for (int id = 0; id < size(); id++)
        if (parent(id) >= 0 && freq(id) == 0)
            excludes.insert(id);
"""
POP = """    while (items->size() > std::min((int)items->size(), slots))
        items->pop_back();
"""
OUT = """    for (const StatItem& item : items) {
        if (item.score() < 0)
            break;
        if (--slots < 0)
            break;
        IntSeq item_text;
        stat_item_to_text(item, &item_text);
        new_dict->push_back(item_text);
        freqs->push_back(item.count());
        if (item.first() >= 0)
            min_prob_result = std::min(min_prob_result, item.count() / accumulated_freqs);
    }
"""
RED = """    for (const auto& item : items) {
        double p = (item.count() + 1.0) / (power + size());
        if (parent(item.second()) >= 0)
            min_prob_result = std::min(p, min_prob_result);
        new_dict->push_back(get(item.second()));
        freqs->push_back(item.count());
    }
"""
KN = """        if (known.count(item_text) == 0) {
            known.insert(item_text);
            items.push_back(item);
        }
"""
TXT = """    if (item.first() >= 0) {
        output->insert(output->end(), get(item.first()).begin(), get(item.first()).end());
        output->insert(output->end(), get(item.second()).begin(), get(item.second()).end());
    } else {
        output->insert(output->end(), get(item.second()).begin(), get(item.second()).end());
    }
"""
UPD = "current_->reduce(size_ - alphabet_size, &new_dict, &freqs)"
REC = """            if (alpha_accum_num >= alphabet_size) {
                symb_alphabet_.push_back(current_->get(i));
            }
            alpha_accum_num++;
"""


def ed(blk, *rs, f=S):
    new = blk
    for a, b in rs:
        assert a in new, a
        new = new.replace(a, b, 1)
    return [(f, blk, new)]


V = [
    # C20
    ('rk-score-count', ['C20'], P, ed(BASE, (MAX, "(double) count"))),
    ('rk-score-zero', ['C20'], P, ed(BASE, (MAX, "count > 0 ? " + MAX + " : 0."))),
    ('rk-score-lowest', ['C20'], P, ed(BASE, ("max()", "min()"))),
    ('rk-grow-score', ['C20', 'C29'], P, ed(ALPH, (MAX, "(double) freq(symbol)"))),
    ('rk-base-seen', ['C20'], P, ed(BASE, ("                items->em", "                if (count > 0)\n                    items->em"))),
    ('rk-excl-zero', ['C20'], P, ed(EXC, ("parent(id) >= 0 && freq(id) == 0", "freq(id) == 0"))),
    ('rk-excl-gt', ['C20'], P, ed(EXC, ("parent(id) >= 0 && freq(id) == 0", "id > 0 && freq(id) == 0"))),
    ('rk-slot-freq', ['C20'], P, ed(FILT, ("parent(s) < 0", "parent(s) < 0 && freq(s) > 0"))),
    ('rk-slot-one', ['C20'], P, ed(FILT, ("s = 0", "s = 1"))),
    ('rk-slot-none', ['C20'], P, ed(FILT, ("slots += 1", "slots += 0"))),
    ('rk-slot-gone', ['C20'], P, [(S, FILT, "")]),
    ('rk-slot-alpha', ['C20', 'C29'], P, ed(ALPH, ("    slots += alphabet().size();\n", ""))),
    ('rk-slot-less', ['C20', 'C29'], P, ed(ALPH, ("slots += alphabet().size();", "slots += alphabet().size() - 1;"))),
    ('rk-walk-one', ['C20'], P, [(S, "for (int id = 0; id < symbol_freqs_.size(); id++)", "for (int id = 1; id < symbol_freqs_.size(); id++)")]),
    ('rk-walk-short', ['C20'], P, [(S, "for (int id = 0; id < symbol_freqs_.size(); id++)", "for (int id = 0; id + 1 < symbol_freqs_.size(); id++)")]),
    ('rk-asc', ['C20'], P, [(S, "    std::sort(items->begin(), items->end(), [] (const StatItem& a, const StatItem& b) { return -a.score() < -b.score(); });",
                             "    std::sort(items->begin(), items->end(), [] (const StatItem& a, const StatItem& b) { return a.score() < b.score(); });")]),
    ('rk-cut-early', ['C20'], P, [(S, "    stat_items(items, &excludes);\n" + POP, "    stat_items(items, &excludes);\n    while ((int) items->size() > slots - 1)\n        items->pop_back();\n")]),
    ('rk-out-count', ['C20', 'C29'], P, ed(OUT, ("if (item.score() < 0)", "if (item.count() == 0 && item.score() < 1e300)"), ("item.count() == 0 && item.score() < 1e300", "item.count() == 0"))),
    ('rk-out-skip', ['C20', 'C29'], P, ed(OUT, ("        if (--slots", "        if (item.count() == 0)\n            continue;\n        if (--slots"))),
    ('rk-out-slots', ['C20', 'C29'], P, ed(OUT, ("--slots < 0", "--slots <= 0"))),
    # C28
    ('rk-nocut', ['C28'], P, [(S, POP, "")]),
    ('rk-cut-once', ['C28'], P, ed(POP, ("while", "if"))),
    ('rk-cut-off1', ['C28'], P, ed(POP, ("std::min((int)items->size(), slots)", "std::min((int)items->size(), slots + 1)"))),
    ('rk-slot-all', ['C28'], P, ed(FILT, ("        if (parent(s) < 0)\n    ", "    "))),
    ('rk-slot-par', ['C28'], P, ed(FILT, ("parent(s) < 0", "parent(s) < 0 || freq(s) > 0"))),
    ('rk-slot-two', ['C28'], P, ed(FILT, ("slots += 1", "slots += 2"))),
    ('rk-slot-size', ['C28'], P, ed(FILT, ("    for (int s", "    slots += 1;\n    for (int s"))),
    ('rk-grow-off1', ['C28'], P, ed(OUT, ("--slots < 0", "slots-- < 0"))),
    ('rk-grow-pair', ['C28'], P, ed(OUT, ("        if (--slots < 0)\n            break;\n", ""))),
    ('rk-grow-two', ['C28'], P, ed(ALPH, ("slots += alphabet().size();", "slots += 2 * alphabet().size();"))),
    ('rk-given-size', ['C28'], P, [(B, UPD, UPD.replace("size_ - alphabet_size", "size_"))]),
    ('rk-given-plus', ['C28'], P, [(B, UPD, UPD.replace("size_ - alphabet_size", "size_ - alphabet_size + 1"))]),
    ('rk-given-cur', ['C28'], P, [(B, UPD, UPD.replace("size_ - alphabet_size", "current_->size()"))]),
    ('rk-rec-gt', ['C28'], P, ed(REC, (">=", ">"), f=B)),
    ('rk-rec-freq', ['C28'], P, ed(REC, ("alpha_accum_num >= alphabet_size", "alpha_accum_num >= alphabet_size && current_->freq(i) > 0"), f=B)),
    ('rk-size-grows', ['C28'], P, [(B, "        result_ = result;\n    }\n    current_", "        result_ = result;\n        size_ += 1;\n    }\n    current_")]),
    # C29
    ('rk-swap', ['C29'], P, ed(TXT, ("get(item.first()).begin(), get(item.first()).end()", "get(item.X()).begin(), get(item.X()).end()"),
                               ("get(item.second()).begin(), get(item.second()).end()", "get(item.first()).begin(), get(item.first()).end()"),
                               ("get(item.X()).begin(), get(item.X()).end()", "get(item.second()).begin(), get(item.second()).end()"))),
    ('rk-first-zero', ['C29'], P, ed(TXT, ("item.first() >= 0", "item.first() > 0"))),
    ('rk-cut-text', ['C29'], P, ed(TXT, ("get(item.second()).begin(), get(item.second()).end()", "get(item.second()).begin(), get(item.second()).end() - 1"))),
    ('rk-known-no', ['C29'], P, ed(KN, ("            known.insert(item_text);\n", ""))),
    ('rk-known-alpha', ['C29'], P, ed(ALPH, ("        known.insert(seq);\n", "        if (seq.size() > 1)\n            known.insert(seq);\n"))),
    ('rk-known-none', ['C29'], P, ed(ALPH, ("        known.insert(seq);\n", ""))),
    ('rk-known-id', ['C29'], P, ed(KN, ("known.count(item_text) == 0", "known.count(get(second)) == 0"))),
    ('rk-known-not', ['C29'], P, ed(KN, ("        if (known.count(item_text) == 0) {", "        {"))),
    ('rk-pair-swap', ['C29'], P, [(S, "StatItem item(first, second, score, freq);", "StatItem item(second, first, score, freq);")]),
    ('rk-pair-count', ['C29'], P, [(S, "StatItem item(first, second, score, freq);", "StatItem item(first, second, score, (int) start_with[first]);")]),
    ('rk-own-count', ['C29'], P, ed(ALPH, ("freq(symbol));", "freq(symbol) + 1);"))),
    ('rk-count-shift', ['C29'], P, ed(OUT, ("        freqs->push_back(item.count());\n", "        if (item.count() > 0)\n            freqs->push_back(item.count());\n"))),
    ('rk-count-early', ['C29'], P, ed(OUT, ("        freqs->push_back(item.count());\n", ""), ("        if (item.score() < 0)\n", "        freqs->push_back(item.count());\n        if (item.score() < 0)\n"))),
    ('rk-count-twice', ['C29'], P, ed(OUT, ("        freqs->push_back(item.count());\n        if (item.first() >= 0)\n", "        freqs->push_back(item.count());\n        if (item.first() >= 0)\n            freqs->push_back(item.count());\n        if (item.first() >= 0)\n"))),
    ('rk-alpha-skip', ['C29'], P, ed(ALPH, ("        items.empl", "        if (freq(symbol) > 0 || seq.size() == 1)\n            items.empl"))),
    ('rk-red-count', ['C29'], P, ed(RED, ("freqs->push_back(item.count());", "freqs->push_back(freq(item.first()));"))),
    ('rk-red-first', ['C29'], P, ed(RED, ("get(item.second()));", "get(item.first()));"))),
    ('rk-red-dup', ['C29'], P, ed(BASE, ("                items->em", "                if (count > 1)\n                    items->emplace_back(-1, id, std::numeric_limits<double>::max(), count);\n                items->em"))),
    # fine
    ('rk-inf', 'ok', P, ed(BASE, ("max()", "infinity()"))),
    ('rk-len-eq', 'ok', P, [(S, "            if (seq.size() > 1) {\n                IntSeq parse;", "            if (seq.size() >= 2) {\n                IntSeq parse;")]),
    ('rk-len-one', 'ok', P, [(S, "        if (excludes->count(id) == 0) {\n            int count = freq(id);\n            const IntSeq& seq = get(id);\n            if (seq.size() > 1) {",
                              "        if (excludes->find(id) != excludes->end())\n            continue;\n        {\n            const int count = freq(id);\n            const IntSeq& seq = get(id);\n            const bool composite = seq.size() > 1;\n            if (composite) {")]),
    ('rk-slot-get', 'ok', P, ed(FILT, ("parent(s) < 0", "get(s).size() == 1"))),
    ('rk-slot-cont', 'ok', P, ed(FILT, ("        if (parent(s) < 0)\n            slots += 1;\n", "    {\n        if (parent(s) >= 0)\n            continue;\n        ++slots;\n    }\n"))),
    ('rk-slot-var', 'ok', P, [(S, FILT, FILT.replace("    for", "    int base = 0;\n    for", 1).replace("slots += 1", "base++") + "    slots += base;\n")]),
    ('rk-slot-tern', 'ok', P, ed(FILT, ("        if (parent(s) < 0)\n            slots += 1;\n", "        slots += parent(s) < 0 ? 1 : 0;\n"))),
    ('rk-pop-plain', 'ok', P, [(S, POP, "    while ((int) items->size() > slots)\n        items->pop_back();\n")]),
    ('rk-pop-for', 'ok', P, [(S, POP, "    const int keep = std::min((int) items->size(), slots);\n    for (; (int) items->size() > keep;)\n        items->pop_back();\n")]),
    ('rk-pop-resize', 'ok', P, [(S, POP, "    if ((int) items->size() > slots)\n        items->erase(items->begin() + slots, items->end());\n")]),
    ('rk-pop-erase', 'ok', P, [(S, POP, "    const int keep = std::min((int) items->size(), slots);\n    items->erase(items->begin() + keep, items->end());\n")]),
    ('rk-exc-nest', 'ok', P, ed(EXC, ("        if (parent(id) >= 0 && freq(id) == 0)\n            excludes.insert(id);\n", "    {\n        if (parent(id) < 0)\n            continue;\n        if (freq(id) != 0)\n            continue;\n        excludes.emplace(id);\n    }\n"))),
    ('rk-exc-len', 'ok', P, ed(EXC, ("parent(id) >= 0", "get(id).size() > 1"))),
    ('rk-alph-for', 'ok', P, ed(ALPH, ("for (const IntSeq& seq : alphabet()) {", "for (size_t k = 0; k < alphabet().size(); ++k) {\n        const IntSeq& seq = alphabet()[k];"))),
    ('rk-alph-first', 'ok', P, [(S, ALPH, "    slots += static_cast<int>(alphabet().size());\n" + ALPH.replace("    slots += alphabet().size();\n", ""))]),
    ('rk-alph-size', 'ok', P, ed(ALPH, ("alphabet().size()", "size()"))),
    ('rk-alph-items', 'ok', P, ed(ALPH, ("alphabet().size()", "items.size()"))),
    ('rk-alph-push', 'ok', P, ed(ALPH, ("items.emplace_back(-1, symbol, " + MAX + ", freq(symbol));", "const int count = freq(symbol);\n        items.push_back(StatItem(-1, symbol, " + MAX + ", count));"))),
    ('rk-out-idx', 'ok', P, ed(OUT, ("for (const StatItem& item : items) {", "for (size_t k = 0; k < items.size(); k++) {\n        const StatItem& item = items[k];"))),
    ('rk-out-one', 'ok', P, ed(OUT, ("        if (item.score() < 0)\n            break;\n        if (--slots < 0)\n            break;\n", "        if (item.score() < 0 || slots-- <= 0)\n            break;\n"))),
    ('rk-out-used', 'ok', P, [(S, OUT, "    int used = 0;\n" + OUT.replace("if (--slots < 0)", "if (used++ >= slots)"))]),
    ('rk-out-k', 'ok', P, ed(OUT, ("for (const StatItem& item : items) {", "for (int k = 0; k < items.size() && k < slots; k++) {\n        const StatItem& item = items[k];"), ("        if (--slots < 0)\n            break;\n", ""))),
    ('rk-out-size', 'ok', P, ed(OUT, ("--slots < 0", "(int) new_dict->size() >= slots"))),
    ('rk-out-order', 'ok', P, ed(OUT, ("        new_dict->push_back(item_text);\n        freqs->push_back(item.count());\n", "        freqs->push_back(item.count());\n        new_dict->push_back(std::move(item_text));\n"))),
    ('rk-out-emplace', 'ok', P, ed(OUT, ("new_dict->push_back(item_text)", "new_dict->emplace_back(item_text)"))),
    ('rk-kn-find', 'ok', P, ed(KN, ("known.count(item_text) == 0", "known.find(item_text) == known.end()"))),
    ('rk-kn-ins', 'ok', P, [(S, KN, "        if (known.insert(item_text).second)\n            items.push_back(item);\n")]),
    ('rk-kn-cont', 'ok', P, [(S, KN, "        if (known.count(item_text))\n            continue;\n        items.push_back(item);\n        known.insert(item_text);\n")]),
    ('rk-txt-loop', 'ok', P, [(S, TXT, "    if (item.first() >= 0) {\n        const IntSeq& head = get(item.first());\n        output->insert(output->end(), head.begin(), head.end());\n    }\n    const IntSeq& tail = get(item.second());\n    output->insert(output->end(), tail.begin(), tail.end());\n")]),
    ('rk-txt-push', 'ok', P, [(S, TXT, "    if (item.first() >= 0) {\n        for (int c : get(item.first()))\n            output->push_back(c);\n    }\n    for (int c : get(item.second()))\n        output->push_back(c);\n")]),
    ('rk-txt-neg', 'ok', P, [(S, TXT, "    if (item.first() < 0) {\n        *output = get(item.second());\n        return;\n    }\n    *output = get(item.first());\n    output->insert(output->end(), get(item.second()).begin(), get(item.second()).end());\n")]),
    ('rk-red-local', 'ok', P, ed(RED, ("        new_dict->push_back(get(item.second()));\n", "        const IntSeq& seq = get(item.second());\n        new_dict->push_back(seq);\n"))),
    ('rk-red-first-p', 'ok', P, ed(RED, ("        double p", "        freqs->push_back(item.count());\n        double p"), ("        freqs->push_back(item.count());\n    }", "    }"))),
    ('rk-red-idx', 'ok', P, ed(RED, ("for (const auto& item : items) {", "for (int k = 0; k < (int) items.size(); k++) {\n        const auto item = items[k];"))),
    ('rk-upd-local', 'ok', P, [(B, "        double min_prob_result = " + UPD, "        const int composites = size_ - static_cast<int>(symb_alphabet_.size());\n        double min_prob_result = " + UPD.replace("size_ - alphabet_size", "composites"))]),
    ('rk-rec-not', 'ok', P, ed(REC, ("            if (alpha_accum_num >= alphabet_size) {\n                symb_alphabet_.push_back(current_->get(i));\n            }\n            alpha_accum_num++;\n", "            if (!(alpha_accum_num++ < alphabet_size))\n                symb_alphabet_.push_back(current_->get(i));\n"), f=B)),
    ('rk-desc', 'ok', P, [(S, "    std::sort(items->begin(), items->end(), [] (const StatItem& a, const StatItem& b) { return -a.score() < -b.score(); });",
                            "    std::sort(items->begin(), items->end(), [] (const StatItem& a, const StatItem& b) { return a.score() > b.score(); });")]),
    ('rk-helper', 'ok', P, [(S, "int StatDictImpl::filter_stat_items(", "static int places(int slots, int base) {\n    return slots + base;\n}\n\nint StatDictImpl::filter_stat_items("),
                            (S, FILT, FILT.replace("    for", "    int base = 0;\n    for", 1).replace("slots += 1", "base += 1") + "    slots = places(slots, base);\n")]),
]
