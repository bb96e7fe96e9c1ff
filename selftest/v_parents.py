D = 'core/src/main/cpp/algorithm/int_dict_p.cc'
H = 'core/src/main/cpp/algorithm/int_dict_p.h'
P = ['C25']
ALL = """    std::vector<std::pair<IntSeq, int>> parents_stack;
    std::sort(seqs_.begin(), seqs_.end());
    sorted_size_ = seqs_.size();

    for (int i = 0; i < seqs_.size(); ++i) {
        IntSeq current = seqs_[i];
        while (!parents_stack.empty()) {
            IntSeq prefix = parents_stack.back().first;
            if (std::mismatch(prefix.begin(), prefix.end(), current.begin()).first == prefix.end()) {
                parents_[i] = parents_stack.back().second;
                break;
            }
            parents_stack.pop_back();
        }
        parents_stack.emplace_back(current, i);
    }
"""
MM = "std::mismatch(prefix.begin(), prefix.end(), current.begin()).first == prefix.end()"


def e(*ab):
    s = ALL
    for a, b in ab:
        assert a in s, a
        s = s.replace(a, b)
    return [(D, ALL, s)]


V = [
    ('pr-if', ['C25'], P, e(("while (!parents", "if (!parents"), ("                break;\n            }\n            parents_stack.pop_back();", "            } else\n                parents_stack.pop_back();"))),
    ('pr-nopush', ['C25'], P, e(("                break;\n", "                break;\n"), ("        parents_stack.emplace_back(current, i);", "        if (parents_[i] < 0)\n            parents_stack.emplace_back(current, i);"))),
    ('pr-len', ['C25'], P, e(("        parents_stack.emplace_back(current, i);", "        if (current.size() > 1)\n            parents_stack.emplace_back(current, i);"))),
    ('pr-popboth', ['C25'], P, e(("                break;", "                parents_stack.pop_back();\n                break;"))),
    ('pr-bottom', ['C25'], P, e(("parents_[i] = parents_stack.back().second", "parents_[i] = parents_stack.front().second"))),
    ('pr-wrongid', ['C25'], P, e(("(current, i)", "(current, i + 1)"))),
    ('pr-key', ['C25'], P, e(("parents_[i] =", "parents_[i - 1] ="))),
    ('pr-nosort', ['C25'], P, e(("    std::sort(seqs_.begin(), seqs_.end());\n", ""))),
    ('pr-desc', [], P, e(("seqs_.end());\n    sorted", "seqs_.end(), std::greater<IntSeq>());\n    sorted"))),
    ('pr-clear', ['C25'], P, e(("            parents_stack.pop_back();", "            parents_stack.clear();"))),
    ('pr-zero', ['C25'], P, [(D, "parents_ = IntSeq(seqs_.size(), -1);", "parents_ = IntSeq(seqs_.size(), 0);")]),
    ('pr-break', ['C25'], P, e(("            parents_stack.pop_back();", "            parents_stack.pop_back();\n            if (parents_stack.size() > 16)\n                break;"))),
    ('pr-not', ['C25'], P, e(("first == prefix.end()", "first != prefix.end()"))),
    ('pr-notest', ['C25'], P, e(("            if (" + MM + ") {\n                parents_[i] = parents_stack.back().second;\n                break;\n            }\n            parents_stack.pop_back();", "            parents_[i] = parents_stack.back().second;\n            break;"))),
    ('pr-app', ['C25'], P, [(D, "        parents_.push_back(-1);", "        parents_.push_back(0);")]),
    ('pr-app2', ['C25'], P, [(D, "        parents_.push_back(-1);", "        parents_.push_back(ind);")]),
    ('pr-get', ['C25'], P, [(D, "    return parents_[second];", "    return parents_[second - 1];")]),
    ('pr-get2', ['C25'], P, [(D, "    return parents_[second];", "    return parents_[second] < 0 ? -1 : parents_[parents_[second]];")]),
    # the same behaviour
    ('pr-ok-ids', 'ok', P, e(("std::vector<std::pair<IntSeq, int>>", "std::vector<int>"), ("IntSeq prefix = parents_stack.back().first", "const IntSeq& prefix = seqs_[parents_stack.back()]"), ("parents_stack.back().second", "parents_stack.back()"), ("emplace_back(current, i)", "push_back(i)"))),
    ('pr-ok-ref', 'ok', P, e(("IntSeq current", "const IntSeq& current"), ("IntSeq prefix", "const IntSeq& prefix"))),
    ('pr-ok-found', 'ok', P, e(("        while (!parents_stack.empty()) {", "        bool found = false;\n        while (!found && !parents_stack.empty()) {"), ("                break;\n            }\n            parents_stack.pop_back();", "                found = true;\n            } else {\n                parents_stack.pop_back();\n            }"))),
    ('pr-ok-two', 'ok', P, e(("            if (" + MM + ") {\n                parents_[i] = parents_stack.back().second;\n                break;\n            }\n            parents_stack.pop_back();\n        }\n", "            if (" + MM + ")\n                break;\n            parents_stack.pop_back();\n        }\n        if (!parents_stack.empty())\n            parents_[i] = parents_stack.back().second;\n"))),
    ('pr-ok-equal', 'ok', P, e((MM, "prefix.size() <= current.size() && std::equal(prefix.begin(), prefix.end(), current.begin())"))),
    ('pr-ok-helper', 'ok', P, e((MM, "starts_with(current, prefix)")) + [(D, "void IntDictImpl::init", "static bool starts_with(const IntSeq& seq, const IntSeq& prefix) {\n    return std::mismatch(prefix.begin(), prefix.end(), seq.begin()).first == prefix.end();\n}\n\nvoid IntDictImpl::init")]),
    ('pr-ok-size', 'ok', P, e(("!parents_stack.empty()", "parents_stack.size() > 0"))),
    ('pr-ok-chain', 'ok', P, [(D, ALL, """    std::sort(seqs_.begin(), seqs_.end());
    sorted_size_ = seqs_.size();
    for (int i = 0; i < seqs_.size(); ++i) {
        int p = i - 1;
        while (p >= 0 && std::mismatch(seqs_[p].begin(), seqs_[p].end(), seqs_[i].begin()).first != seqs_[p].end())
            p = parents_[p];
        parents_[i] = p;
    }
""")]),
    ('pr-ok-pushpair', 'ok', P, e(("emplace_back(current, i)", "push_back(std::make_pair(current, i))"))),
]
