A = 'core/src/main/cpp/algorithm/'
S, SH = A + 'stat_dict_p.cc', A + 'stat_dict_p.h'
IF = 'core/src/main/cpp/interfaces/'
SV = IF + 'saver.h'
P = ['C14']
SI = "    std::sort(items->begin(), items->end(), [] (const StatItem& a, const StatItem& b) { return -a.score() < -b.score(); });\n"
EX = "    std::sort(items.begin(), items.end(), [] (const StatItem& a, const StatItem& b) { return -a.score() < -b.score(); });\n"
SA = "[](const std::pair<int, int> &a, const std::pair<int, int> &b) { return a.second < b.second; }"


def lam(body):
    return "[] (const StatItem& a, const StatItem& b) { %s }" % body


def si(body):
    return (S, SI, "    std::sort(items->begin(), items->end(), %s);\n" % lam(body))


def ex(body):
    return (S, EX, "    std::sort(items.begin(), items.end(), %s);\n" % lam(body))


V = [
    ('or-le', P, P, [si("return a.score() >= b.score();")]),
    ('or-notlt', P, P, [ex("return !(a.score() < b.score());")]),
    ('or-ascend', P, P, [ex("return a.score() < b.score();")]),
    ('or-ascend2', P, P, [si("return a.score() < b.score();")]),
    ('or-eps', P, P, [si("return a.score() > b.score() + 1e-9;")]),
    ('or-mixed', P, P, [si("return a.score() > b.score() || a.count() > b.count();")]),
    ('or-mixed2', P, P, [si("if (a.score() > b.score()) return true; return a.count() < b.count();")]),
    ('or-and', P, P, [si("return a.score() > b.score() && a.count() > b.count();")]),
    ('or-tie-le', P, P, [si("if (a.score() != b.score()) return a.score() > b.score(); return a.second() <= b.second();")]),
    ('or-addr', P, P, [si("if (a.score() != b.score()) return a.score() > b.score(); return &a < &b;")]),
    ('or-rand', P, P, [si("if (a.score() != b.score()) return a.score() > b.score(); return rand() % 2 == 0;")]),
    ('or-count', P, P, [si("return a.count() > b.count();")]),
    ('or-cross', P, P, [si("return a.score() > b.count();")]),
    ('or-true', P, P, [si("if (a.score() == b.score()) return true; return a.score() > b.score();")]),
    ('or-self', P, P, [si("return a.second() <= b.second();")]),
    ('or-code-desc', P, P, [(SV, SA, SA.replace("a.second < b.second", "a.second > b.second"))]),
    ('or-code-le', P, P, [(SV, SA, SA.replace("a.second < b.second", "a.second <= b.second"))]),
    ('or-code-first', P, P, [(SV, SA, SA.replace("a.second < b.second", "a.first < b.first"))]),
    ('or-code-near', P, P, [(SV, SA, SA.replace("a.second < b.second", "a.second + 1 < b.second"))]),
    ('or-ok-gt', 'ok', P, [si("return a.score() > b.score();"), ex("return b.score() < a.score();")]),
    ('or-ok-diff', 'ok', P, [si("return b.score() - a.score() < 0;")]),
    ('or-ok-not', 'ok', P, [si("return !(a.score() <= b.score());")]),
    ('or-ok-tie', 'ok', P, [si("if (a.score() != b.score()) return a.score() > b.score(); return a.second() < b.second();")]),
    ('or-ok-tie2', 'ok', P, [si("return a.score() > b.score() || (a.score() == b.score() && a.second() < b.second());")]),
    ('or-ok-tie3', 'ok', P, [si("if (a.score() > b.score()) return true; if (a.score() < b.score()) return false; return a.second() < b.second();")]),
    ('or-ok-named', 'ok', P, [(S, SI, "    std::sort(items->begin(), items->end(), by_score);\n"), (S, EX, "    std::sort(items.begin(), items.end(), by_score);\n"), (S, "StatDictImpl::StatDictImpl(double min_probability) {", "static bool by_score(const StatItem& a, const StatItem& b) {\n    return a.score() > b.score();\n}\n\nStatDictImpl::StatDictImpl(double min_probability) {")]),
    ('or-named-bad', P, P, [(S, SI, "    std::sort(items->begin(), items->end(), by_score);\n"), (S, EX, "    std::sort(items.begin(), items.end(), by_score);\n"), (S, "StatDictImpl::StatDictImpl(double min_probability) {", "static bool by_score(const StatItem& a, const StatItem& b) {\n    return a.score() >= b.score();\n}\n\nStatDictImpl::StatDictImpl(double min_probability) {")]),
    ('or-ok-functor', 'ok', P, [(S, SI, "    std::sort(items->begin(), items->end(), ByScore());\n"), (S, EX, "    std::sort(items.begin(), items.end(), ByScore());\n"), (S, "StatDictImpl::StatDictImpl(double min_probability) {", "struct ByScore {\n    bool operator()(const StatItem& a, const StatItem& b) const { return a.score() > b.score(); }\n};\n\nStatDictImpl::StatDictImpl(double min_probability) {")]),
    ('or-functor-bad', P, P, [(S, SI, "    std::sort(items->begin(), items->end(), ByScore());\n"), (S, EX, "    std::sort(items.begin(), items.end(), ByScore());\n"), (S, "StatDictImpl::StatDictImpl(double min_probability) {", "struct ByScore {\n    bool operator()(const StatItem& a, const StatItem& b) const { return a.score() >= b.score(); }\n};\n\nStatDictImpl::StatDictImpl(double min_probability) {")]),
    ('or-ok-local', 'ok', P, [(S, SI, "    auto better = %s;\n    std::sort(items->begin(), items->end(), better);\n" % lam("return a.score() > b.score();"))]),
    ('or-ok-stable', 'ok', P, [(S, SI, SI.replace("std::sort", "std::stable_sort"))]),
    ('or-ok-reverse', 'ok', P, [(S, SI, SI.replace("-a.score() < -b.score()", "a.score() < b.score()") + "    std::reverse(items->begin(), items->end());\n")]),
    ('or-ok-rbegin', 'ok', P, [(S, SI, SI.replace("-a.score() < -b.score()", "a.score() < b.score()").replace("items->begin(), items->end()", "items->rbegin(), items->rend()"))]),
    ('or-ok-byvalue', 'ok', P, [(SV, SA, "[](std::pair<int, int> a, std::pair<int, int> b) { return a.second < b.second; }")]),
    ('or-ok-swapparams', 'ok', P, [(SV, SA, "[](const std::pair<int, int> &x, const std::pair<int, int> &y) { return !(x.second >= y.second); }")]),
    ('or-ok-array', 'ok', P, [(SV, "            std::vector<std::pair<int, int>> pairs(codes.begin(), codes.end());", "            std::vector<int> by_code(codes.size());\n            for (const auto &c : codes)\n                by_code[c.second] = c.first;"), (SV, "            std::sort(pairs.begin(), pairs.end(),\n                      " + SA + ");\n", ""), (SV, "            for (const auto &p : pairs) {\n                coder_obj.push_back(p.first);", "            for (int symbol : by_code) {\n                coder_obj.push_back(symbol);")]),
]
