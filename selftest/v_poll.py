IF = 'core/src/main/cpp/interfaces/'
I, IH = IF + 'vgram_builders/int_vgram.cc', IF + 'vgram_builders/int_vgram.h'
B = 'binding/src/main/cpp/py_int_vgram_builder.h'
P = ['C18']
FIT = "            accept(seqs[generator() % seqs.size()]);\n            if (isTerminated()) {\n                return nullptr;\n            }\n"
TR = "        IntSeq result = parse(seq);\n        res.push_back(result);\n        if (isTerminated()) {\n            break;\n        }\n"
TS = "        res.push_back(str);\n        if (isTerminated()) {\n            break;\n        }\n"
RC = "        if (isTerminated()) {\n            total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);\n            return false;\n        }\n"
V = [
    ('po-fit-none', P, P, [(I, FIT, "            accept(seqs[generator() % seqs.size()]);\n")]),
    ('po-fit-outer', P, P, [(I, FIT, "            accept(seqs[generator() % seqs.size()]);\n"), (I, "        update_dict();\n        //TODO", "        update_dict();\n        if (isTerminated()) return nullptr;\n        //TODO")]),
    ('po-fit-mod', P, P, [(I, "            if (isTerminated()) {\n                return nullptr;", "            if (k % 1000 == 999 && isTerminated()) {\n                return nullptr;")]),
    ('po-fit-break', P, P, [(I, FIT, FIT.replace("return nullptr;", "break;"))]),
    ('po-fit-update', P, P, [(I, FIT, FIT.replace("return nullptr;", "update_dict();\n                return nullptr;"))]),
    ('po-rec-none', P, P, [(I, RC, "")]),
    ('po-rec-skip', P, P, [(I, "        IntSeq result;\n        dict_->parse(", "        if (seq.size() == 1)\n            continue;\n        IntSeq result;\n        dict_->parse(")]),
    ('po-tr-none', P, P, [(I, TR, "        IntSeq result = parse(seq);\n        res.push_back(result);\n")]),
    ('po-tr-empty', P, P, [(I, TR, "        IntSeq result = parse(seq);\n        res.push_back(result);\n        if (result.empty())\n            continue;\n        if (isTerminated()) {\n            break;\n        }\n")]),
    ('po-tr-ignored', P, P, [(I, TR, "        IntSeq result = parse(seq);\n        res.push_back(result);\n        isTerminated();\n")]),
    ('po-tr-continue', P, P, [(I, TR, "        if (isTerminated()) {\n            res.emplace_back();\n            continue;\n        }\n        IntSeq result = parse(seq);\n        res.push_back(result);\n")]),
    ('po-ts-none', P, P, [(I, TS, "        res.push_back(str);\n")]),
    ('po-inv', P, P, [(B, "PyErr_CheckSignals() == -1", "PyErr_CheckSignals() == 1")]),
    ('po-inv2', P, P, [(B, "PyErr_CheckSignals() == -1", "PyErr_CheckSignals() != -1")]),
    ('po-nonconst', P, P, [(B, "bool isTerminated() const override", "bool isTerminated()")]),
    ('po-nonvirt', P, P, [(IH, "virtual bool isTerminated() const;", "bool isTerminated() const;"), (B, "const override {\n        //TODO", "const {\n        //TODO")]),
    ('po-qualified', P, P, [(I, "        res.push_back(result);\n        if (isTerminated()) {", "        res.push_back(result);\n        if (IntVGram::isTerminated()) {")]),
    ('po-false', P, P, [(B, "return PyErr_CheckSignals() == -1;", "return false;")]),
    ('po-ok-cond', 'ok', P, [(I, FIT, "            accept(seqs[generator() % seqs.size()]);\n            const bool stop = isTerminated();\n            if (stop)\n                return nullptr;\n")]),
    ('po-ok-before', 'ok', P, [(I, TR, "        if (isTerminated())\n            break;\n        IntSeq result = parse(seq);\n        res.push_back(result);\n")]),
    ('po-ok-loopcond', 'ok', P, [(I, "    for (const IntSeq &seq : seqs) {\n        IntSeq result = parse(seq);\n        res.push_back(result);\n        if (isTerminated()) {\n            break;\n        }\n    }\n", "    bool stop = false;\n    for (size_t i = 0; i < seqs.size() && !stop; i++) {\n        IntSeq result = parse(seqs[i]);\n        res.push_back(result);\n        stop = isTerminated();\n    }\n")]),
    ('po-ok-loopcond2', 'ok', P, [(I, "    for (const IntSeq &seq : seqs) {\n        IntSeq result = parse(seq);\n        res.push_back(result);\n        if (isTerminated()) {\n            break;\n        }\n    }\n", "    for (size_t i = 0; i < seqs.size() && !isTerminated(); i++) {\n        res.push_back(parse(seqs[i]));\n    }\n")]),
    ('po-ok-helper', 'ok', P, [(I, FIT, "            if (!step(seqs[generator() % seqs.size()]))\n                return nullptr;\n"), (I, "bool IntVGram::recompute_freqs", "bool IntVGram::step(const IntSeq &seq) {\n    accept(seq);\n    return !isTerminated();\n}\n\nbool IntVGram::recompute_freqs"), (IH, "        bool recompute_freqs", "        bool step(const IntSeq &seq);\n\n        bool recompute_freqs")]),
    ('po-ok-py', 'ok', P, [(B, "return PyErr_CheckSignals() == -1;", "return PyErr_CheckSignals() != 0;")]),
    ('po-ok-py2', 'ok', P, [(B, "return PyErr_CheckSignals() == -1;", "if (PyErr_CheckSignals() < 0)\n            return true;\n        return false;")]),
    ('po-ok-py3', 'ok', P, [(B, "return PyErr_CheckSignals() == -1;", "const int pending = PyErr_CheckSignals();\n        return pending == -1;")]),
]
