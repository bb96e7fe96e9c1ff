"""C23: the Python module exposes each operation under its own name"""
M = 'binding/src/main/cpp/bind_vgram.cc'
PI = 'binding/src/main/cpp/py_int_vgram_builder.h'
PS = 'binding/src/main/cpp/py_vgram_builder.h'
P = ['C23']
X = 'vgram_core::'
V = [
    ('mo-freqs', P, P, [(M, '.def("freqs", &vgram_core::StringStreamVGram::freqs)', '.def("freqs", &vgram_core::StringStreamVGram::alphabet)')]),
    ('mo-parse-accept', P, P, [(M, '.def("parse", &vgram_core::IntStreamVGram::parse)', '.def("parse", &vgram_core::IntStreamVGram::accept)')]),
    ('mo-missing', P, P, [(M, '            .def("update", &vgram_core::StringStreamVGram::update_dict)\n', '')]),
    ('mo-missing-load', P, P, [(M, '            .def_static("load", &PyStringVGram::load)\n', '')]),
    ('mo-typo', P, P, [(M, '.def("alphabet", &PyIntVGram::alphabet)', '.def("alphabeth", &PyIntVGram::alphabet)')]),
    ('mo-load', P, P, [(M, '.def_static("load", &vgram_core::Loader::load_string_stream_vgram)', '.def_static("load", &vgram_core::Loader::load_int_stream_vgram)')]),
    ('mo-class-swap', P, P, [(M, '(m, "IntVGram")', '(m, "VGram_")'), (M, '(m, "VGram")', '(m, "IntVGram")'), (M, '(m, "VGram_")', '(m, "VGram")')]),
    ('mo-kw-swap', P, P, [(M, 'py::arg("size") = 10000, py::arg("iter_num") = 20, py::arg("verbose") = 0)', 'py::arg("size") = 10000, py::arg("verbose") = 0, py::arg("iter_num") = 20)')]),
    ('mo-kw-swap2', P, P, [(M, 'py::arg("inner_words_split") = false, py::arg("words_are_tokens") = false', 'py::arg("words_are_tokens") = false, py::arg("inner_words_split") = false')]),
    ('mo-kw-param', P, P, [(PI, 'PyIntVGram(int size, int iter_num, int verbose) : vgram_core::IntVGram(size, iter_num, verbose)', 'PyIntVGram(int size, int verbose, int iter_num) : vgram_core::IntVGram(size, iter_num, verbose)')]),
    ('mo-pass-swap', P, P, [(PS, ': vgram_core::StringVGram(size, iter_num, verbose) {}', ': vgram_core::StringVGram(iter_num, size, verbose) {}')]),
    ('mo-save-swap', P, P, [(M, 'py::arg("filename") = "vgram_dict.json",\n                 py::arg("tokenizer") = nullptr', 'py::arg("tokenizer") = nullptr,\n                 py::arg("filename") = "vgram_dict.json"')]),
    ('mo-holder', P, P, [(M, 'py::class_<vgram_core::StringStreamVGram, std::shared_ptr<vgram_core::StringStreamVGram>>', 'py::class_<vgram_core::StringStreamVGram>')]),
    ('mo-holder-py', P, P, [(M, 'py::class_<vgram_core::IntStreamVGram, std::shared_ptr<vgram_core::IntStreamVGram>>', 'py::class_<vgram_core::IntStreamVGram, std::unique_ptr<vgram_core::IntStreamVGram>>')]),
    ('mo-cast', P, P, [(PI, """        std::unique_ptr<vgram_core::IntVGram> loaded(vgram_core::Loader::load_int_vgram(filename));
        return new PyIntVGram(*loaded);""", '        return static_cast<PyIntVGram *>(vgram_core::Loader::load_int_vgram(filename));')]),
    ('mo-cast-text', P, P, [(PS, """        std::unique_ptr<vgram_core::StringVGram> loaded(vgram_core::Loader::load_string_vgram(filename));
        return new PyStringVGram(*loaded);""", '        return (PyStringVGram *) vgram_core::Loader::load_string_vgram(filename);')]),
    ('mo-wrong-op', P, P, [(PI, 'return static_cast<PyIntVGram *>(vgram_core::IntVGram::fit(seqs));', 'vgram_core::IntVGram::transform(seqs);\n        return this;')]),
    ('mo-text-transform', P, P, [(M, '.def("transform", &PyStringVGram::transform)', '.def("transform", &PyStringVGram::fit)')]),
    # same behaviour
    ('mo-ok-order', 'ok', P, [(M, '            .def("freqs", &PyIntVGram::freqs)\n            .def("alphabet", &PyIntVGram::alphabet);', '            .def("alphabet", &PyIntVGram::alphabet)\n            .def("freqs", &PyIntVGram::freqs);')]),
    ('mo-ok-base', 'ok', P, [(M, '.def("freqs", &PyIntVGram::freqs)', '.def("freqs", &vgram_core::IntVGram::freqs)')]),
    ('mo-ok-lambda', 'ok', P, [(M, '.def("parse", &vgram_core::IntStreamVGram::parse)', '.def("parse", [](const vgram_core::IntStreamVGram &model, const IntSeq &seq) { return model.parse(seq); })')]),
    ('mo-ok-var', 'ok', P, [(M, 'py::class_<PyStringVGram>(m, "VGram")\n            .def(py::init', 'py::class_<PyStringVGram> text(m, "VGram");\n    text.def(py::init')]),
    ('mo-ok-this', 'ok', P, [(PI, 'return static_cast<PyIntVGram *>(vgram_core::IntVGram::fit(seqs));', 'return vgram_core::IntVGram::fit(seqs) == nullptr ? nullptr : this;')]),
    ('mo-ok-doc', 'ok', P, [(M, '.def("parse", &vgram_core::StringStreamVGram::parse)', '.def("parse", &vgram_core::StringStreamVGram::parse, "splits a text")')]),
    ('mo-ok-rename', 'ok', P, [(PI, 'PyIntVGram(int size, int iter_num, int verbose) : vgram_core::IntVGram(size, iter_num, verbose)', 'PyIntVGram(int size, int iterations, int verbose) : vgram_core::IntVGram(size, iterations, verbose)')]),
    ('mo-ok-make', 'ok', P, [(PI, """        std::unique_ptr<vgram_core::IntVGram> loaded(vgram_core::Loader::load_int_vgram(filename));
        return new PyIntVGram(*loaded);""", """        vgram_core::IntVGram *loaded = vgram_core::Loader::load_int_vgram(filename);
        PyIntVGram *model = new PyIntVGram(*loaded);
        delete loaded;
        return model;""")]),
    ('mo-ok-template', 'ok', P, [(M, 'PYBIND11_MODULE(vgram, m) {', """template <class C, class M>
static void add_tables(C &c) {
    c.def("freqs", &M::freqs).def("alphabet", &M::alphabet);
}

PYBIND11_MODULE(vgram, m) {"""), (M, """    py::class_<PyStringVGram>(m, "VGram")
            .def(""", """    py::class_<PyStringVGram> text(m, "VGram");
    add_tables<py::class_<PyStringVGram>, PyStringVGram>(text);
    text.def("""), (M, """
            .def("freqs", &PyStringVGram::freqs)
            .def("alphabet", &PyStringVGram::alphabet);""", ';')]),
    ('mo-ok-load-lambda', 'ok', P, [(M, '.def_static("load", &vgram_core::Loader::load_string_stream_vgram)', '.def_static("load", [](const std::string &filename) { return vgram_core::Loader::load_string_stream_vgram(filename); })')]),
]
