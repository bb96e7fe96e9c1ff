D = 'core/src/main/cpp/algorithm/int_dict_p.cc'
S = 'core/src/main/cpp/algorithm/stat_dict_p.cc'
SH = 'core/src/main/cpp/algorithm/stat_dict_p.h'
B = 'core/src/main/cpp/algorithm/int_vgram_builder_p.cc'
BH = 'core/src/main/cpp/algorithm/int_vgram_builder_p.h'
I = 'core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc'
IH = 'core/src/main/cpp/interfaces/vgram_builders/int_vgram.h'
IS = 'core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc'
ST = 'core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc'
SS = 'core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc'
L = 'core/src/main/cpp/interfaces/loader.h'
P = ['C07']
V = [
    ('in-power', P, P, [(SH, "double power_ = 0;", "double power_;")]),
    ('in-total', P, P, [(SH, "double total_chars_ = 0;", "double total_chars_;")]),
    ('in-populate', P, P, [(BH, "bool populate_ = true;", "bool populate_;")]),
    ('in-load-verbose', P, P, [(IS, "    verbose_ = 1;\n", "")]),
    ('in-load-minprob', P, P, [(IS, "    size_ = size;\n    min_probability_ = min_probability;\n", "    size_ = size;\n")]),
    ('in-load-total', P, P, [(IS, "    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);\n//    std::cout << \"dict_", "//    std::cout << \"dict_")]),
    ('in-iter-load', P, P, [(I, "    iter_num_ = 0;\n", "")]),
    ('in-size0', P, P, [(B, "    size_ = size;\n    symb_alphabet_ = std", "    symb_alphabet_ = std")]),
    ('in-verbose-b', P, P, [(B, "    result_ = nullptr;\n    verbose_ = verbose;", "    result_ = nullptr;")]),
    ('in-swap', P, P, [(I, ": IntStreamVGram(size, verbose) {", ": IntStreamVGram(verbose, size) {")]),
    ('in-swap2', P, P, [(ST, ": int_builder_(std::make_shared<IntVGram>(size, iter_num, verbose)),\n          tokenizer_(std::make_shared<Char", ": int_builder_(std::make_shared<IntVGram>(iter_num, size, verbose)),\n          tokenizer_(std::make_shared<Char")]),
    ('in-verbose-drop', P, P, [(ST, ": int_builder_(std::make_shared<IntVGram>(size, iter_num, verbose)),\n          tokenizer_(tokenizer) {}", ": int_builder_(std::make_shared<IntVGram>(size, iter_num, 1)),\n          tokenizer_(tokenizer) {}")]),
    ('in-verbose-drop2', P, P, [(IS, "new IntVGramBuilderImpl(size - 1, verbose)", "new IntVGramBuilderImpl(size - 1, 0)")]),
    ('in-verbose-drop3', P, P, [(IS, "new IntVGramBuilderImpl(size - 1, verbose)", "new IntVGramBuilderImpl(size - 1)")]),
    ('in-fitted', P, P, [(I, "    fitted_ = fitted;\n    freqs_computed_ = freqs_computed;", "    fitted_ = freqs_computed;\n    freqs_computed_ = freqs_computed;")]),
    ('in-fitted2', P, P, [(I, "    fitted_ = fitted;\n    freqs", "    fitted_ = true;\n    freqs")]),
    ('in-copy-sorted', P, P, [(D, "    sorted_size_ = dict.sorted_size_;\n", "")]),
    ('in-copy-new', P, P, [(D, "    new_symbols_ = dict.new_symbols_;\n", "")]),
    ('in-minprob', P, P, [(S, "    min_probability_ = min_prob_result;\n", "    min_probability_ = kMaxMinProbability;\n")]),
    ('in-words', P, P, [(SS, "    if (words_are_tokens) {\n        tokenizer_ = make_shared<Word", "    if (inner_words_split) {\n        tokenizer_ = make_shared<Word")]),
    ('in-words2', P, P, [(SS, "    if (words_are_tokens) {\n        tokenizer_ = make_shared<Word", "    if (!words_are_tokens) {\n        tokenizer_ = make_shared<Word")]),
    ('in-words3', P, P, [(SS, "inner_words_split(inner_words_split), words_are_tokens(words_are_tokens) {\n    check_args();\n    if", "inner_words_split(words_are_tokens), words_are_tokens(inner_words_split) {\n    check_args();\n    if")]),
    ('in-item', P, P, [(S, "    count_ = count;\n", "")]),
    ('in-item-swap', P, P, [(S, "    first_ = first;\n    second_ = second;", "    first_ = second;\n    second_ = first;")]),
    ('in-loader', P, P, [(L, "            size = dict[\"size\"];\n", "")]),
    ('in-loader2', P, P, [(L, "            fitted = dict[\"fitted\"].get<bool>();\n", "")]),
    ('in-tok', P, P, [(ST, ": int_builder_(std::make_shared<IntVGram>(size, iter_num, 1)),\n          tokenizer_(tokenizer) {}", ": int_builder_(std::make_shared<IntVGram>(size, iter_num, 1)),\n          tokenizer_(std::make_shared<CharTokenizer>()) {}")]),
    ('in-init-verbose', P, P, [(B, "    verbose_ = verbose;\n    size_ = size;\n    symb_alphabet_ = alphabet.alphabet();", "    size_ = size;\n    symb_alphabet_ = alphabet.alphabet();")]),
    ('in-ok-list', 'ok', P, [(B, "IntVGramBuilderImpl::IntVGramBuilderImpl(int size, int verbose) {\n    size_ = size;\n", "IntVGramBuilderImpl::IntVGramBuilderImpl(int size, int verbose) : size_(size) {\n")]),
    ('in-ok-item', 'ok', P, [(S, "StatItem::StatItem(int first, int second, double score, int count) {\n    first_ = first;\n    second_ = second;\n    score_ = score;\n    count_ = count;\n}", "StatItem::StatItem(int first, int second, double score, int count)\n    : first_(first), second_(second), score_(score), count_(count) {}")]),
    ('in-ok-deleg', 'ok', P, [(ST, ": int_builder_(std::make_shared<IntVGram>(size, iter_num, 1)),\n          tokenizer_(tokenizer) {}", ": StringVGram(size, iter_num, tokenizer, 1) {}")]),
    ('in-ok-init', 'ok', P, [(D, "    seqs_ = dict.seqs_; // Sanitizer: indirect leak\n    parents_ = dict.parents_; // Sanitizer: indirect leak\n    sorted_size_ = dict.sorted_size_;\n    new_symbols_ = dict.new_symbols_;\n", "    *this = dict;\n")]),
    ('in-ok-init2', 'ok', P, [(D, "IntDictImpl::IntDictImpl(const IntDictImpl& dict) {\n    seqs_ = dict.seqs_; // Sanitizer: indirect leak\n    parents_ = dict.parents_; // Sanitizer: indirect leak\n    sorted_size_ = dict.sorted_size_;\n    new_symbols_ = dict.new_symbols_;\n", "IntDictImpl::IntDictImpl(const IntDictImpl& dict)\n    : seqs_(dict.seqs_), parents_(dict.parents_), sorted_size_(dict.sorted_size_), new_symbols_(dict.new_symbols_) {\n")]),
    ('in-ok-tok', 'ok', P, [(SS, "    if (words_are_tokens) {\n        tokenizer_ = make_shared<WordTokenizer>();\n    } else {\n        tokenizer_ = make_shared<CharTokenizer>();\n    }\n", "    if (!words_are_tokens)\n        tokenizer_ = make_shared<CharTokenizer>();\n    else\n        tokenizer_ = make_shared<WordTokenizer>();\n")]),
    ('in-ok-rename', 'ok', P, [(S, "StatItem::StatItem(int first, int second, double score, int count) {\n    first_ = first;\n    second_ = second;\n    score_ = score;\n    count_ = count;", "StatItem::StatItem(int f, int s, double sc, int c) {\n    first_ = f;\n    second_ = s;\n    score_ = sc;\n    count_ = c;")]),
    ('in-ok-local', 'ok', P, [(D, "        int sym = symbols[pos];\n        solution", "        int sym;\n        sym = symbols[pos];\n        solution")]),
]
