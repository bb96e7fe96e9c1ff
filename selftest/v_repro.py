A = 'core/src/main/cpp/algorithm/'
IF = 'core/src/main/cpp/interfaces/'
F, D, S, B = A + 'fast_random.cc', A + 'int_dict_p.cc', A + 'stat_dict_p.cc', A + 'int_vgram_builder_p.cc'
I = IF + 'vgram_builders/int_vgram.cc'
P = ['C08']
G = "    std::default_random_engine generator;"
V = [
    ('rp-static-gen', P, P, [(F, G, "    static" + G[3:])]),
    ('rp-static-gen2', P, P, [(I, G, "    static" + G[3:])]),
    ('rp-thread-gen', P, P, [(F, G, "    thread_local" + G[3:])]),
    ('rp-global-gen', P, P, [(F, G, ""), (F, "void next_dirichlet", "static std::default_random_engine generator;\n\nvoid next_dirichlet")]),
    ('rp-device', P, P, [(F, G, "    std::random_device rd;\n    std::default_random_engine generator(rd());")]),
    ('rp-clock', P, P, [(I, G, G + "\n    generator.seed(std::chrono::steady_clock::now().time_since_epoch().count());"), (I, "#include <random>", "#include <random>\n#include <chrono>")]),
    ('rp-time', P, P, [(I, G, "    std::default_random_engine generator(time(nullptr));")]),
    ('rp-addr', P, P, [(I, G, "    std::default_random_engine generator(reinterpret_cast<size_t>(this));")]),
    ('rp-rand', P, P, [(I, "accept(seqs[generator() % seqs.size()]);", "accept(seqs[rand() % seqs.size()]);")]),
    ('rp-deadline', P, P, [(I, "            if (isTerminated()) {\n                return nullptr;", "            if (isTerminated() || time(nullptr) > 2000000000) {\n                return nullptr;")]),
    ('rp-static-prev', P, P, [(S, "    int prev = -1;", "    static int prev;\n    prev = -1;")]),
    ('rp-static-prev2', P, P, [(S, "    int prev = -1;", "    static int prev = -1;")]),
    ('rp-static-base', P, P, [(S, "    slots += alphabet().size();", "    static const int base = alphabet().size();\n    slots += base;")]),
    ('rp-static-member', P, P, [(IF + 'seq_coder.h', "        std::unordered_map<int, int> backward_code_;", "        static std::unordered_map<int, int> backward_code_;"),
                               (IF + 'seq_coder.cc', "SeqCoder::SeqCoder() {", "std::unordered_map<int, int> SeqCoder::backward_code_;\nSeqCoder::SeqCoder() {")]),
    ('rp-static-buf', P, P, [(D, "    IntSeq suffix = seq;\n", "    static IntSeq suffix;\n    suffix = seq;\n")]),
    ('rp-srand', P, P, [(I, G, G + "\n    srand(7);")]),
    ('rp-getenv', P, P, [(B, "    prob_found_ *= 0.8;", "    prob_found_ *= getenv(\"VGRAM_SLOW\") ? 0.9 : 0.8;")]),
    ('rp-ok-seed', 'ok', P, [(F, G, "    std::default_random_engine generator(1);")]),
    ('rp-ok-mt', 'ok', P, [(I, G, "    std::mt19937 generator(42 + size_);")]),
    ('rp-ok-timing', 'ok', P, [(I, G, "    auto start = std::chrono::steady_clock::now();\n" + G), (I, "    fitted_ = true;\n", "    if (verbose_ > 0)\n        std::cout << (std::chrono::steady_clock::now() - start).count() << std::endl;\n    fitted_ = true;\n"), (I, "#include <random>", "#include <random>\n#include <chrono>")]),
    ('rp-ok-const', 'ok', P, [(S, "        int samples_count = 10;", "        static const int samples_count = 10;")]),
    ('rp-ok-table', 'ok', P, [(S, "        int samples_count = 10;", "        static const std::vector<int> counts = {10, 20};\n        int samples_count = counts[0];")]),
    ('rp-ok-helper', 'ok', P, [(F, "void next_dirichlet", "static double draw(double a, std::default_random_engine& generator) {\n    return std::gamma_distribution<double>(a, 1)(generator);\n}\n\nvoid next_dirichlet"),
                              (F, "gamma = std::gamma_distribution<double>(params[i], 1)(generator);", "gamma = draw(params[i], generator);")]),
    ('rp-ok-member', 'ok', P, [(I, G + "\n", ""), (IF + 'vgram_builders/int_vgram.h', "        bool freqs_computed_ = false;", "        bool freqs_computed_ = false;\n        std::default_random_engine generator;"),
                              (IF + 'vgram_builders/int_vgram.h', '#include "../json.h"', '#include <random>\n#include "../json.h"')]),
    ('rp-ok-anon', 'ok', P, [(F, "void next_dirichlet", "namespace {\nconst double kShape = 1;\n}\n\nvoid next_dirichlet"), (F, "(params[i], 1)", "(params[i], kShape)")]),
]
