IF = 'core/src/main/cpp/interfaces/'
S, L = IF + 'saver.h', IF + 'loader.h'
IV = IF + 'vgram_builders/int_vgram.cc'
P = ['C19']
W = """            std::ofstream file(filename);
            file << std::setw(2) << dict << std::endl;
            file.close();
            if (!file) {
                throw std::runtime_error("Can't write the dictionary to " + filename);
            }
"""
THROW = """                throw std::runtime_error("Can't write the dictionary to " + filename);\n"""
R = """            std::ifstream file(filename);
            json dict;
            file >> dict;
            file.close();
            return dict;
"""


def w(s):
    return (S, W, s)


V = [
    ('sv-nocheck', P, P, [w(W[:W.index("            if (!file)")])]),
    ('sv-openonly', P, P, [w("            std::ofstream file(filename);\n            if (!file)\n" + THROW + "            file << std::setw(2) << dict << std::endl;\n            file.close();\n")]),
    ('sv-isopen', P, P, [w("            std::ofstream file(filename);\n            if (!file.is_open())\n" + THROW + "            file << std::setw(2) << dict << std::endl;\n            file.close();\n")]),
    ('sv-bad', P, P, [w(W.replace("if (!file)", "if (file.bad())"))]),
    ('sv-noflush', P, P, [w(W.replace(" << std::endl", " << \"\\n\"").replace("            file.close();\n", ""))]),
    ('sv-checkbefore', P, P, [w(W.replace("            file.close();\n", "").replace("<< dict << std::endl", "<< dict") .replace("            }\n", "            }\n            file << std::endl;\n            file.close();\n"))]),
    ('sv-return', P, P, [w(W.replace(THROW, "                return;\n"))]),
    ('sv-print', P, P, [w(W.replace(THROW, "                std::cerr << \"Can't write\" << std::endl;\n"))]),
    ('sv-catch', P, P, [w("            try {\n" + W + "            } catch (const std::exception &) {\n            }\n")]),
    ('sv-exc-off', P, P, [w("            std::ofstream file(filename);\n            file << std::setw(2) << dict << std::endl;\n            file.exceptions(std::ofstream::failbit);\n")]),
    ('sv-empty-skip', P, P, [w(W.replace("            std::ofstream file(filename);\n", "            if (dict.empty())\n                return;\n            std::ofstream file(filename);\n"))]),
    ('sv-wrong-cond', P, P, [w(W.replace("if (!file)", "if (!file && dict.empty())"))]),
    ('sv-clear', P, P, [w(W.replace("            if (!file)", "            file.clear();\n            if (!file)"))]),
    ('ld-catch', P, P, [(L, R, "            json dict;\n            try {\n                std::ifstream file(filename);\n                file >> dict;\n            } catch (const std::exception &) {\n            }\n            return dict;\n")]),
    ('ld-quiet', P, P, [(L, R, "            std::ifstream file(filename);\n            return json::parse(file, nullptr, false);\n")]),
    ('ld-missing', P, P, [(L, R, R.replace("            json dict;\n", "            json dict;\n            if (!file)\n                return dict;\n"))]),
    ('sv-ok-flush', 'ok', P, [w(W.replace(" << std::endl", "").replace("file.close()", "file.flush()"))]),
    ('sv-ok-fail', 'ok', P, [w(W.replace("if (!file)", "if (file.fail())"))]),
    ('sv-ok-good', 'ok', P, [w(W.replace("if (!file)", "const bool written = file.good();\n            if (!written)"))]),
    ('sv-ok-both', 'ok', P, [w(W.replace("            file << std", "            if (!file.is_open())\n" + THROW + "            file << std"))]),
    ('sv-ok-exc', 'ok', P, [w("            std::ofstream file;\n            file.exceptions(std::ofstream::failbit | std::ofstream::badbit);\n            file.open(filename);\n            file << std::setw(2) << dict << std::endl;\n            file.close();\n")]),
    ('sv-ok-inv', 'ok', P, [w("            std::ofstream file(filename);\n            file << std::setw(2) << dict << std::endl;\n            file.close();\n            if (file)\n                return;\n" + THROW[4:])]),
    ('sv-ok-dump', 'ok', P, [w(W.replace("file << std::setw(2) << dict << std::endl;", "file << dict.dump(2) << '\\n';"))]),
    ('sv-ok-helper', 'ok', P, [w("            std::ofstream file(filename);\n            file << std::setw(2) << dict << std::endl;\n            file.close();\n            check(file, filename);\n"), (S, "        static void add_base_info", "        static void check(const std::ofstream &file, const std::string &filename) {\n            if (!file) {\n" + THROW + "            }\n        }\n\n        static void add_base_info")]),
    ('sv-ok-rethrow', 'ok', P, [w("            try {\n" + W + "            } catch (const std::exception &) {\n                throw;\n            }\n")]),
    ('ld-ok-parse', 'ok', P, [(L, R, "            std::ifstream file(filename);\n            return json::parse(file);\n")]),
    ('ld-ok-check', 'ok', P, [(L, R, R.replace("            json dict;\n", "            if (!file)\n                throw std::runtime_error(\"Can't read \" + filename);\n            json dict;\n"))]),
]
