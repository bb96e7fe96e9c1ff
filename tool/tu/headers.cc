// Pulls in the header-only parts of the library so that they are analysed too.
#include "../interfaces/loader.h"
#include "../interfaces/saver.h"
#include "list_dict.h"
#include "vector_hash.h"
void vg_instantiate(Encoder<int> &e, const std::vector<int> &v, IntSeq *out) { e.encode(v, out); (void) e.size(); VectorHash h; (void) h(v); }
