#include "h_ht.hpp"
FACET_FN(H03, memory, ht_memory, 40000, 200000, "a split was refused for lack of memory");
FACET_FN(H03, exact_memory, ht_exact_any, 30000, 200000, "a split was refused for lack of memory");
