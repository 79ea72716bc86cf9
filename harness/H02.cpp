#include "h_ht.hpp"
FACET_FN(H02, model, ht_any<2>, 40000, 200000, "the tree was split at least once");
