#include "h_mcnn.hpp"
FACET_FN(M02, model, mc_any<2>, 60000, 1000000, "a cluster was split, replaced or cleaned");
