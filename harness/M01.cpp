#include "h_mcnn.hpp"
FACET_FN(M01, nearest_mean, mc_any<1>, 60000, 1000000, "several clusters and more than 20 predictions compared");
