#include "h_mcnn.hpp"
FACET_FN(M03, laws, mc_any<3>, 100000, 1000000, "more than one cluster and more than three points");
