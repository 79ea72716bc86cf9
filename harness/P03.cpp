#include "h_mlp.hpp"
FACET_FN(P03, accessors, mlp_any<P_ACCESS>, 400000, 2500000, "more than two weights");
