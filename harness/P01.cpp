#include "h_mlp.hpp"
FACET_FN(P01, forward, mlp_any<P_FORWARD>, 400000, 2500000, "more than two weights");
