#include "h_mlp.hpp"
FACET_FN(P02, reference, mlp_any<P_BACK>, 200000, 1200000, "a backpropagation over more than two weights");
FACET_FN(P02, gradient, mlp_any<P_GRAD>, 20000, 200000, "a backpropagation over more than two weights");
