#include "h_mondrian.hpp"
FACET_FN(F06, trimming, coarse_any<2>, 5000, 40000, "a tree with more than its root was trimmed");
