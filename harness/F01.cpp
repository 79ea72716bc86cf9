#include "h_mondrian.hpp"
FACET_FN(F01, structure, coarse_any<1>, 40000, 400000, "at least two splits and four points");
