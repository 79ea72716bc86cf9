#include "h_nb.hpp"
FACET_FN(N01, reference, nb_any<0>, 500000, 2500000, "at least three points and one score that rounding does not decide");
