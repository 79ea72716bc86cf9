#include "h_nb.hpp"
FACET_FN(N02, laws, nb_any<1>, 700000, 3500000, "at least three points");
