#include "h_ltc.hpp"
FACET_FN(L02, streams, ltc_any<LTC_PARS>, 900000, 4000000, "at least two points were transmitted, or more than ten samples needed no transmission");
FACET_FN(L02, touching, ltc_exact, 300000, 1500000, "a limit of a sample lies exactly on the line so far");
