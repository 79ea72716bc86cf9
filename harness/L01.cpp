#include "h_ltc.hpp"
FACET_FN(L01, streams, ltc_any<LTC_ERR>, 900000, 4000000, "at least two points were transmitted, or more than ten samples needed no transmission");
