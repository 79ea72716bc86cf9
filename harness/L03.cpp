#include "h_ltc.hpp"
FACET_FN(L03, streams, ltc_any<LTC_SANE>, 900000, 4000000, "at least two points were transmitted, or more than ten samples needed no transmission");
