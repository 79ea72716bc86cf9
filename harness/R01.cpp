#include "h_reservoir.hpp"
FACET_FN(R01, uniform, reservoir_slots_any<false>, 450000, 2500000, "more elements than slots");
FACET_FN(R01, exponential, reservoir_slots_any<true>, 450000, 2500000, "more elements than slots");
FACET_FN(R01, uniform_large, reservoir_large_any<false>, 60, 400, "an element was replaced");
FACET_FN(R01, exponential_large, reservoir_large_any<true>, 60, 400, "an element was replaced");
