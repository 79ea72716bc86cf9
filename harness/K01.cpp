#include "h_chained.hpp"
FACET_FN(K01, histories, chained_any<K_SLOT>, 60000, 150000, "more elements than slots");
