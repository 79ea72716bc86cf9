#include "h_chained.hpp"
FACET_FN(K04, sliding_window, chained_any<K_MEM>, 500000, 2500000, "more elements than the window holds");
FACET_FN(K04, long_chains, chained_long_chain, 600, 1200, "a chain of more than twenty elements");
FACET_FN(K04, long_streams, chained_memory_any, 300, 3000, "always: every case is a stream of more than 2000 elements");
