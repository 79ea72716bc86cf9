#include "h_bloom.hpp"
FACET_FN(B01, histories, bloom_model_any<B_NEG>, 400000, 2500000, "at least two elements are in the filters at the end");
FACET_FN(B01, large, bloom_large_any<B_NEG>, 2500, 8000, "at least two elements were added");
FACET_FN(B01, bulk, bloom_bulk_any<B_NEG>, 15000, 60000, "at least two elements were added");
