#include "h_cuckoo.hpp"
FACET_FN(C01, histories, cuckoo_any<CK_NEG>, 90000, 250000, "two entries are stored at the end, or an add failed, or an entry was removed");
FACET_FN(C01, load, cuckoo_load_any<0>, 2000, 20000, "always");
FACET_FN(C01, large, cuckoo_large_any<CK_NEG>, 300, 1200, "two entries are stored at the end, or an add failed, or an entry was removed");
