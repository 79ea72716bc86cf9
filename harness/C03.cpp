#include "h_cuckoo.hpp"
FACET_FN(C03, histories, cuckoo_any<CK_ROOM | CK_EXACT>, 80000, 200000, "two entries are stored at the end, or an add failed, or an entry was removed");
FACET_FN(C03, load, cuckoo_load_any<0>, 2000, 20000, "always");
FACET_FN(C03, large, cuckoo_large_any<CK_ROOM | CK_EXACT>, 300, 1200, "two entries are stored at the end, or an add failed, or an entry was removed");
