#include "h_cuckoo.hpp"
FACET_FN(C02, histories, cuckoo_any<CK_EXACT>, 90000, 250000, "two entries are stored at the end, or an add failed, or an entry was removed");
FACET_FN(C02, large, cuckoo_large_any<CK_EXACT>, 300, 1200, "two entries are stored at the end, or an add failed, or an entry was removed");
