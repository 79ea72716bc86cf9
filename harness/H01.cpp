#include "h_ht.hpp"
FACET_FN(H01, gain, ht_any<1>, 60000, 300000, "some limit has a positive information gain");
FACET_FN(H01, many_points, ht_many, 12, 400, "always: every case has more than 32767 points in a leaf");
