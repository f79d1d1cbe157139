#define HT_PROP 1
#include "hash_common.h"
const char *pbt_rule = "a case is one table (custom/string/pointer/integer keys, 8 hash functions incl. constant ones) and a random history of put/get/get_or_create/delete/clear/ensure_size/map operations, compared with an ordered-list model after every operation; non-trivial: at least 3 operations and at least 2 entries held at once";
