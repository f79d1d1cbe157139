#define HT_PROP 2
#include "hash_common.h"
const char *pbt_rule = "a case is one table and a random history of insertions, overwrites, deletions, clears, resizes and maps (continue/delete/abort); after every operation the iterator must yield exactly the entries still present in insertion order, and map must visit them so; non-trivial: at least 3 operations and at least 2 entries held at once";
