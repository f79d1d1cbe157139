#define HT_PROP 3
#include "hash_common.h"
const char *pbt_rule = "a case is one table with a random subset of free_key/free_value/free_user_data callbacks and a random history; after every operation the calls of the callbacks must be exactly those for keys and values that left the table; non-trivial: at least 3 operations and at least 2 entries held at once";
