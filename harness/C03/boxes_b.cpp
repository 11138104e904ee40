#define CONTAINERS
#include "common/once_typed.inc"
HARNESS(o_list) { once<List>(); }
HARNESS(o_map) { once<Map>(); }
HARNESS(o_rows) { once<Rows>(); }
