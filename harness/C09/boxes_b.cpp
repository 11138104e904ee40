#define CONTAINERS
#include "common/intact.inc"
HARNESS(i_list) { intact<List>(); }
HARNESS(i_map) { intact<Map>(); }
HARNESS(i_rows) { intact<Rows>(); }
