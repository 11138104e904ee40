#define CONTAINERS
#include "common/void_typed.inc"
HARNESS(t_list) { typed<List>(); }
HARNESS(t_map) { typed<Map>(); }
HARNESS(t_rows) { typed<Rows>(); }
