#define CONTAINERS
#include "common/throw_typed.inc"
HARNESS(f_list) { fails<List>(); }
HARNESS(f_map) { fails<Map>(); }
HARNESS(f_rows) { fails<Rows>(); }
