#define CONTAINERS
#include "common/compare_typed.inc"
HARNESS(c_list) { typed<Spy, List>(); }
HARNESS(c_map) { typed<Spy, Map>(); }
HARNESS(c_rows) { typed<Spy, Rows>(); }
