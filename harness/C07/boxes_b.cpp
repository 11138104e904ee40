#define CONTAINERS
#include "common/copy_typed.inc"
HARNESS(c_list) { copied<List>(); }
HARNESS(c_map) { copied<Map>(); }
HARNESS(c_rows) { copied<Rows>(); }
