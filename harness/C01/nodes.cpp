// BOUNDS: lists, maps, sets, maps of strings and vectors of vectors of 2 to 4 elements of arbitrary content; 3 calls with arbitrary values in between (of the library's own code for trees, the rebalancing is left out)
#define CHECK_VALUES
#include "common/nodes.inc"

HARNESS(n_list) { nodes<List>(); }
HARNESS(n_map) { nodes<Map>(); }
HARNESS(n_set) { nodes<Set>(); }
HARNESS(n_names) { nodes<Names>(); }
HARNESS(n_rows) { nodes<Rows>(); }
