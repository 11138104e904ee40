#define CONTAINERS
#include "common/elements.inc"
HARNESS(t_chars) { element<Chars>(); }
HARNESS(t_shorts) { element<Shorts>(); }
HARNESS(t_list) { element<List>(); }
HARNESS(t_map) { element<Map>(); }
HARNESS(t_rows) { element<Rows>(); }
