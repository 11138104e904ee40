#define CONTAINERS
#include "common/sweep_C13.inc"
HARNESS(chars) { each<Chars>(check); }
HARNESS(shorts) { each<Shorts>(check); }
HARNESS(list) { each<List>(check); }
HARNESS(map) { each<Map>(check); }
HARNESS(rows) { each<Rows>(check); }
