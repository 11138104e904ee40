#include "common/intact.inc"
HARNESS(i_tracked) { intact<Tracked>(); }
HARNESS(i_constchar) { intact<const char *>(); }
