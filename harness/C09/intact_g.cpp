#include "common/intact.inc"
HARNESS(i_mixed) { intact<Mixed>(); }
