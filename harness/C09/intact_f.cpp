#include "common/intact.inc"
HARNESS(i_nested) { intact<Nested>(); }
