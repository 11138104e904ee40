#include "common/intact.inc"
HARNESS(i_strings) { intact<Strings>(); }
