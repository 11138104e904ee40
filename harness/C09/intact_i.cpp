#include "common/intact.inc"
HARNESS(i_byte) { intact<Byte>(); }
HARNESS(i_flags) { intact<Flags>(); }
HARNESS(i_shade) { intact<Shade>(); }
HARNESS(i_words) { intact<Words>(); }
