#include "common/once_typed.inc"
HARNESS(o_byte) { once<Byte>(); }
HARNESS(o_flags) { once<Flags>(); }
HARNESS(o_shade) { once<Shade>(); }
HARNESS(o_words) { once<Words>(); }
