#include "common/copy_typed.inc"
HARNESS(c_byte) { copied<Byte>(); }
HARNESS(c_flags) { copied<Flags>(); }
HARNESS(c_shade) { copied<Shade>(); }
HARNESS(c_words) { copied<Words>(); }
