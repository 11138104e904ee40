#include "common/compare_typed.inc"
HARNESS(c_byte) { typed<Spy, Byte>(); }
HARNESS(c_flags) { typed<Spy2, Flags>(); }
HARNESS(c_shade) { typed<Spy, Shade>(); }
