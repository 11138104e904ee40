#include "common/sizes_typed.inc"
HARNESS(s_byte) { sizes<Byte>(); }
HARNESS(s_flags) { sizes<Flags>(); }
HARNESS(s_shade) { sizes<Shade>(); }
HARNESS(s_large) { sizes<Large>(); }
