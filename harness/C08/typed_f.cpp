#include "common/throw_typed.inc"
HARNESS(f_byte) { fails<Byte>(); }
HARNESS(f_flags) { fails<Flags>(); }
HARNESS(f_shade) { fails<Shade>(); }
HARNESS(f_words) { fails<Words>(); }
