#include "common/elements.inc"
HARNESS(t_byte) { element<Byte>(); }
HARNESS(t_flags) { element<Flags>(); }
HARNESS(t_shade) { element<Shade>(); }
HARNESS(t_sub) { element<Sub>(); }
HARNESS(t_square) { element<Square>(); }
HARNESS(t_nine) { element<Nine>(); }
HARNESS(t_words) { element<Words>(); }
HARNESS(t_maybe) { element<Maybe>(); }
