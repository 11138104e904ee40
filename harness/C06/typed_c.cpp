#include "common/void_typed.inc"
HARNESS(t_flags) { typed<Flags>(); }
HARNESS(t_shade) { typed<Shade>(); }
HARNESS(t_sub) { typed<Sub>(); }
HARNESS(t_square) { typed<Square>(); }
