#include "common/throw_typed.inc"
HARNESS(f_sub) { fails<Sub>(); }
HARNESS(f_square) { fails<Square>(); }
HARNESS(f_nine) { fails<Nine>(); }
HARNESS(f_maybe) { fails<Maybe>(); }
