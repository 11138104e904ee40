#include "common/once_typed.inc"
HARNESS(o_sub) { once<Sub>(); }
HARNESS(o_square) { once<Square>(); }
HARNESS(o_nine) { once<Nine>(); }
HARNESS(o_maybe) { once<Maybe>(); }
