#include "common/copy_typed.inc"
HARNESS(c_sub) { copied<Sub>(); }
HARNESS(c_square) { copied<Square>(); }
HARNESS(c_nine) { copied<Nine>(); }
HARNESS(c_maybe) { copied<Maybe>(); }
