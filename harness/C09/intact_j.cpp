#include "common/intact.inc"
HARNESS(i_sub) { intact<Sub>(); }
HARNESS(i_square) { intact<Square>(); }
HARNESS(i_nine) { intact<Nine>(); }
HARNESS(i_maybe) { intact<Maybe>(); }
