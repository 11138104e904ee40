#define CHECK_EVALS
#include "common/odd.inc"
HARNESS(t_flags) { flow<Flags>(); }
HARNESS(t_shade) { flow<Shade>(); }
HARNESS(t_sub) { flow<Sub>(); }
HARNESS(t_square) { flow<Square>(); }
HARNESS(t_nine) { flow<Nine>(); }
