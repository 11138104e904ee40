#define CHECK_VALUES
#define CHECK_EVALS
#include "common/odd.inc"
HARNESS(p_flags) { passed_on<Flags>(); }
HARNESS(p_shade) { passed_on<Shade>(); }
HARNESS(p_sub) { passed_on<Sub>(); }
HARNESS(p_square) { passed_on<Square>(); }
HARNESS(p_nine) { passed_on<Nine>(); }
