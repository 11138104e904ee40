#include "common/graph_typed.inc"

HARNESS(p_pointer) { passed_on<int *>(); }
HARNESS(p_cstr) { passed_on<const char *>(); }
HARNESS(p_enum) { passed_on<Color>(); }
HARNESS(p_struct) { passed_on<Point>(); }
HARNESS(p_padded) { passed_on<Padded>(); }
