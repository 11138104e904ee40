#include "common/graph_typed.inc"

HARNESS(p_long) { passed_on<long>(); }
HARNESS(p_ulong) { passed_on<unsigned long>(); }
HARNESS(p_double) { passed_on<double>(); }
HARNESS(p_float) { passed_on<float>(); }
