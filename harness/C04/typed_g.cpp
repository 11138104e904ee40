#include "common/graph_typed.inc"

HARNESS(p_bits) { passed_on<Bits>(); }
HARNESS(p_keyed) { passed_on<Keyed>(); }
HARNESS(p_function) { passed_on<Function>(); }
HARNESS(p_member) { passed_on<Member>(); }
