#include "common/graph_typed.inc"

HARNESS(p_i128) { passed_on<__int128>(); }
HARNESS(p_u128) { passed_on<unsigned __int128>(); }
HARNESS(p_char16) { passed_on<char16_t>(); }
HARNESS(p_derived) { passed_on<Derived>(); }
