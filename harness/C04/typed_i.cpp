#include "common/graph_typed.inc"

HARNESS(p_wide) { passed_on<Wide>(); }
HARNESS(p_plain) { passed_on<Plain>(); }
HARNESS(p_wchar) { passed_on<wchar_t>(); }
HARNESS(p_extended) { passed_on<long double, Special<long double>>(); }
HARNESS(p_precise) { passed_on<double, Special<double>>(); }
