#include "common/graph_typed.inc"

HARNESS(p_bool) { passed_on<bool>(); }
HARNESS(p_char) { passed_on<char>(); }
HARNESS(p_uchar) { passed_on<unsigned char>(); }
HARNESS(p_short) { passed_on<short>(); }
HARNESS(p_unsigned) { passed_on<unsigned>(); }
