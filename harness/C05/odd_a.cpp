#include "common/compare_typed.inc"
HARNESS(c_json) { typed<Spy, Json>(); }
HARNESS(c_final) { typed<Spy, Final>(); }
HARNESS(c_either) { typed<Spy, Either>(); }
HARNESS(c_strict) { typed<Spy, Strict>(); }
