#include "common/void_typed.inc"
HARNESS(t_json) { typed<Json>(); }
HARNESS(t_final) { typed<Final>(); }
HARNESS(t_either) { typed<Either>(); }
HARNESS(t_strict) { typed<Strict>(); }
