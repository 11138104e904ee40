#include "common/once_typed.inc"
HARNESS(o_json) { once<Json>(); }
HARNESS(o_final) { once<Final>(); }
HARNESS(o_either) { once<Either>(); }
HARNESS(o_strict) { once<Strict>(); }
