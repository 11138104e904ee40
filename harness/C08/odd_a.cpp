#include "common/throw_typed.inc"
HARNESS(f_json) { fails<Json>(); }
HARNESS(f_final) { fails<Final>(); }
HARNESS(f_either) { fails<Either>(); }
HARNESS(f_strict) { fails<Strict>(); }
