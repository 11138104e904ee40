#include "common/copy_typed.inc"
HARNESS(c_json) { copied<Json>(); }
HARNESS(c_final) { copied<Final>(); }
HARNESS(c_either) { copied<Either>(); }
HARNESS(c_strict) { copied<Strict>(); }
