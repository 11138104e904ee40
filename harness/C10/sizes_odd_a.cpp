#include "common/sizes_typed.inc"
HARNESS(s_json) { sizes<Json>(); }
HARNESS(s_final) { sizes<Final>(); }
HARNESS(s_either) { sizes<Either>(); }
HARNESS(s_strict) { sizes<Strict>(); }
