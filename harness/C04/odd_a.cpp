#define CHECK_VALUES
#define CHECK_EVALS
#include "common/odd.inc"
HARNESS(p_json) { passed_on<Json>(); }
HARNESS(p_final) { passed_on<Final>(); }
HARNESS(p_either) { passed_on<Either>(); }
HARNESS(p_strict) { passed_on<Strict>(); }
