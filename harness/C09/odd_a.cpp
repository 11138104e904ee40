#define CHECK_VALUES
#include "common/odd.inc"
HARNESS(t_json) { flow<Json>(); }
HARNESS(t_final) { flow<Final>(); }
HARNESS(t_either) { flow<Either>(); }
HARNESS(t_strict) { flow<Strict>(); }
