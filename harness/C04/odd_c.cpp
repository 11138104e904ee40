#define CHECK_VALUES
#define CHECK_EVALS
#include "common/odd.inc"
HARNESS(p_twin) { passed_on<Twin>(); }
HARNESS(p_view) { passed_on<View>(); }
HARNESS(p_variant) { passed_on<Variant>(); }
HARNESS(p_nested) { passed_on<Nested>(); }
HARNESS(p_bools) { passed_on<Bools>(); }
