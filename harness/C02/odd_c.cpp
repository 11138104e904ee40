#define CHECK_EVALS
#include "common/odd.inc"
HARNESS(t_twin) { flow<Twin>(); }
HARNESS(t_view) { flow<View>(); }
HARNESS(t_variant) { flow<Variant>(); }
HARNESS(t_nested) { flow<Nested>(); }
HARNESS(t_bools) { flow<Bools>(); }
