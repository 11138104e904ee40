#include "common/void_typed.inc"
HARNESS(t_twin) { typed<Twin>(); }
HARNESS(t_view) { typed<View>(); }
HARNESS(t_variant) { typed<Variant>(); }
HARNESS(t_nested) { typed<Nested>(); }
HARNESS(t_bools) { typed<Bools>(); }
