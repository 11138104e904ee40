#include "common/once_typed.inc"
HARNESS(o_twin) { once<Twin>(); }
HARNESS(o_view) { once<View>(); }
HARNESS(o_variant) { once<Variant>(); }
HARNESS(o_bools) { once<Bools>(); }
