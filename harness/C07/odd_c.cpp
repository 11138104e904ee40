#include "common/copy_typed.inc"
HARNESS(c_twin) { copied<Twin>(); }
HARNESS(c_view) { copied<View>(); }
HARNESS(c_variant) { copied<Variant>(); }
HARNESS(c_nested) { copied<Nested>(); }
HARNESS(c_bools) { copied<Bools>(); }
