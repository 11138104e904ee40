#include "common/throw_typed.inc"
HARNESS(f_twin) { fails<Twin>(); }
HARNESS(f_view) { fails<View>(); }
HARNESS(f_variant) { fails<Variant>(); }
HARNESS(f_nested) { fails<Nested>(); }
HARNESS(f_bools) { fails<Bools>(); }
