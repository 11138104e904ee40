#include "common/compare_typed.inc"
HARNESS(c_twin) { typed<Spy, Twin>(); }
HARNESS(c_view) { typed<Spy, View>(); }
HARNESS(c_variant) { typed<Spy, Variant>(); }
HARNESS(c_nested) { typed<Spy, Nested>(); }
HARNESS(c_bools) { typed<Spy, Bools>(); }
