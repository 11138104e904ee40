#include "common/elements.inc"
HARNESS(t_json) { element<Json>(); }
HARNESS(t_final) { element<Final>(); }
HARNESS(t_either) { element<Either>(); }
HARNESS(t_strict) { element<Strict>(); }
HARNESS(t_function) { element<Function>(); }
HARNESS(t_member) { element<Member>(); }
HARNESS(t_reference) { element<Reference>(); }
HARNESS(t_single) { element<Single>(); }
HARNESS(t_twin) { element<Twin>(); }
HARNESS(t_view) { element<View>(); }
HARNESS(t_variant) { element<Variant>(); }
HARNESS(t_nested) { element<Nested>(); }
HARNESS(t_bools) { element<Bools>(); }
