#include "common/sizes_typed.inc"
HARNESS(s_view) { sizes<View>(); }
HARNESS(s_nested) { sizes<Nested>(); }
