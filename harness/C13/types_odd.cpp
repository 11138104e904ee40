#include "common/sweep_C13.inc"
HARNESS(odd_a) { each<ODD_A>(check); }
HARNESS(reference) { each<Reference>(check); }
HARNESS(twin) { each<Twin>(check); }
HARNESS(view) { each<View>(check); }
HARNESS(variant) { each<Variant>(check); }
HARNESS(nested) { each<Nested>(check); }
HARNESS(bools) { each<Bools>(check); }
