#include "common/sweep_C12.inc"
HARNESS(scalars) { each<SCALARS>(check); }
HARNESS(classes) { each<CLASSES>(check); }
HARNESS(owners) { each<OWNERS>(check); }
