#include "common/sweep_C16.inc"
HARNESS(scalars) { each<SCALARS>(check); }
HARNESS(classes) { each<CLASSES>(check); }
HARNESS(owners) { each<OWNERS>(check); }
