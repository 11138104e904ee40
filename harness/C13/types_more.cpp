#include "common/sweep_C13.inc"
HARNESS(further) { each<FURTHER>(check); }
HARNESS(holders) { each<HOLDERS>(check); }
