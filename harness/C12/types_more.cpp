#include "common/sweep_C12.inc"
HARNESS(further) { each<FURTHER>(check); }
HARNESS(holders) { each<HOLDERS>(check); }
