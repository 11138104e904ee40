#include "common/sweep_C16.inc"
HARNESS(further) { each<FURTHER>(check); }
HARNESS(holders) { each<HOLDERS>(check); }
