#include "common/sweep_C14.inc"
HARNESS(further) { each<FURTHER>(check); }
HARNESS(holders) { each<HOLDERS>(check); }
