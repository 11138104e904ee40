#include "common/sweep_C15.inc"
HARNESS(further) { each<FURTHER>(check); }
HARNESS(holders) { each<HOLDERS>(check); }
