#include "common/bound_identities.inc"
HARNESS(bound) { bound<true, compressed_tuple>(); }
HARNESS(bound_std) { bound<true, std::tuple>(); }
