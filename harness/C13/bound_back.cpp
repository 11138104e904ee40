#include "common/bound_identities.inc"
HARNESS(bound) { bound<false, compressed_tuple>(); }
HARNESS(bound_std) { bound<false, std::tuple>(); }
