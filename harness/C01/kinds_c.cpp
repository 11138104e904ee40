#define CHECK_VALUES
#include "common/kinds_c.inc"

HARNESS(large) { owned(body(vf_nondet_i8()), body(vf_nondet_i8()), body(vf_nondet_i8())); }
HARNESS(medium) { owned(std::array<int, 20>{ vf_nondet_i8() }, std::array<int, 20>{ 1, vf_nondet_i8() }, std::array<int, 20>{ 2 }); }
HARNESS(strings) { owned(std::string("abc"), std::string(20, char(vf_nondet_i8())), std::string()); }
HARNESS(vectors) { owned(std::vector<int>{ vf_nondet_i8() }, std::vector<int>(40, 3), std::vector<int>{ 2, vf_nondet_i8() }); }
HARNESS(shared) { owned(std::make_shared<int>(vf_nondet_i8()), std::make_shared<int>(vf_nondet_i8()), std::make_shared<int>(vf_nondet_i8())); }
