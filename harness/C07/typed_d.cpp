#include "common/copy_typed.inc"
HARNESS(c_string) { copied<std::string>(); }
HARNESS(c_shared_ptr) { copied<std::shared_ptr<int>>(); }
