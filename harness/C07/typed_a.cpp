#include "common/copy_typed.inc"
HARNESS(c_char) { copied<char>(); }
HARNESS(c_long) { copied<long>(); }
