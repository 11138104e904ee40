#pragma once
#include "common/tuple_common.h"

#include "pigro/bind_tuple.h"
#include "pigro/overload.h"

using pigro::operator>>;
using pigro::operator<<;
