#pragma once
#include "common/lazy_common.h"
#include "common/values.h"
