#pragma once
#include "../_shim.h"
