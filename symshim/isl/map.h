#pragma once
#include "_isl.h"
