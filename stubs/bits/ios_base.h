#pragma once
#include <__dsym_streams.h>
