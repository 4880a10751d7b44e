#pragma once
#include <__dsym_stream_iter.h>
