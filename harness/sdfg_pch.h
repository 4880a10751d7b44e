#include "sdfg/structured_sdfg.h"
#include "sdfg/sdfg.h"
#include "sdfg/builder/structured_sdfg_builder.h"
#include "sdfg/builder/sdfg_builder.h"
#include "sdfg/analysis/analysis.h"
#include "sdfg/passes/pass.h"
