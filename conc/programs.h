#pragma once
#include "conc.h"
// All programs of a suite; deterministic order, simplest first.
extern "C" ProgD* make_programs(const char* suite, bool thorough, int* n);
