// stands in for the header CMake generates (export macros only)
#pragma once
#define HYPERGIRGS_API
