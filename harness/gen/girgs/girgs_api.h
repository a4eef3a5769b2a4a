// stands in for the header CMake generates (export macros only)
#pragma once
#define GIRGS_API
