// stands in for the header CMake generates (version strings only)
#pragma once
#define GIRGS_NAME_VERSION "girgs"
#define GIRGS_PROJECT_DESCRIPTION "d"
#define GIRGS_AUTHOR_ORGANIZATION "o"
#define GIRGS_AUTHOR_DOMAIN "w"
#define GIRGS_AUTHOR_MAINTAINER "m"
