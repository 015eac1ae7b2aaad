/* lib/search.c only needs the system declarations; lib/search.h is a generated file. */
#include_next <search.h>
