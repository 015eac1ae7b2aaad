/* Prototypes of library functions that the repository calls without declaring them. */
#ifndef PBT_IMPLICIT_H
#define PBT_IMPLICIT_H
#include <string.h>
#include <stdlib.h>
#include <gsl/gsl_rng.h>
struct group; struct node_gra; struct binet;
#endif
