#include "core.h"
#ifndef VARIANT
#define VARIANT "plain"
#endif
const char *g_variant = VARIANT;
