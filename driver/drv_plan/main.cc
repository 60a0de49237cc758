#define VT_FORK 1
#include "../main_common.inc"
