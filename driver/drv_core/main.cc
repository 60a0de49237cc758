#include "../main_common.inc"
