#define VF_SMALL4
#include "linalg_small.cpp"
