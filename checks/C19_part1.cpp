#define PART1
#include "checks/C19.cpp"
