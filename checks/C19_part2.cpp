#define PART2
#include "checks/C19.cpp"
