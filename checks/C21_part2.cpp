#define PART2
#include "checks/C21.cpp"
