#define PART2
#include "checks/C20.cpp"
