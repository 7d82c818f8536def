#define PART1
#include "checks/C21.cpp"
