#define PART1
#include "checks/C20.cpp"
