#define PART3
#include "checks/C21.cpp"
