#define PART3
#include "checks/C19.cpp"
