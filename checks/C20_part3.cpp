#define PART3
#include "checks/C20.cpp"
