#define PART2
#include "P03_f.cpp"
