// C34: the other half of the kinds
#define KINDS 2
#include "c34.cpp"
