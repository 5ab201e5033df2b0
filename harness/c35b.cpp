// C35 with centimetres for metres
#define SYSTEM Cgs
#include "c35.cpp"
