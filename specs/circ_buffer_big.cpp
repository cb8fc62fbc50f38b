#define BIG
#include "circ_buffer.cpp"
