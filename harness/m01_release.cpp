#include "tools/Memory.cpp"
