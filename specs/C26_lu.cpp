// the contract of luDecomp used by C26_modular.cpp
#include "C25.cpp"
