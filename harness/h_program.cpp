// FULL PROGRAM: the repository's own entry point, linked with all its sources
#include "main.cpp"
