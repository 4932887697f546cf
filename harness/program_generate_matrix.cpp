// The program generate_matrix as a function: its main() under another symbol (it stays a main(), which returns 0 at its end).
int main(int, char**) __asm__("generate_matrix_main");
#include <cassert>
#include <array>
#include <memory>
#include <iostream>
#include <functional>
#include "BlasBooster/../../src/Benchmark/generate_matrix.cpp"
