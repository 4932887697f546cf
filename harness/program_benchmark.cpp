// The program benchmark as a function: its main() under another symbol (it stays a main(), which returns 0 at its end).
int main(int, char**) __asm__("benchmark_main");
#include <array>
#include <cassert>
#include <functional>
#include <fstream>
#include <iostream>
#include <memory>
#include "BlasBooster/../../src/Benchmark/benchmark.cpp"
