// The program show_pattern as a function: its main() under another symbol (it stays a main(), which returns 0 at its end).
int main(int, char**) __asm__("show_pattern_main");
#include <array>
#include <cassert>
#include <functional>
#include <fstream>
#include <iostream>
#include <memory>
#include "BlasBooster/../../src/Benchmark/show_pattern.cpp"
