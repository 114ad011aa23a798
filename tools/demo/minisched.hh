#pragma once
#include <functional>
#include <vector>
struct Scenario { const char* name; std::function<void()> setup; std::vector<std::function<void()>> ops; std::function<void()> check; };
// depth 1: operation 0 suspended at every access in turn, the others run to completion; depth 2: operation 1 too.
int ms_explore(const Scenario& s, int depth, int max1 = 3000, int max2 = 400);
bool ms_freed(const void* p);      // p (start of a heap block) has been freed
long ms_live();                    // heap blocks of the code under test not freed yet
