// Instrumented glue: entry point of the repository's server.
#include <iostream>
#include "kvthread.hh"
int mtd_main(int argc, char** argv);
extern "C" unsigned long long mg_deltas(void) {
    unsigned long long n = 0;
    for (threadinfo* ti = threadinfo::allthreads; ti; ti = ti->next()) n += ti->counter(tc_replay_create_delta);
    return n;
}
extern "C" int mg_main(int argc, char** argv) {
    std::cerr.setstate(std::ios::failbit);
    return mtd_main(argc, argv);
}
