#pragma once
#include <cstdint>
#include <cstddef>
struct Scenario {
   const char* name;
   const char* what;
   int nthreads;
   void (*setup)();                 ///< runs before the threads start (single-threaded)
   std::uint64_t (*body)(int tid);  ///< body of thread tid; returns a hash of everything it observed
   int max_banner;                  ///< how often the start-up banner may appear
};
extern const Scenario scenarios[];
extern const int n_scenarios;
/// tells the explorer that an object is shared between the threads
extern "C" void vsched_share(const void* p, std::size_t n);
