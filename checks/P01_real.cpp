// Free-running companion of P01: the same bodies under the real ThreadSanitizer.
#include "P01.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
extern "C" void vsched_share(const void*, std::size_t) {}
static pthread_barrier_t bar;
struct Arg { const Scenario* s; int t; std::uint64_t r; };
static void* go(void* p) { auto* a = static_cast<Arg*>(p); pthread_barrier_wait(&bar); a->r = a->s->body(a->t); return nullptr; }
int main(int argc, char** argv)
{
   const int s = std::atoi(argv[1]), reps = std::atoi(argv[2]); (void)argc;
   const auto& sc = scenarios[s]; sc.setup();
   std::uint64_t first[8] = {};
   for (int k = 0; k < reps; k++) {
      Arg a[8]; pthread_t th[8]; pthread_barrier_init(&bar, nullptr, sc.nthreads);
      for (int t = 0; t < sc.nthreads; t++) { a[t] = {&sc, t, 0}; pthread_create(&th[t], nullptr, go, &a[t]); }
      for (int t = 0; t < sc.nthreads; t++) pthread_join(th[t], nullptr);
      for (int t = 0; t < sc.nthreads; t++) { if (k && a[t].r != first[t]) { std::printf("DIFFERENT RESULT thread %d\n", t); return 5; } first[t] = a[t].r; }
   }
   std::printf("RAN %d x %s\n", reps, sc.name);
   return 0;
}
