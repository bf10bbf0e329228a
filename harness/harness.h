// Common part of the replay / bounded stand-in harnesses.
#pragma once
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include <sanitizer/asan_interface.h>

namespace hn {
inline uint64_t Seed = 1;
inline double Seconds = 10;
inline bool Thorough = false;
inline std::mt19937_64 Rng;
inline size_t Cases = 0;
inline std::set<size_t> Distinct;
inline size_t Samples = 0;
inline char Current[8192];
inline char CurKey[256] = "crash";
inline std::map<std::string, int> Fails;
inline std::chrono::steady_clock::time_point T0;
inline bool InFail = false;
inline size_t AllFails = 0;

inline double elapsed() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0)
      .count();
}
inline bool more(double Share = 1.0) {
  return AllFails < 200 && elapsed() < Seconds * Share;
}
inline size_t rnd(size_t N) { return N ? Rng() % N : 0; }
inline bool coin(int Pct = 50) { return (int)rnd(100) < Pct; }

inline std::string oneline(std::string S) {
  for (char &C : S) {
    if (C == '\n' || C == '\r') {
      C = '~';
    }
  }
  return S;
}

// announce the case that is about to run (reported if the code crashes)
inline void begin(const std::string &Key, const std::string &Case) {
  snprintf(CurKey, sizeof(CurKey), "%s", Key.c_str());
  snprintf(Current, sizeof(Current), "%s", oneline(Case).c_str());
  ++Cases;
  alarm(60); // a case that does not end is reported
  if (Distinct.insert(std::hash<std::string>{}(Key + "\1" + Case)).second &&
      Samples < 8 && (Distinct.size() % 37) == 1) {
    ++Samples;
    printf("SAMPLE %s: %s\n", CurKey, Current);
  }
}

inline void finish() {
  alarm(0);
  printf("CASES %zu %zu\n", Cases, Distinct.size());
  printf("DONE\n");
  fflush(stdout);
}

inline void fail(const std::string &Msg) {
  int &N = Fails[CurKey];
  ++AllFails;
  if (++N <= 2) {
    printf("FAIL %s %s :: %s\n", CurKey, Current, oneline(Msg).c_str());
    fflush(stdout);
  }
}

inline bool expect(bool Ok, const std::string &Msg) {
  if (!Ok) {
    fail(Msg);
  }
  return Ok;
}

template <typename A, typename B>
bool expect_eq(const A &Got, const B &Want, const std::string &What) {
  if (!(Got == Want)) {
    std::ostringstream S;
    S << What << ": got '" << Got << "', expected '" << Want << "'";
    fail(S.str());
    return false;
  }
  return true;
}

inline void crash(const char *Why) {
  if (InFail) {
    return;
  }
  InFail = true;
  printf("FAIL %s %s :: %s\n", CurKey, Current, Why);
  printf("CASES %zu %zu\n", Cases, Distinct.size());
  fflush(stdout);
}
inline void onsig(int S) {
  crash(S == SIGABRT ? "aborted (assertion or library check failed)"
        : S == SIGSEGV ? "segmentation fault"
        : S == SIGALRM ? "did not terminate (watchdog)"
                       : "fatal signal");
  _exit(98);
}
inline void ondeath() { crash("sanitizer error"); }

// a case that takes longer than this is reported as non-terminating
inline void watchdog(unsigned Sec) { alarm(Sec); }

inline void init(int argc, char **argv) {
  for (int I = 1; I + 1 < argc; I += 2) {
    if (!strcmp(argv[I], "--seed")) {
      Seed = strtoull(argv[I + 1], nullptr, 10);
    } else if (!strcmp(argv[I], "--seconds")) {
      Seconds = atof(argv[I + 1]);
    } else if (!strcmp(argv[I], "--tier")) {
      Thorough = !strcmp(argv[I + 1], "thorough");
    }
  }
  Rng.seed(Seed);
  T0 = std::chrono::steady_clock::now();
  signal(SIGABRT, onsig);
  signal(SIGALRM, onsig);
  signal(SIGFPE, onsig);
  __asan_set_death_callback(ondeath);
}
} // namespace hn
