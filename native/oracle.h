// Shared by the native oracles: deterministic random numbers, failure reporting, case bookkeeping.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <sstream>
#include <unistd.h>
#include <signal.h>
struct Rng {
   uint64_t s;
   explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
   uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
   uint64_t upto(uint64_t n) { return n ? next() % n : 0; }          // [0,n)
   int64_t range(int64_t a, int64_t b) { return a + (int64_t)upto((uint64_t)(b - a + 1)); }
   bool coin(unsigned n = 2) { return upto(n) == 0; }
};
static std::string g_case;
static uint64_t g_cases = 0;
static std::set<uint64_t> g_distinct;
static uint64_t hashs(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
static void begin_case(const std::string& d) { g_case = d; g_cases++; if (g_distinct.size() < 2000000) g_distinct.insert(hashs(d)); }
static void fail(const char* fmt, ...) {
   va_list ap; va_start(ap, fmt);
   printf("FAIL "); vprintf(fmt, ap); printf("\n  input: %.4000s\n", g_case.c_str()); fflush(stdout); _exit(1);
}
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
static void on_alarm(int) { static const char m[] = "FAIL the call does not return (hang)\n  input: "; (void)!write(1, m, sizeof(m) - 1); (void)!write(1, g_case.data(), g_case.size()); (void)!write(1, "\n", 1); _exit(1); }
static void on_crash(int sig) { char b[64]; int n = snprintf(b, sizeof b, "FAIL crash (signal %d)\n  input: ", sig); (void)!write(1, b, n); (void)!write(1, g_case.data(), g_case.size()); (void)!write(1, "\n", 1); _exit(1); }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_san() { static const char m[] = "FAIL sanitizer report\n  input: "; (void)!write(1, m, sizeof(m) - 1); (void)!write(1, g_case.data(), g_case.size()); (void)!write(1, "\n", 1); }
static void setup_oracle(unsigned secs = 100) {
   signal(SIGALRM, on_alarm); alarm(secs); signal(SIGABRT, on_crash);
   if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_san);
   else { signal(SIGSEGV, on_crash); signal(SIGABRT, on_crash); signal(SIGFPE, on_crash); signal(SIGBUS, on_crash); }
}
static int done() { printf("CASES %llu %llu\n", (unsigned long long)g_cases, (unsigned long long)g_distinct.size()); return 0; }
template <class A, class B> static std::ostream& operator<<(std::ostream& o, const std::pair<A, B>& p);
template <class T> static std::string show(const std::vector<T>& v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
template <class A, class B> static std::ostream& operator<<(std::ostream& o, const std::pair<A, B>& p) { return o << "(" << p.first << "," << p.second << ")"; }
