// Replay: the vs_* interface reading its inputs from a file (VS_INPUTS), lines "name#index value".
// Exit 0: all checks passed; 1: a check failed ("FAILED id"); 77: an assumption does not hold.
#include <vsym.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
static std::map<std::string, std::string> * in() {
  static std::map<std::string, std::string> * m = nullptr;
  if (!m) {
    m = new std::map<std::string, std::string>;
    const char * f = getenv("VS_INPUTS");
    if (FILE * h = f ? fopen(f, "r") : nullptr) {
      char n[256], v[256];
      while (fscanf(h, "%255s %255s", n, v) == 2) (*m)[n] = v;
      fclose(h);
    }
  }
  return m;
}
static std::string key(const char * name) {
  static std::map<std::string, int> * c = new std::map<std::string, int>;
  return std::string(name) + "#" + std::to_string((*c)[name]++);
}
static double num(const char * name, double def) {
  auto i = in()->find(key(name));
  return i == in()->end() ? def : strtod(i->second.c_str(), nullptr);
}
static long lnum(const char * name, long def) {
  auto i = in()->find(key(name));
  return i == in()->end() ? def : strtol(i->second.c_str(), nullptr, 10);
}
static void fail(const char * id, double a = 0, double b = 0) { printf("FAILED %s %.17g %.17g\n", id, a, b); fflush(stdout); _Exit(1); }
extern "C" {
double vs_real(const char * n, double lo, double) { return num(n, lo); }
double vs_angle(const char * n) { return num(n, 0); }
double vs_any(const char * n) { return num(n, 0); }
float vs_anyf(const char * n) { return static_cast<float>(num(n, 0)); }
int vs_int(const char * n, int lo, int) { return static_cast<int>(lnum(n, lo)); }
int vs_symint(const char * n, int lo, int) { return static_cast<int>(lnum(n, lo)); }
long vs_symlong(const char * n) { return lnum(n, 0); }
bool vs_bool(const char * n) { return lnum(n, 0) != 0; }
int vs_case(void) { const char * c = getenv("VS_CASE"); return c ? atoi(c) : 0; }
bool vs_native(void) { return true; }
void vs_assume(bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _Exit(77); } }
static bool verbose() { static bool v = getenv("VS_TRACE") != nullptr; return v; }
void vs_check(bool c, const char * id) { if (verbose()) printf("CHECK %s\n", id); if (!c) fail(id); }
void vs_check_close(double a, double b, double tol, const char * id) {
  if (verbose()) printf("CHECK %s\n", id);
  if (!(a == b || std::fabs(a - b) <= tol)) fail(id, a, b); }
void vs_check_angle(double a, double b, double tol, const char * id) {
  if (verbose()) printf("CHECK %s\n", id);
  if (!(std::fabs(std::remainder(a - b, 2 * M_PI)) <= tol)) fail(id, a, b); }
void vs_check_same(double a, double b, const char * id) {
  if (verbose()) printf("CHECK %s\n", id);
  if (!((std::isnan(a) && std::isnan(b)) || std::memcmp(&a, &b, sizeof a) == 0)) fail(id, a, b); }
void vs_reach(const char * id) { if (verbose()) printf("CHECK %s\n", id); }
void vs_out(const char * n, double v) { if (verbose()) printf("OUT %s %.17g\n", n, v); }
#ifndef VS_SCHEDULED
bool vs_scheduled(void) { return false; }
void vs_thread(int) {}
int vs_quiet(void) { return -1; }
void vs_mark(const char *) {}
#endif
}
