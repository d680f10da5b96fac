// Interface between harnesses and the symbolic executor (engine/symex.py).
// The same harness is compiled natively against vsym_native.cpp to replay a counterexample:
// inputs are then read from a file instead of being symbolic.
#ifndef VSYM_H_
#define VSYM_H_
#include <cstddef>
#include <cstdint>
extern "C" {
// Inputs. Names get a running index per name.
double vs_real(const char * name, double lo, double hi);   // finite double in [lo, hi]
double vs_angle(const char * name);                        // (-pi, pi]
double vs_any(const char * name);                          // every double: finite, NaN, +-inf
float vs_anyf(const char * name);                          // every float: finite, NaN, +-inf
int vs_int(const char * name, int lo, int hi);             // enumerated: one path per value
int vs_symint(const char * name, int lo, int hi);          // symbolic bit-vector
long vs_symlong(const char * name);                        // symbolic bit-vector, all 64-bit values
bool vs_bool(const char * name);                           // one path per value
int vs_case(void);                                         // case number of this job
bool vs_native(void);
bool vs_scheduled(void);                                   // natively, with real threads and a given schedule
// Assumptions and checks
void vs_assume(bool c);
void vs_check(bool c, const char * id);
void vs_check_close(double a, double b, double tol, const char * id);        // |a - b| <= tol
void vs_check_angle(double a, double b, double tol, const char * id);        // equal modulo 2 pi
void vs_check_same(double a, double b, const char * id);                     // same bits (any NaN equals any NaN)
void vs_reach(const char * id);                            // must be reached on some feasible path
void vs_out(const char * name, double v);                  // recorded for encoding validation
// Event log for the race analysis
void vs_thread(int id);                                    // following accesses belong to thread id (-1: none)
int vs_quiet(void);                                        // none from here on; the thread until now
void vs_mark(const char * name);
}
// What the surroundings of the code do is no part of its accesses
struct VsQuiet { int id; VsQuiet() : id(vs_quiet()) {} ~VsQuiet() { vs_thread(id); } };
#endif
