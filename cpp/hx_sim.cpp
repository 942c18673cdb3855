#include "hx.h"
#include "simulator.h"
using namespace busy_beaver;
// positions outside the range of a tape are blank (a tape may have no such notion)
template <class T> static auto in_range_(const T& t, long p, int) -> decltype((long)t.in_range(p)) { return t.in_range(p); }
template <class T> static long in_range_(const T& t, long p, long) { return 1; }
template <class T> static long in_range(const T& t, long p) { return in_range_(t, p, 0); }
extern "C" {
// table, number of goals, goals (-1: one Step()), lo, hi.  For every goal: state, steps,
// halted, position, last state, last symbol, current symbol, cells lo..hi
long hx_sim(const long* in, long* out) {
  long* const start = out;
  TuringMachine tm(table(in), "");
  DirectSimulator sim(tm);
  long n = *in++;
  const long* goals = in;
  in += n;
  long lo = *in++, hi = *in++;
  for (long i = 0; i < n; ++i) {
    if (goals[i] < 0) sim.Step(); else sim.Seek(goals[i]);
    *out++ = sim.state();
    *out++ = sim.step_num();
    *out++ = sim.is_halted();
    *out++ = sim.tape().position();
    if (sim.step_num() > 0) {
      *out++ = sim.last_state();
      *out++ = sim.last_symbol();
    } else {
      *out++ = -7;
      *out++ = -7;
    }
    *out++ = sim.tape().read();
    for (long p = lo; p <= hi; ++p) *out++ = sim.tape().read(p);
  }
  return out - start;
}
// a bare tape: number of groups, groups (moves of the same direction: dir, count, then
// the symbol to write); lo, hi; then the tape is copied and the copy written to
long hx_tape(const long* in, long* out) {
  long* const start = out;
  Tape t;
  long n = *in++;
  for (long i = 0; i < n; ++i) {
    long dir = *in++, count = *in++;
    for (; count > 0; --count) t.move(dir);
    *out++ = t.position();
    *out++ = t.read();
    t.write((Symbol)*in++);
    *out++ = t.read();
  }
  long lo = *in++, hi = *in++;
  Tape u(t);
  u.write(7);
  u.move(1);
  u.write(8);
  for (long p = lo; p <= hi; ++p) *out++ = t.read(p);
  for (long p = lo; p <= hi; ++p) *out++ = u.read(p);
  for (long p = lo; p <= hi; ++p) *out++ = in_range(t, p);
  return out - start;
}
}
