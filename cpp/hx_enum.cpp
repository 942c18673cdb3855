#include "hx.h"
#include "lin_recur_enumerator.h"
#include "lazy_beaver_enumerator.h"
using namespace busy_beaver;
static long* file(long k, long* out) {
  bb_outtext(k, out);
  return out + 1 + out[0];
}
// the empty machine is made as the tools make it
static TuringMachine* root(const long*& in) {
  const long q = in[0], s = in[1];
  bool blank = true;
  for (long i = 0; i < q * s; ++i) blank = blank && in[2 + 4 * i + 3] == 1;
  if (blank) {
    in += 2 + 4 * q * s;
    return new TuringMachine((int)q, (int)s);
  }
  return new TuringMachine(table(in), "");
}
extern "C" {
// table, allow, max_steps, only_unknown -> texts of the halt, infinite and unknown files
long hx_lr(const long* in, long* out) {
  long* const start = out;
  {
    TuringMachine* tm = root(in);
    LinRecurEnum e(in[0] != 0, in[1], bb_outfile(0), bb_outfile(1), bb_outfile(2), "p", false, in[2] != 0);
    e.enumerate(tm);
    e.print_stats("Final");
  }
  for (long k = 0; k < 3; ++k) out = file(k, out);
  return out - start;
}
// number of machines, tables, max_steps -> least missing step count, texts of the two files
long hx_lb(const long* in, long* out) {
  long* const start = out;
  {
    long n = *in++;
    const long* last = in;
    for (long i = 0; i < n; ++i) table(last);
    LazyBeaverEnum e(*last, bb_outfile(0), bb_outfile(1), "p");
    for (long i = 0; i < n; ++i) e.enumerate(root(in));
    *out++ = e.min_missing();
    e.print_stats();
  }
  for (long k = 0; k < 2; ++k) out = file(k, out);
  return out - start;
}
}
