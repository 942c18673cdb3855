#include "hx.h"
#include "lin_recur.h"
using namespace busy_beaver;
extern "C" {
// table, max_steps
long hx_lin(const long* in, long* out) {
  long* const start = out;
  TuringMachine tm(table(in), "");
  LinRecurResult r = LinRecurDetect(tm, *in++);
  *out++ = r.is_halted;
  *out++ = r.is_lin_recurrent;
  *out++ = r.lr_start_step;
  *out++ = r.lr_period;
  *out++ = r.lr_offset;
  *out++ = r.last_state;
  *out++ = r.last_symbol;
  *out++ = r.max_ref_config_step;
  *out++ = r.steps_run;
  return out - start;
}
}
