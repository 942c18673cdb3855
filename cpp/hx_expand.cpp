#include <memory>
#include "hx.h"
#include "enumerator.h"
using namespace busy_beaver;

class OneLevel : public BaseEnumerator {
 public:
  OneLevel(bool allow, long q, long s, long* out)
      : BaseEnumerator(allow), q_(q), s_(s), n_(out), out_(out + 1) { *n_ = -1; }
  long* end() { return out_; }
 private:
  EnumExpandParams filter_tm(const TuringMachine& tm) override {
    if (++*n_ == 0) return {true, (State)q_, (Symbol)s_};
    out_ = dump(tm, out_);
    return {false, 0, 0};
  }
  long q_, s_;
  long* n_;
  long* out_;
};

extern "C" {
// kind (1: table, 0: size), expansions: number, (q, s, symbol, move, state)...; allow, q, s
//   -> dump of the machine, number of children, dumps of the children
long hx_expand(const long* in, long* out) {
  long* const start = out;
  std::unique_ptr<TuringMachine> tm;
  if (*in++) {
    tm.reset(new TuringMachine(table(in), ""));
  } else {
    int Q = (int)*in++, S = (int)*in++;
    tm.reset(new TuringMachine(Q, S));
  }
  long n = *in++;
  for (long i = 0; i < n; ++i) {
    State q = (State)*in++;
    Symbol s = (Symbol)*in++;
    Trans x;
    x.symbol = (int)*in++;
    x.move = (int)*in++;
    x.state = (int)*in++;
    tm.reset(new TuringMachine(*tm, q, s, x, (int)i));
  }
  out = dump(*tm, out);
  bool allow = *in++ != 0;
  long q = *in++, s = *in++;
  OneLevel e(allow, q, s, out);
  e.enumerate(tm.release());
  return e.end() - start;
}
}
