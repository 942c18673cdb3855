#include <iostream>
#include <memory>
#include "hx.h"
using namespace busy_beaver;
extern "C" {
// table -> text
long hx_write(const long* in, long* out) {
  TuringMachine tm(table(in), "");
  std::ostream* os = (std::ostream*)bb_ostream();
  WriteTuringMachine(tm, os);
  bb_text(os, out);
  return out[0] + 1;
}
// number of bytes, bytes, number of reads -> for every read: 0, or 1 and the machine
long hx_read(const long* in, long* out) {
  long* const start = out;
  long n = *in++;
  std::istream* is = (std::istream*)bb_istream(in, n);
  in += n;
  for (long k = *in; k > 0; --k) {
    std::unique_ptr<TuringMachine> tm(ReadTuringMachine(is, "x"));
    *out++ = tm != nullptr;
    if (tm) out = dump(*tm, out);
  }
  return out - start;
}
// number of bytes, bytes, line number -> 0, or 1 and the machine
long hx_line(const long* in, long* out) {
  long* const start = out;
  long n = *in++;
  const char* name = bb_file(in, n);
  in += n;
  std::unique_ptr<TuringMachine> tm(ReadTuringMachine(std::string(name), *in));
  *out++ = tm != nullptr;
  if (tm) out = dump(*tm, out);
  return out - start;
}
}
