// Shared by the harnesses.  Every harness is  long hx_<name>(const long* in, long* out)
// and returns the number of values it wrote to out.
#pragma once
#include <cstdlib>
#include <string>
#include <vector>
#include "turing_machine.h"
extern "C" {
// Streams and files are made by the runtime: modelled in the symbolic run, a string
// stream or a scratch file natively.
void* bb_ostream();
void* bb_istream(const long* text, long n);
void bb_text(void* os, long* out);                   // out[0] = length, out[1..] = bytes
const char* bb_file(const long* text, long n);       // name of a file with that content
const char* bb_outfile(long k);                      // name of output file k
void bb_outtext(long k, long* out);                  // what was written to it
}
using busy_beaver::TuringMachine;
using Trans = TuringMachine::LookupResult;

static inline std::vector<std::vector<Trans>> table(const long*& in) {
  int Q = (int)*in++, S = (int)*in++;
  std::vector<std::vector<Trans>> t;
  for (int q = 0; q < Q; ++q) {
    std::vector<Trans> row;
    for (int s = 0; s < S; ++s) {
      Trans x;
      x.symbol = (int)*in++;
      x.move = (int)*in++;
      x.state = (int)*in++;
      x.undecided = (*in++ != 0);
      row.push_back(x);
    }
    t.push_back(row);
  }
  return t;
}

static inline long* dump(const TuringMachine& tm, long* out) {
  *out++ = tm.num_states();
  *out++ = tm.num_symbols();
  *out++ = tm.max_next_state();
  *out++ = tm.max_next_symbol();
  *out++ = tm.next_move_left_ok();
  *out++ = tm.num_halts();
  for (int q = 0; q < tm.num_states(); ++q)
    for (int s = 0; s < tm.num_symbols(); ++s) {
      Trans x = tm.Lookup(q, s);
      *out++ = x.symbol;
      *out++ = x.move;
      *out++ = x.state;
      *out++ = x.undecided;
    }
  return out;
}
