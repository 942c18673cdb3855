// Native runtime: reads "<name> <count> <values...>", calls hx_<name>, prints the outputs.
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <valgrind/memcheck.h>
#include "hx.h"
static std::string dir;
extern "C" {
void* bb_ostream() { return static_cast<std::ostream*>(new std::ostringstream); }
void* bb_istream(const long* text, long n) {
  std::string s;
  for (long i = 0; i < n; ++i) s.push_back((char)text[i]);
  return static_cast<std::istream*>(new std::istringstream(s));
}
static void put(const std::string& s, long* out) {
  *out++ = (long)s.size();
  for (char c : s) *out++ = c;
}
void bb_text(void* os, long* out) {
  put(static_cast<std::ostringstream*>(static_cast<std::ostream*>(os))->str(), out);
}
const char* bb_file(const long* text, long n) {
  std::string* p = new std::string(dir + "/in.txt");
  std::ofstream f(*p, std::ios::binary);
  for (long i = 0; i < n; ++i) f.put((char)text[i]);
  return p->c_str();
}
const char* bb_outfile(long k) {
  std::string* p = new std::string(dir + "/out" + std::to_string(k));
  return p->c_str();
}
void bb_outtext(long k, long* out) {
  std::ifstream f(dir + "/out" + std::to_string(k), std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  put(ss.str(), out);
}
}
int main(int argc, char** argv) {
  dir = argv[1];
  char name[64];
  long n;
  if (scanf("%63s %ld", name, &n) != 2) return 90;
  long* in = (long*)malloc(sizeof(long) * (n ? n : 1));
  for (long i = 0; i < n; ++i)
    if (scanf("%ld", in + i) != 1) return 90;
  long* out = (long*)malloc(sizeof(long) * 65536);
  auto f = (long (*)(const long*, long*))dlsym(RTLD_DEFAULT, (std::string("hx_") + name).c_str());
  if (!f) return 91;
  long k = f(in, out);
  printf("\nRESULT %ld", k);
  for (long i = 0; i < k; ++i) {
    bool undef = VALGRIND_CHECK_MEM_IS_DEFINED(out + i, sizeof(long)) != 0;
    if (undef) {
      printf(" U");
    } else {
      printf(" %ld", out[i]);
    }
  }
  printf("\n");
  fflush(stdout);
  _Exit(0);
}
