// Forced include for the intermediate representation: std::string members are
// compiled into it, stream members stay calls to the library (modelled).
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#include <iostream>
#include <fstream>
#include <sstream>
