#ifndef STUB_FQ
#define STUB_FQ
#include "absfield.hpp"
typedef AbsField RawFq;
#endif
