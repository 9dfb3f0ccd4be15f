#ifndef STUB_FR
#define STUB_FR
#include "absfield.hpp"
typedef AbsField RawFr;
#endif
