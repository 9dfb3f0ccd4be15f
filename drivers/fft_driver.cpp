#include <cstdint>
#include <cstring>
#include <string>
#include <stdexcept>
#include <iostream>
#include <sys/types.h>
#include <new>
#include "absfr.hpp"
#include "misc.cpp"
#include "fft.hpp"
typedef AbsFr::Element E;
typedef FFT<AbsFr> F;
extern "C" {
void d_ctor(void *p, uint64_t n) { new (p) F(n); }
void d_dtor(F *p) { p->~F(); }
void d_root(F &f, E &r, unsigned p, uint64_t i) { r = f.root(p, i); }
unsigned d_log2(F &f, uint64_t n) { return f.log2(n); }
uint64_t d_size() { return sizeof(F); }
void d_fft(F &f, E *a, uint64_t n) { f.fft(a, n); }
void d_ifft(F &f, E *a, uint64_t n) { f.ifft(a, n); }
}
