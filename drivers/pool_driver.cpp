#include "misc.hpp"
#include <new>
struct Fo { void *p; void operator()() const; };
// what a parallel body is handed
void rec(void *tag, int a, int b, int c);
struct Body { void *tag; Body(void *t) : tag(t) {} void operator()(int b, int e, int k) const { rec(tag, b, e, k); } };
struct Block { void *tag; Block(void *t) : tag(t) {} void operator()(int k, int n) const { rec(tag, k, n, 0); } };
extern "C" {
void d_ctor(void *p) { new (p) ThreadWorker(); }
void d_dtor(ThreadWorker *p) { p->~ThreadWorker(); }
void d_submit(ThreadWorker *p, Fo *f) { p->submit(*f); }
void d_wait(ThreadWorker *p) { p->wait(); }
unsigned long d_size() { return sizeof(ThreadWorker); }
unsigned long d_psize() { return sizeof(ThreadPool); }
void d_pool(void *p, unsigned n) { new (p) ThreadPool(n); }
void d_unpool(ThreadPool *p) { p->~ThreadPool(); }
unsigned d_count(ThreadPool *p) { return p->getThreadCount(); }
void d_for(ThreadPool *p, int b, int e, void *tag) { p->parallelFor(b, e, Body(tag)); }
void d_block(ThreadPool *p, void *tag) { p->parallelBlock(Block(tag)); }
}
