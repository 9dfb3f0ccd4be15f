// Interface of the parallel copy the container reader expects from its embedding project.
#ifndef THREAD_UTILS_HPP
#define THREAD_UTILS_HPP
#include <cstdint>
#include <sys/types.h>
namespace ThreadUtils {
    void parcpy(void *dst, const void *src, uint64_t size, int nThreads);
}
#endif
