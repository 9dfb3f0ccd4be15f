#include <cctype>
#include <string>
#include <vector>
template class std::basic_string<char>;
#include "splitparstr.cpp"
typedef std::vector<std::string> Parts;
extern "C" {
void drv_split(Parts *out, const char *p, unsigned long n) { new (out) Parts(splitParStr(std::string(p, n))); }
unsigned long drv_count(Parts *v) { return v->size(); }
unsigned long drv_len(Parts *v, unsigned long i) { return (*v)[i].size(); }
const char *drv_chars(Parts *v, unsigned long i) { return (*v)[i].data(); }
void drv_free(Parts *v) { v->~Parts(); }
}
