#include <cstdint>
#include <sys/types.h>
#include <new>
#include <string>
template class std::basic_string<char>;   // so the analysis sees the string operations
#include "binfile_utils.cpp"
using BinFileUtils::BinFile;
static const char TYPE[] = "wtns";
extern "C" {
void drv_open_mem(void *at, void *data, uint64_t n, uint32_t maxv) { new (at) BinFile(data, n, TYPE, maxv); }
void drv_open_file(void *at, const char *name, uint32_t maxv) { new (at) BinFile(std::string(name), TYPE, maxv); }
void drv_open_existing(std::unique_ptr<BinFile> *at, const char *name, uint32_t maxv) { new (at) std::unique_ptr<BinFile>(BinFileUtils::openExisting(name, TYPE, maxv)); }
void drv_drop(std::unique_ptr<BinFile> *at) { at->~unique_ptr<BinFile>(); }
BinFile *drv_get(std::unique_ptr<BinFile> *at) { return at->get(); }
void drv_close(BinFile *f) { f->~BinFile(); }
void drv_start(BinFile *f, uint32_t id, uint32_t p) { f->startReadSection(id, p); }
void drv_end(BinFile *f, int check) { f->endReadSection(check != 0); }
void *drv_data(BinFile *f, uint32_t id, uint32_t p) { return f->getSectionData(id, p); }
uint64_t drv_size(BinFile *f, uint32_t id, uint32_t p) { return f->getSectionSize(id, p); }
uint32_t drv_u32(BinFile *f) { return f->readU32LE(); }
uint64_t drv_u64(BinFile *f) { return f->readU64LE(); }
void *drv_read(BinFile *f, uint64_t len) { return f->read(len); }
uint64_t drv_sizeof() { return sizeof(BinFile); }
}
