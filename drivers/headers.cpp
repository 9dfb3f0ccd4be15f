#include "binfile.cpp"
#include "wtns_utils.cpp"
#include "zkey_utils.cpp"
extern "C" {
WtnsUtils::Header *drv_wtns(BinFile *f) { return WtnsUtils::loadHeader(f).release(); }
void drv_wtns_drop(WtnsUtils::Header *h) { delete h; }
uint32_t w_n8(WtnsUtils::Header *h) { return h->n8; }
uint32_t w_nVars(WtnsUtils::Header *h) { return h->nVars; }
void *w_prime(WtnsUtils::Header *h) { return h->prime; }
ZKeyUtils::Header *drv_zkey(BinFile *f) { return ZKeyUtils::loadHeader(f).release(); }
void drv_zkey_drop(ZKeyUtils::Header *h) { delete h; }
uint32_t z_n8q(ZKeyUtils::Header *h) { return h->n8q; }
uint32_t z_n8r(ZKeyUtils::Header *h) { return h->n8r; }
void *z_qPrime(ZKeyUtils::Header *h) { return h->qPrime; }
void *z_rPrime(ZKeyUtils::Header *h) { return h->rPrime; }
uint32_t z_nVars(ZKeyUtils::Header *h) { return h->nVars; }
uint32_t z_nPublic(ZKeyUtils::Header *h) { return h->nPublic; }
uint32_t z_domainSize(ZKeyUtils::Header *h) { return h->domainSize; }
uint64_t z_nCoefs(ZKeyUtils::Header *h) { return h->nCoefs; }
void *z_alpha1(ZKeyUtils::Header *h) { return h->vk_alpha1; }
void *z_beta1(ZKeyUtils::Header *h) { return h->vk_beta1; }
void *z_beta2(ZKeyUtils::Header *h) { return h->vk_beta2; }
void *z_gamma2(ZKeyUtils::Header *h) { return h->vk_gamma2; }
void *z_delta1(ZKeyUtils::Header *h) { return h->vk_delta1; }
void *z_delta2(ZKeyUtils::Header *h) { return h->vk_delta2; }
}
