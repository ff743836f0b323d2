// every string hasher, applied to a text; sa/check_hasher.py
#include <cstdint>
#include <string>
#include <adt/StringHasher.h>
using namespace eni::internal;
uint32_t sa_hash_RS(const std::string& s) { return StringHasher<RS>()(s); }
uint32_t sa_hash_JS(const std::string& s) { return StringHasher<JS>()(s); }
uint32_t sa_hash_PJW(const std::string& s) { return StringHasher<PJW>()(s); }
uint32_t sa_hash_ELF(const std::string& s) { return StringHasher<ELF>()(s); }
uint32_t sa_hash_BKDR(const std::string& s) { return StringHasher<BKDR>()(s); }
uint32_t sa_hash_SDBM(const std::string& s) { return StringHasher<SDBM>()(s); }
uint32_t sa_hash_DJB(const std::string& s) { return StringHasher<DJB>()(s); }
uint32_t sa_hash_DEK(const std::string& s) { return StringHasher<DEK>()(s); }
uint32_t sa_hash_BP(const std::string& s) { return StringHasher<BP>()(s); }
uint32_t sa_hash_FNV(const std::string& s) { return StringHasher<FNV>()(s); }
uint32_t sa_hash_AP(const std::string& s) { return StringHasher<AP>()(s); }
uint32_t sa_hash_ES(const std::string& s) { return StringHasher<ES>()(s); }
