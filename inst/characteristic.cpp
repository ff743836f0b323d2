#include <cstdint>
#include <string>
#include <adt/StringHasher.h>
typedef eni::internal::StringHasher<eni::internal::ES> ES;
uint32_t sa_characteristic(const std::string& s) { return ES()(s); }
bool sa_may_include(uint32_t rule, uint32_t in) { return ES::may_include(rule, in); }
