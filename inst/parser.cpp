// instantiation for the parser analysis (never linked or run)
#include <json/Parser.h>
extern "C" void sa_result(bool);
extern "C" void sa_parse(const std::string &s) {
  json::Parser p(s);
  sa_result(static_cast<bool>(p));
}
