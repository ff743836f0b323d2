// what an operation may be given: any argument text that parses, as any value (never linked or run)
#include <eni.h>
#include <json/Parser.h>
#include <json/Object.h>
#include <new>
extern "C" {
int sa_kind(int where);
bool sa_more();
bool sa_ok();
unsigned long sa_gas();
void sa_text(std::string*);
void sa_parse_called(const json::Array*);
void sa_gas_called();
void sa_run_called();
}
static void sa_value(json::Value& v, int where) {
  std::string s;
  switch (sa_kind(where)) {
    case json::INT: v.delegate(*new eni::s256(0)); break;
    case json::BOOL: new (&v) json::Value(true); break;
    case json::STRING: sa_text(&s); new (&v) json::Value(s); break;
    case json::OBJECT: v.delegate(*new json::Object()); break;
    case json::ARRAY: {
      json::Array* a = new json::Array();
      if (where == 0 && sa_more()) {
        { json::Value e; sa_value(e, 1); a->push_back(e); }
        if (sa_more()) {
          { json::Value e; sa_value(e, 2); a->push_back(e); }
          if (sa_more()) {
            json::Value e; sa_value(e, 3); a->push_back(e);
          }
        }
      }
      v.delegate(*a);
      break;
    }
  }
}
extern "C" void sa_root(json::Value* out) {
  new (out) json::Value();
  sa_value(*out, 0);
}
// any history of calls on any operation
struct SaOp : public eni::EniBase {
  SaOp(const std::string& s) : eni::EniBase(s) {}
  ~SaOp() {}
  bool parse(const json::Array& a) override { sa_parse_called(&a); return sa_ok(); }
  eni::Gas gas() const override { sa_gas_called(); return sa_gas(); }
  bool run(json::Array& r) override {
    sa_run_called();
    if (sa_more()) {
      { std::string s; sa_text(&s); r.push_back(json::Value(s)); }
      if (sa_more()) { std::string s; sa_text(&s); r.push_back(json::Value(s)); }
    }
    return sa_ok();
  }
};
ENI_C_INTERFACE(anyop, SaOp)
extern "C" void sa_got_gas(unsigned long);
extern "C" void sa_got_result(char*);
extern "C" void sa_history(const std::string& text) {
  SaOp op(text);
  while (sa_more()) {
    if (sa_more()) sa_got_gas(op.getGas());
    else sa_got_result(op.start());
  }
}
// what is printed, told element by element
extern "C" void sa_element(const std::string*);
extern "C" void sa_not_list();
extern "C" void sa_examine_array(const json::Array* a) {
  for (unsigned i = 0; i < a->size(); ++i) {
    const json::Value& e = (*a)[(int)i];
    sa_element(e.isString() ? &e.toString() : 0);
  }
}
extern "C" void sa_examine(const json::Value* v) {
  if (!v->isArray()) { sa_not_list(); return; }
  sa_examine_array(&v->toArray());
}
