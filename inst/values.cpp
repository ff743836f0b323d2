// every value operation on every kind of value (never linked or run)
#include <json/Value.h>
#include <json/Array.h>
#include <json/Object.h>
#include <new>
#include <utility>
using namespace json;
extern "C" {
int sa_kind();
bool sa_more();
bool sa_bool();
void sa_text(std::string*);
void sa_number(eni::s256*);
void sa_fill(Object*);
void sa_int(const eni::s256*);
void sa_boolean(bool);
void sa_str(const std::string*);
void sa_obj(const Object*);
void sa_undef();
void sa_list(const Array*);
void sa_end();
void sa_other();
void sa_is(int slot);      // what was observed last becomes `slot`
void sa_same(int a, int b);
void sa_separate(int a, int b);
void sa_empty(int a);
void sa_taken(int a, const void*);
void sa_refused(int a);
void sa_accepted(int a);
void sa_what(int);
}
static void sa_look_at(const Value& v);
static void sa_look_list(const Array& l) {
  sa_list(&l);
  for (unsigned i = 0; i < l.size(); ++i) sa_look_at(l[(int)i]);
  sa_end();
}
static void sa_look_at(const Value& v) {
  switch (v.type()) {
    case UNDEF: sa_undef(); break;
    case INT: sa_int(&v.toInteger()); break;
    case BOOL: sa_boolean(v.toBoolean()); break;
    case STRING: sa_str(&v.toString()); break;
    case OBJECT: sa_obj(&v.toObject()); break;
    case ARRAY: sa_look_list(v.toArray()); break;
    default: sa_other();
  }
}
static void sa_see(const Value& v, int slot) { sa_look_at(v); sa_is(slot); }
static void sa_see_list(const Array& v, int slot) { sa_look_list(v); sa_is(slot); }
static void sa_see_obj(const Object& v, int slot) { sa_obj(&v); sa_is(slot); }
static void sa_make_list(Array& a);
static void sa_make(Value* p, bool nested) {
  switch (sa_kind()) {
    case UNDEF: new (p) Value(); break;
    case INT: { eni::s256 i; sa_number(&i); new (p) Value(i); break; }
    case BOOL: new (p) Value(sa_bool()); break;
    case STRING: { std::string s; sa_text(&s); new (p) Value(s); break; }
    case OBJECT: { Object o; sa_fill(&o); new (p) Value(o); break; }
    case ARRAY: { Array a; if (!nested) sa_make_list(a); new (p) Value(a); break; }
    default: { std::string s; sa_text(&s); Value from(s); new (p) Value(std::move(from)); Value empty(std::move(*p)); break; }
  }
}
static void sa_make_list(Array& a) {
  if (!sa_more()) return;
  { Value e; e.~Value(); sa_make(&e, true); a.push_back(e); }
  if (!sa_more()) return;
  std::string s; sa_text(&s); a.push_back(Value(s));
}
struct SaSlot { alignas(Value) char room[sizeof(Value)]; Value* at() { return (Value*)room; } };

extern "C" void sa_constructing(const std::string& text, const char* cs, int n) {
  switch (sa_kind()) {
    case UNDEF: { Value v; sa_see(v, 0); sa_empty(0); break; }
    case INT: {
      if (sa_more()) { eni::s256 i; sa_number(&i); sa_int(&i); sa_is(0); Value v(i); sa_see(v, 1); sa_int(&i); sa_is(2); }
      else { Value v(n); sa_see(v, 1); eni::s256 i(n); sa_int(&i); sa_is(0); sa_int(&i); sa_is(2); }
      sa_same(0, 1); sa_same(0, 2); sa_separate(1, 2); break; }
    case BOOL: { bool b = sa_bool(); sa_boolean(b); sa_is(0); Value v(b); sa_see(v, 1); sa_same(0, 1); break; }
    case STRING: {
      sa_str(&text); sa_is(0); Value v(text); sa_see(v, 1); sa_str(&text); sa_is(2); sa_same(0, 1); sa_same(0, 2); sa_separate(1, 2);
      std::string c(cs); sa_str(&c); sa_is(3); Value w(cs); sa_see(w, 4); sa_same(3, 4); break; }
    case OBJECT: { Object o; sa_fill(&o); sa_see_obj(o, 0); Value v(o); sa_see(v, 1); sa_see_obj(o, 2); sa_same(0, 1); sa_same(0, 2); sa_separate(1, 2); break; }
    case ARRAY: { Array a; sa_make_list(a); sa_see_list(a, 0); Value v(a); sa_see(v, 1); sa_see_list(a, 2); sa_same(0, 1); sa_same(0, 2); sa_separate(1, 2); break; }
  }
}
extern "C" void sa_copying() {
  SaSlot a;
  sa_make(a.at(), false);
  sa_see(*a.at(), 0);
  {
    Value b(*a.at());
    sa_see(*a.at(), 1);
    sa_see(b, 2);
    sa_same(0, 1); sa_same(0, 2); sa_separate(1, 2);
  }
  sa_see(*a.at(), 3);       // destroying the copy leaves the source alone
  sa_same(0, 3);
  a.at()->~Value();
}
extern "C" void sa_copy_outlives() {
  SaSlot a, b;
  sa_make(a.at(), false);
  sa_see(*a.at(), 0);
  new (b.at()) Value(*a.at());
  a.at()->~Value();
  sa_see(*b.at(), 1);
  sa_same(0, 1);
  b.at()->~Value();
}
extern "C" void sa_assigning() {
  SaSlot a, b;
  sa_make(a.at(), false);
  sa_make(b.at(), true);
  sa_see(*a.at(), 0);
  Value& r = (*b.at() = *a.at());
  sa_see(*a.at(), 1);
  sa_see(*b.at(), 2);
  sa_same(0, 1); sa_same(0, 2); sa_separate(1, 2);
  sa_see(r, 3); sa_same(2, 3);
  if (sa_more()) { b.at()->~Value(); sa_see(*a.at(), 4); sa_same(0, 4); a.at()->~Value(); }
  else { a.at()->~Value(); sa_see(*b.at(), 4); sa_same(0, 4); b.at()->~Value(); }
}
extern "C" void sa_assigning_itself() {
  SaSlot a;
  sa_make(a.at(), false);
  sa_see(*a.at(), 0);
  *a.at() = *a.at();
  sa_see(*a.at(), 1);
  sa_same(0, 1);
  a.at()->~Value();
}
extern "C" void sa_assigning_part() {
  Array l;
  { Value e; e.~Value(); sa_make(&e, true); l.push_back(e); }
  Value a(l);
  sa_see(a.toArray()[0], 0);
  a = a.toArray()[0];
  sa_see(a, 1);
  sa_same(0, 1);
}
extern "C" void sa_moving() {
  SaSlot a;
  sa_make(a.at(), false);
  sa_see(*a.at(), 0);
  {
    Value b(std::move(*a.at()));
    sa_see(*a.at(), 1);
    sa_see(b, 2);
    sa_empty(1); sa_same(0, 2);
  }
  sa_see(*a.at(), 3);
  sa_empty(3);
  if (sa_more()) { std::string s; sa_text(&s); Value c(s); sa_see(c, 4); *a.at() = c; sa_see(*a.at(), 5); sa_same(4, 5); }
  a.at()->~Value();
}
extern "C" void sa_taking_over() {
  SaSlot a;
  sa_make(a.at(), true);
  sa_see(*a.at(), 0);
  switch (sa_kind()) {
    case INT: {
      eni::s256* i = new eni::s256(0); sa_number(i); sa_int(i); sa_is(1);
      try { a.at()->delegate(*i); sa_accepted(0); sa_see(*a.at(), 2); sa_same(1, 2); sa_taken(2, i); }
      catch (std::logic_error&) { sa_refused(0); sa_see(*a.at(), 2); sa_same(0, 2); delete i; }
      break; }
    case OBJECT: {
      Object* o = new Object(); sa_fill(o); sa_see_obj(*o, 1);
      try { a.at()->delegate(*o); sa_accepted(0); sa_see(*a.at(), 2); sa_same(1, 2); sa_taken(2, o); }
      catch (std::logic_error&) { sa_refused(0); sa_see(*a.at(), 2); sa_same(0, 2); delete o; }
      break; }
    case ARRAY: {
      Array* l = new Array(); sa_make_list(*l); sa_see_list(*l, 1);
      try { a.at()->delegate(*l); sa_accepted(0); sa_see(*a.at(), 2); sa_same(1, 2); sa_taken(2, l); }
      catch (std::logic_error&) { sa_refused(0); sa_see(*a.at(), 2); sa_same(0, 2); delete l; }
      break; }
  }
  a.at()->~Value();
}
extern "C" void sa_lists() {
  Array a;
  sa_make_list(a);
  sa_see_list(a, 0);
  if (sa_more()) {
    Array b(a);
    sa_see_list(a, 1); sa_see_list(b, 2);
    sa_same(0, 1); sa_same(0, 2); sa_separate(1, 2);
  }
  else if (sa_more()) {
    Array b;
    sa_make_list(b);
    Array& r = (b = a);
    sa_see_list(a, 1); sa_see_list(b, 2); sa_see_list(r, 3);
    sa_same(0, 1); sa_same(0, 2); sa_same(0, 3); sa_separate(1, 2);
  }
  else
    a = a;
  sa_see_list(a, 4);
  sa_same(0, 4);
}
extern "C" void sa_objects() {
  Object a;
  sa_fill(&a);
  sa_see_obj(a, 0);
  if (sa_more()) {
    Object b(a);
    sa_see_obj(a, 1); sa_see_obj(b, 2);
    sa_same(0, 1); sa_same(0, 2); sa_separate(1, 2);
  }
  else if (sa_more()) {
    Object b;
    sa_fill(&b);
    Object& r = (b = a);
    sa_see_obj(a, 1); sa_see_obj(b, 2); sa_see_obj(r, 3);
    sa_same(0, 1); sa_same(0, 2); sa_same(0, 3); sa_separate(1, 2);
  }
  else
    a = a;
  sa_see_obj(a, 4);
  sa_same(0, 4);
}
extern "C" void sa_notations() {
  Notation a(ARRAY), b(STRING);
  if (sa_more()) { Notation c(a); sa_what(c.type() == ARRAY && a.type() == ARRAY); }
  if (sa_more()) { Notation& r = (b = a); sa_what(b.type() == ARRAY && a.type() == ARRAY && &r == &b); }
  if (sa_more()) { Notation c(std::move(a)); sa_what(c.type() == ARRAY && a.type() == UNDEF); }
  else if (sa_more()) { Notation& r = (b = std::move(a)); sa_what(b.type() == ARRAY && a.type() == UNDEF && &r == &b); }
  else if (sa_more()) { Notation& x = a; a = std::move(x); sa_what(a.type() == ARRAY); }
  Notation d;
  sa_what(d.type() == UNDEF);
}
