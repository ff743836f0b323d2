// prints one value of every kind (never linked or run)
#include <json/Value.h>
#include <json/Array.h>
#include <json/Object.h>
#include <ostream>
template class eni::Vector<json::Value>;
using namespace json;
extern "C" {
void sa_fill(Object*);
void sa_of_boolean(bool);
void sa_of_number(const eni::s256*);
}
extern "C" void sa_print_string(const std::string& s, std::ostream& os) { Value v(s); v.print(os); }
extern "C" void sa_print_number(const eni::s256& i, std::ostream& os) { Value v(i); sa_of_number(&i); v.print(os); }
extern "C" void sa_print_boolean(bool b, std::ostream& os) { Value v(b); sa_of_boolean(b); v.print(os); }
extern "C" void sa_print_object(std::ostream& os) { Object* o = new Object(); sa_fill(o); Value v; v.delegate(*o); v.print(os); }
extern "C" void sa_print_array(Array* a, std::ostream& os) { Value& v = *new Value; v.delegate(*a); v.print(os); }
