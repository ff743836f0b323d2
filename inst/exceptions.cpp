// C17: one error object of every identifier and base, seen through every class a handler may name.
#include <diagnostic/Exception.h>
#include <stdexcept>
#include <new>
#include <type_traits>
extern "C" void sa_expect(int id, const char* registered);
extern "C" void sa_says(int id, const char* base, const char* as, const char* what);
template <eni::DiagID ID, class B> void look(const char* base)
{
  typedef eni::Exception<ID, B> X;
  static_assert(std::is_convertible<X*, B*>::value, "SA: a handler for the base class catches the error");
  static_assert(std::is_convertible<X*, std::exception*>::value, "SA: a handler for std::exception catches the error");
  static_assert(std::is_copy_constructible<X>::value, "SA: errors can be thrown");
  X x;
  sa_says(ID, base, "itself", x.what());
  const B& b = x;
  sa_says(ID, base, base, b.what());
  const std::exception& e = x;
  sa_says(ID, base, "std::exception", e.what());
  X y(x);
  const std::exception& f = y;
  sa_says(ID, base, "std::exception, copied", f.what());
}
template <eni::DiagID ID, class B> void sliced(const char* base)
{
  eni::Exception<ID, B> x;
  B s(x);
  sa_says(ID, base, "caught by value", s.what());
}
template <eni::DiagID ID> void bases()
{
  look<ID, std::exception>("std::exception");
  look<ID, std::bad_alloc>("std::bad_alloc");
  look<ID, std::logic_error>("std::logic_error");
  look<ID, std::length_error>("std::length_error");
  look<ID, std::out_of_range>("std::out_of_range");
  sliced<ID, std::logic_error>("std::logic_error");
  sliced<ID, std::length_error>("std::length_error");
  sliced<ID, std::out_of_range>("std::out_of_range");
  static_assert(std::is_base_of<std::bad_alloc, eni::BadAlloc<ID>>::value, "SA: BadAlloc is a bad_alloc");
  static_assert(std::is_base_of<std::logic_error, eni::LogicError<ID>>::value, "SA: LogicError is a logic_error");
  static_assert(std::is_base_of<std::length_error, eni::LengthError<ID>>::value, "SA: LengthError is a length_error");
  static_assert(std::is_base_of<std::out_of_range, eni::OutOfRange<ID>>::value, "SA: OutOfRange is an out_of_range");
  static_assert(std::is_convertible<eni::BadAlloc<ID>*, std::bad_alloc*>::value, "SA: BadAlloc is a bad_alloc");
  static_assert(std::is_convertible<eni::LogicError<ID>*, std::logic_error*>::value, "SA: LogicError is a logic_error");
  static_assert(std::is_convertible<eni::LengthError<ID>*, std::length_error*>::value, "SA: LengthError is a length_error");
  static_assert(std::is_convertible<eni::OutOfRange<ID>*, std::out_of_range*>::value, "SA: OutOfRange is an out_of_range");
}
void sa_exceptions()
{
  using namespace eni;
#define DIAG(ID, MSG) sa_expect(ID, MSG);
#include <diagnostic/DiagList.inc>
#undef DIAG
#define DIAG(ID, MSG) bases<ID>();
#include <diagnostic/DiagList.inc>
#undef DIAG
}
