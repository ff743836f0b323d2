// C16: what the integer types are, as assertions of the type system; and one use of every string conversion.
#include <eni_types.h>
#include <limits>
#include <string>
#include <type_traits>
namespace mp = boost::multiprecision;
template <class T> struct backend;
template <class B, mp::expression_template_option E> struct backend<mp::number<B, E>> { typedef B type; };
template <class B> struct is_checked { };
template <unsigned m, unsigned M, mp::cpp_integer_type S, mp::cpp_int_check_type C, class A>
struct is_checked<mp::cpp_int_backend<m, M, S, C, A>> { enum { value = C == mp::checked, heap = !std::is_same<A, void>::value }; };
template <class T, int N, bool S> struct fixed {
  typedef typename backend<T>::type B;
  static_assert(mp::is_number<T>::value, "SA: an integer type of the big integer library");
  static_assert(std::numeric_limits<T>::is_integer, "SA: an integer type");
  static_assert(std::numeric_limits<T>::digits == N, "SA: exactly that many bits");
  static_assert(std::numeric_limits<T>::is_signed == S, "SA: the documented signedness");
  static_assert(std::numeric_limits<T>::is_bounded, "SA: bounded");
  static_assert(mp::backends::max_precision<B>::value == N && mp::backends::min_precision<B>::value == N, "SA: fixed width");
  static_assert(mp::backends::is_fixed_precision<B>::value, "SA: without heap allocation");
  static_assert(!is_checked<B>::value, "SA: wraps around instead of failing");
  static_assert(!is_checked<B>::heap, "SA: without heap allocation");
};
template struct fixed<eni::u64, 64, false>;
template struct fixed<eni::u128, 128, false>;
template struct fixed<eni::u160, 160, false>;
template struct fixed<eni::u256, 256, false>;
template struct fixed<eni::s256, 256, true>;
static_assert(std::is_same<eni::Bool, bool>::value, "SA: Bool is the language's boolean");
static_assert(std::is_same<eni::Int, eni::s256>::value, "SA: Int is signed 256 bits");
static_assert(std::is_same<eni::UInt, eni::u256>::value, "SA: UInt is unsigned 256 bits");
static_assert(std::is_same<eni::Address, eni::u160>::value, "SA: Address is unsigned 160 bits");
#define CONV(T) static_assert(std::is_same<decltype(eni::to_string(std::declval<eni::T>())), std::string>::value, "SA: conversion to a string"); \
  std::string sa_conv_##T(const eni::T& v) { return eni::to_string(v); }
CONV(u64) CONV(u128) CONV(u160) CONV(u256) CONV(s256) CONV(Bool) CONV(Int) CONV(UInt) CONV(Address)
