// every operation of the iterators, one function for each
#include "hash.cpp"
#include <adt/Vector.h>
namespace sa { struct Item { long w[3]; }; }
#define POINTERS(N, T) \
typedef eni::PointerIterator<T> N##_it; \
extern "C" { \
bool N##_lt(const N##_it* a, const N##_it* b) { return *a < *b; } \
bool N##_gt(const N##_it* a, const N##_it* b) { return *a > *b; } \
bool N##_le(const N##_it* a, const N##_it* b) { return *a <= *b; } \
bool N##_ge(const N##_it* a, const N##_it* b) { return *a >= *b; } \
bool N##_eq(const N##_it* a, const N##_it* b) { return *a == *b; } \
bool N##_ne(const N##_it* a, const N##_it* b) { return *a != *b; } \
long N##_distance(N##_it* a, N##_it* b) { return *a - *b; } \
T* N##_deref(N##_it* a) { return &**a; } \
T const* N##_cderef(const N##_it* a) { return &**a; } \
T* N##_arrow(N##_it* a) { return a->operator->(); } \
T const* N##_carrow(const N##_it* a) { return a->operator->(); } \
T* N##_index(N##_it* a, size_t k) { return &(*a)[k]; } \
T* N##_plus(N##_it* a, size_t k) { return (*a + k).operator->(); } \
T* N##_minus(N##_it* a, size_t k) { return (*a - k).operator->(); } \
N##_it* N##_plus_to(N##_it* a, size_t k) { return &(*a += k); } \
N##_it* N##_minus_to(N##_it* a, size_t k) { return &(*a -= k); } \
N##_it* N##_next(N##_it* a) { return &++*a; } \
N##_it* N##_prior(N##_it* a) { return &--*a; } \
T* N##_next_old(N##_it* a) { return ((*a)++).operator->(); } \
T* N##_prior_old(N##_it* a) { return ((*a)--).operator->(); } \
N##_it* N##_assign(N##_it* a, const N##_it* b) { return &(*a = *b); } \
void N##_copy(N##_it* a, const N##_it* b) { new (a) N##_it(*b); } \
void N##_make(N##_it* a, T* p) { new (a) N##_it(p); } \
unsigned long N##_size() { return sizeof(N##_it); } \
unsigned long N##_item() { return sizeof(T); } \
}
POINTERS(bytes, char)
POINTERS(cbytes, const char)
POINTERS(items, sa::Item)
POINTERS(citems, const sa::Item)
POINTERS(longs, long)
extern "C" {
void cbytes_ref(cbytes_it* a, const char* p) { new (a) cbytes_it(*p); }
void citems_ref(citems_it* a, const sa::Item* p) { new (a) citems_it(*p); }
}

#define WALKS(N, T, C) \
typedef T N##_it; \
extern "C" { \
unsigned long N##_size() { return sizeof(N##_it); } \
void N##_make(N##_it* i) { new (i) N##_it(); } \
bool N##_eq(const N##_it* a, const N##_it* b) { return *a == *b; } \
bool N##_ne(const N##_it* a, const N##_it* b) { return *a != *b; } \
const Table::entry_type* N##_deref(N##_it* a) { return &**a; } \
const Table::entry_type* N##_arrow(N##_it* a) { return a->operator->(); } \
N##_it* N##_next(N##_it* a) { return &++*a; } \
void N##_next_old(N##_it* a, N##_it* r) { new (r) N##_it((*a)++); } \
N##_it* N##_assign(N##_it* a, const N##_it* b) { return &(*a = *b); } \
void N##_copy(N##_it* a, const N##_it* b) { new (a) N##_it(*b); } \
}
WALKS(walk, Table::iterator, )
WALKS(cwalk, Table::const_iterator, const)
WALKS(chain, Table::chain_iterator, )
WALKS(cchain, Table::const_chain_iterator, const)
extern "C" {
void walk_conv(cwalk_it* r, walk_it* a) { new (r) cwalk_it(*a); }
void chain_conv(cchain_it* r, chain_it* a) { new (r) cchain_it(*a); }
const Table::entry_type* walk_cderef(const walk_it* a) { return &**a; }
const Table::entry_type* walk_carrow(const walk_it* a) { return a->operator->(); }
const Table::entry_type* chain_cderef(const chain_it* a) { return &**a; }
const Table::entry_type* chain_carrow(const chain_it* a) { return a->operator->(); }
void walk_first(walk_it* i, Table* t, const int*) { new (i) walk_it(t->begin()); }
void walk_last(walk_it* i, Table* t, const int*) { new (i) walk_it(t->end()); }
void walk_found(walk_it* i, Table* t, const int* k) { new (i) walk_it(t->find(*k)); }
void cwalk_first(cwalk_it* i, const Table* t, const int*) { new (i) cwalk_it(t->begin()); }
void cwalk_last(cwalk_it* i, const Table* t, const int*) { new (i) cwalk_it(t->end()); }
void cwalk_found(cwalk_it* i, const Table* t, const int* k) { new (i) cwalk_it(t->find(*k)); }
void chain_first(chain_it* i, Table* t, const int* k) { new (i) chain_it(t->begin(*k)); }
void chain_last(chain_it* i, Table* t, const int* k) { new (i) chain_it(t->end(*k)); }
void cchain_first(cchain_it* i, const Table* t, const int* k) { new (i) cchain_it(t->begin(*k)); }
void cchain_last(cchain_it* i, const Table* t, const int* k) { new (i) cchain_it(t->end(*k)); }
}
