// every operation of the hash table, over keys, hash functions and values the analysis knows nothing about
#include <cstddef>
#include <cstdint>
#include <string>
#include <new>
#include <adt/HashTable.h>
#include <adt/StringMap.h>
namespace sa {
struct Val { Val(); Val(const Val&); ~Val(); Val& operator=(const Val&); long w; };
}
extern "C" {
unsigned sa_hash(const int*);
void sa_visit(const void*);
}
namespace sa {
struct Hasher { unsigned operator()(const int& k) const { return sa_hash(&k); } };
typedef eni::HashTable<int, Val, Hasher> Table;
typedef eni::internal::TableImpl<int, Val, Hasher> Impl;
typedef Table::entry_type Entry;
typedef Impl::Bucket Bucket;
struct Peek : Table { static void poke(Peek* p, Bucket* b, unsigned n, unsigned e, unsigned t) { p->m_Buckets = b; p->m_NumOfBuckets = n; p->m_NumOfEntries = e; p->m_NumOfTombstones = t; } };
template<class I> long walk(I b, I e) { long n = 0; for (; b != e; ++b) { sa_visit(&*b); ++n; } return n; }
}
using sa::Table; using sa::Entry; using sa::Bucket; using sa::Val;
extern "C" {
// how things are laid out
unsigned long sa_table_size() { return sizeof(Table); }
unsigned long sa_bucket_size() { return sizeof(Bucket); }
unsigned long sa_bucket_hash() { return offsetof(Bucket, hash); }
unsigned long sa_bucket_entry() { return offsetof(Bucket, entry); }
unsigned long sa_entry_size() { return sizeof(Entry); }
const void* sa_entry_key(const Entry* e) { return &e->key(); }
const void* sa_entry_value(const Entry* e) { return &e->value(); }
void* sa_tombstone() { return Table::Tombstone(); }
void* sa_emptybucket() { return Table::EmptyBucket(); }
void sa_poke(Table* t, Bucket* b, unsigned n, unsigned e, unsigned m) { sa::Peek::poke(static_cast<sa::Peek*>(t), b, n, e, m); }

void op_construct(void* p, unsigned long n) { new (p) Table(n); }
void op_construct_default(void* p) { new (p) Table(); }
void op_copy(void* p, const Table* t) { new (p) Table(*t); }
void op_move(void* p, Table* t) { new (p) Table(static_cast<Table&&>(*t)); }
void op_destroy(Table* t) { t->Table::~Table(); }
Table* op_assign(Table* t, const Table* u) { return &(*t = *u); }
Table* op_moveassign(Table* t, Table* u) { return &(*t = static_cast<Table&&>(*u)); }
void op_clear(Table* t) { t->clear(); }
Entry* op_insert(Table* t, const int* k, bool* x) { return t->insert(*k, *x); }
bool op_erase(Table* t, const int* k) { return t->erase(*k); }
Entry* op_find(Table* t, const int* k) { Table::iterator i = t->find(*k); return i == t->end() ? 0 : &*i; }
const Entry* op_cfind(const Table* t, const int* k) { Table::const_iterator i = t->find(*k); return i == t->end() ? 0 : &*i; }
unsigned long op_count(const Table* t, const int* k) { return t->count(*k); }
void op_rehash(Table* t) { t->rehash(); }
void op_rehash_to(Table* t, unsigned long n) { t->rehash(n); }
long op_walk(Table* t) { return sa::walk(t->begin(), t->end()); }
long op_cwalk(const Table* t) { return sa::walk(t->begin(), t->end()); }
long op_chain(Table* t, const int* k) { return sa::walk(t->begin(*k), t->end(*k)); }
long op_cchain(const Table* t, const int* k) { return sa::walk(t->begin(*k), t->end(*k)); }
bool op_empty(const Table* t) { return t->empty(); }
unsigned long op_entries(const Table* t) { return t->numOfEntries(); }
unsigned long op_buckets(const Table* t) { return t->numOfBuckets(); }
unsigned long op_tombstones(const Table* t) { return t->numOfTombstones(); }
}

// the entries and the allocator of tables with texts as keys, and the string map over its table
typedef eni::internal::StringHasher<eni::internal::SDBM> SHasher;
typedef eni::internal::Entry<std::string, Val> SEntry;
typedef eni::MallocAllocator<SEntry> SAlloc;
typedef eni::StringMap<Val> Map;
extern "C" {
SEntry* s_make(const std::string* k) { SAlloc a; SEntry* e = a.allocate(1, k); return new (e) SEntry(*k); }
bool s_haskey(const SEntry* e, const std::string* k) { return e->key() == *k; }
Val* s_value(SEntry* e) { return &e->value(); }
const Val* s_cvalue(const SEntry* e) { return &e->value(); }
void s_set(SEntry* e, const Val* v) { e->setValue(*v); }
void s_free(SEntry* e) { SAlloc a; e->~SEntry(); a.deallocate(e); }
unsigned long s_size() { return sizeof(SEntry); }
Val* m_at(Map* m, const std::string* k) { return &m->at(*k); }
const Val* m_cat(const Map* m, const std::string* k) { return &m->at(*k); }
Val* m_index(Map* m, const std::string* k) { return &(*m)[*k]; }
const Val* m_cindex(const Map* m, const std::string* k) { return &(*m)[*k]; }
unsigned long m_size(const Map* m) { return m->size(); }
bool m_empty(const Map* m) { return m->empty(); }
bool m_erase(Map* m, const std::string* k) { return m->erase(*k); }
void m_construct(void* p, unsigned long n) { new (p) Map(n); }
void m_construct_default(void* p) { new (p) Map(); }
void m_copy(void* p, const Map* m) { new (p) Map(*m); }
void m_move(void* p, Map* m) { new (p) Map(static_cast<Map&&>(*m)); }
Map* m_assign(Map* m, const Map* n) { return &(*m = *n); }
Map* m_moveassign(Map* m, Map* n) { return &(*m = static_cast<Map&&>(*n)); }
void m_destroy(Map* m) { m->Map::~Map(); }
unsigned long m_map_size() { return sizeof(Map); }
}

extern "C" {
long m_walk(Map* m) { return sa::walk(m->begin(), m->end()); }
long m_cwalk(const Map* m) { return sa::walk(m->begin(), m->end()); }
}
