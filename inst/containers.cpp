// every member function of the containers, for element types that are copied bytewise and ones that are assigned
#include <cstdint>
#include <cstring>
#include <string>
#include <adt/Vector.h>
#include <adt/StringMap.h>
namespace sa { struct Item { Item(); explicit Item(int); Item(const Item&); ~Item(); Item& operator=(const Item&); long w[3]; }; }
template class eni::Vector<char>;
template class eni::Vector<sa::Item>;
template class eni::PointerIterator<const char>;
template class eni::PointerIterator<const sa::Item>;
template class eni::HashTable<std::string, int, eni::internal::StringHasher<eni::internal::SDBM>>;
template class eni::StringMap<int>;
typedef eni::HashTable<std::string, int, eni::internal::StringHasher<eni::internal::SDBM>> Table;
typedef eni::internal::TableImpl<std::string, int, eni::internal::StringHasher<eni::internal::SDBM>> Impl;
template class eni::EntryIterBase<Impl>;
template class eni::ChainIterBase<Impl>;
template<class T, class I> void use(T& t, I i, const std::string& k)
{
  I j(i), e;
  j = i;
  ++j;
  j++;
  if (j == i || j != e)
    j->value();
  (*i).value();
  const I& c = i;
  c->value();
  (*c).value();
}
void sa_iterators(Table& t, const Table& c, const std::string& k)
{
  use(t, t.begin(), k);
  use(t, t.begin(k), k);
  use(c, c.begin(), k);
  use(c, c.begin(k), k);
}
