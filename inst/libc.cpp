// What the searching functions of the C library do, read instead of a model of theirs.
#include <cstddef>

extern "C" {

char* sa_libc_strchr(const char* s, int c)
{
  for (;; ++s) {
    if (*s == (char)c)
      return (char*)s;
    if (*s == 0)
      return NULL;
  }
}

char* sa_libc_strrchr(const char* s, int c)
{
  const char* found = NULL;
  for (;; ++s) {
    if (*s == (char)c)
      found = s;
    if (*s == 0)
      return (char*)found;
  }
}

void* sa_libc_memchr(const void* p, int c, size_t n)
{
  const char* s = (const char*)p;
  const char* end = s + n;
  for (; s != end; ++s)
    if (*s == (char)c)
      return (void*)s;
  return NULL;
}

size_t sa_libc_strspn(const char* s, const char* set)
{
  const char* p = s;
  while (*p != 0 && sa_libc_strchr(set, *p) != NULL)
    ++p;
  return p - s;
}

size_t sa_libc_strcspn(const char* s, const char* set)
{
  const char* p = s;
  while (*p != 0 && sa_libc_strchr(set, *p) == NULL)
    ++p;
  return p - s;
}

char* sa_libc_strpbrk(const char* s, const char* set)
{
  for (; *s != 0; ++s)
    if (sa_libc_strchr(set, *s) != NULL)
      return (char*)s;
  return NULL;
}

}
