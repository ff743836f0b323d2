// every way a value can be put together by the parser's callbacks (never linked or run)
#include <iostream>
#include <json/Callbacks.h>
extern "C" {
int sa_kind(int limit);
bool sa_more();
bool sa_bool();
void sa_text(std::vector<char>*, int what);
void sa_arbitrary();
void sa_open(int array);
void sa_close();
void sa_check_root(const json::Value*);
}
static void sa_leaf(json::Callbacks& cb, int limit) {
  std::vector<char> s;
  switch (sa_kind(limit)) {
    case 0: cb.on_boolean(sa_bool()); break;
    case 1: sa_text(&s, 1); cb.on_number(s); break;
    case 2: sa_text(&s, 2); cb.on_string(s, false); break;
  }
}
static void sa_key(json::Callbacks& cb) {
  std::vector<char> s;
  sa_text(&s, 0);
  cb.on_string(s, true);
}
static void sa_begin(json::Callbacks& cb, bool array) {
  if (array) cb.begin_array(); else cb.begin_object();
  sa_open(array);
}
static void sa_end(json::Callbacks& cb, bool array) {
  if (array) cb.end_array(); else cb.end_object();
  sa_close();
}
static void sa_value(json::Callbacks& cb, int level) {
  if (level < 2 && sa_more()) {
    bool array = sa_more();
    sa_begin(cb, array);
    if (sa_more()) {
      sa_arbitrary();
      if (!array) sa_key(cb);
      sa_value(cb, level + 1);
      if (!array) sa_key(cb);
      sa_leaf(cb, 1);
    }
    sa_end(cb, array);
  }
  else
    sa_leaf(cb, 3);
}
extern "C" void sa_from_nothing() {
  json::Callbacks cb;
  sa_value(cb, 0);
  sa_check_root(&cb.getRoot());
}
