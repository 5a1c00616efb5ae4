// C12: every small sequence of strings and division into chunks; boundaries of the encodings.
#include "common.h"

using namespace ref;
using std::string;
using std::vector;

namespace {

void Check(mc::Runner& r, const vector<vector<string>>& chunks, bool factory, const vector<string>& absent) {
  vector<string> all;
  for (auto& k : chunks) all.insert(all.end(), k.begin(), k.end());
  std::unique_ptr<Column> own;
  StringColumn* col;
  if (factory) {
    own = Column::CreateStringColumn("s", all);
    col = static_cast<StringColumn*>(own.get());
  } else {
    col = new StringColumn("s");
    own.reset(col);
    for (auto& k : chunks) { col->Add(&k); r.Step(); if (!col->status().ok()) r.Fail("Add failed"); }
    col->Finalize();
  }
  auto fail = [&](const string& m) {
    std::ostringstream o;
    for (auto& k : chunks) { o << "["; for (size_t i = 0; i < k.size() && i < 20; ++i) o << "'" << k[i] << "' "; o << k.size() << "]"; }
    r.Fail(o.str() + ": " + m);
  };
  if (!col->status().ok()) fail("not ok");
  if (col->type() != Column::kStringColumn || col->name() != "s") fail("wrong type or name");
  if (col->size() != all.size() || col->col().size() != all.size()) fail("has " + std::to_string(col->size()) + " rows");
  std::map<string, uint> index;
  std::map<uint, string> strings;
  uint64_t h = all.size();
  uint n = col->max_int();
  for (size_t i = 0; i < all.size(); ++i) {
    uint k = col->col()[i];
    h = mc::Mix(h, k);
    if (col->get_row_string(i) != all[i]) fail("row " + std::to_string(i) + " is '" + col->get_row_string(i) + "'");
    if (k >= n) fail("row " + std::to_string(i) + " has index " + std::to_string(k) + " of " + std::to_string(n));
    if (col->get_cat_string(k) != all[i]) fail("index " + std::to_string(k) + " of row " + std::to_string(i) + " is '" + col->get_cat_string(k) + "'");
    if (col->col().missing(i) != (all[i] == kMissing)) fail("row " + std::to_string(i) + ": missing is wrong");
    if (index.insert({all[i], k}).first->second != k) fail("'" + all[i] + "' has two indices");
    if (strings.insert({k, all[i]}).first->second != all[i]) fail("index " + std::to_string(k) + " stands for two strings");
    uint x = 12345678;
    if (!col->get_cat_index(all[i], &x) || x != k) fail("lookup of '" + all[i] + "' gives " + std::to_string(x));
  }
  std::set<string> seen;
  for (uint k = 0; k < n; ++k) {
    uint x = 12345678;
    const string& s = col->get_cat_string(k);
    if (!seen.insert(s).second) fail("'" + s + "' has two indices");
    if (!index.count(s) && s != kMissing) fail("'" + s + "' was never added");
    if (!col->get_cat_index(s, &x) || x != k) fail("lookup of category " + std::to_string(k) + " gives " + std::to_string(x));
  }
  for (auto& s : absent) {
    uint x = 12345678;
    if (!index.count(s) && s != kMissing && col->get_cat_index(s, &x)) fail("lookup finds '" + s + "', which was never added");
  }
  if (!factory) {
    vector<string> more = {"zz"};
    col->Add(&more);
    if (col->status().ok()) fail("adding to a completed column is not an error");
    if (col->size() != all.size()) fail("adding to a completed column changed it");
    for (size_t i = 0; i < all.size() && i < 300; ++i) if (col->get_row_string(i) != all[i]) fail("adding to a completed column changed it");
  }
  r.State(h);
}

void Body(mc::Runner& r) {
  Init();
  const vector<string> alpha = {"", kMissing, "a", "b", "A", string("a\0", 2), " a", "\xff"};
  for (int len = 0; len <= (r.thorough ? 7 : 6); ++len) {
    int symbols = len <= 4 ? 8 : len == 5 ? 6 : len == 6 ? (r.thorough ? 6 : 4) : 4;
    Sequences(symbols, len, [&](const vector<int>& v) {
      if (r.Done()) return;
      if (!r.Next([=] { return "strings " + ShowV(v); })) return;
      for (int cut = 0; cut < 1 << std::max(0, len - 1); ++cut) {
        vector<vector<string>> c(1);
        for (int i = 0; i < len; ++i) {
          c.back().push_back(alpha[v[i]]);
          if (i + 1 < len && (cut >> i & 1)) c.push_back({});
        }
        if (cut % 3 == 1) { c.push_back({}); c.insert(c.begin(), {{}}); }
        Check(r, c, cut == 0, alpha);
        if (cut == 0) Check(r, c, false, alpha);
      }
    });
  }
  // Around the limits of the 8 and 16 bit encodings: with and without the marker, repeated, in several chunks and orders.
  vector<int> ns;
  for (int base : {128, 255, 511, 1000, 32768, 65535, 65791, 131071}) for (int k = -3; k <= 3; ++k) ns.push_back(base + k);
  for (int n : ns)
    for (int mode = 0; mode < 8; ++mode)
      for (int chunks : {1, 2, 5}) {
        if (n > 2000 && !r.thorough && (mode + chunks * 3 + n) % 6) continue;
        if (!r.Next([=] { return std::to_string(n) + " distinct strings, mode " + std::to_string(mode) + ", chunks " + std::to_string(chunks); })) continue;
        vector<string> v;
        for (int i = 0; i < n; ++i) {
          v.push_back("s" + std::to_string(mode & 1 ? n - i : (long)i * 101 % n));
          if ((mode & 2) && i % 100 == 50) v.push_back(kMissing);
          if ((mode & 4) && i % 3 == 0) v.push_back("s" + std::to_string(mode & 1 ? n - i / 2 : (long)(i / 2) * 101 % n));
        }
        if (mode & 4) for (int i = 0; i < 300; ++i) v.push_back(v[v.size() / 2 + i % 50]);
        vector<vector<string>> c(chunks);
        for (size_t i = 0; i < v.size(); ++i) c[i * chunks / v.size()].push_back(v[i]);
        Check(r, c, false, {"t", "s", "s-1", ""});
      }
  // Long strings that differ only at one place.
  for (int len : {15, 16, 31, 64, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 4097, 8192, 65535, 65536, 300000})
    for (int where = 0; where < 4; ++where) {
      if (!r.Next([=] { return "strings of " + std::to_string(len) + " bytes that differ at " + std::to_string(where); })) continue;
      size_t at = where == 0 ? 0 : where == 1 ? len / 2 : where == 2 ? len - 1 : len;
      vector<vector<string>> c(2);
      auto make = [&](int k) { string s(len, 'x'); if (at < s.size()) s[at] = 'a' + k; else s += string(k, 'y'); return s; };
      for (int k = 0; k < 5; ++k) { c[0].push_back(make(k)); c[1].push_back(make(k * 2 % 7)); }
      Check(r, c, false, {make(0), make(6), make(9), string(len, 'z')});
    }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
