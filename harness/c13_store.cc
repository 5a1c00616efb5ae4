// C13: every sequence of adds and removals, against a map of columns.
#include "common.h"

using namespace ref;
using std::string;
using std::vector;

namespace {

struct Col { int type; int len; int version; };  // type: 0 string, 1 bucketized, 2 raw
typedef std::map<string, Col> Model;
const char* kNames[] = {"a", "b", "", "c"};
const char* kTypes[] = {"string", "float", "raw"};

float Value(const Col& c, int i) { return c.version * 100 + i + 0.5f; }

std::unique_ptr<Column> Make(const string& name, const Col& c) {
  vector<float> f;
  vector<string> s;
  for (int i = 0; i < c.len; ++i) { f.push_back(Value(c, i)); s.push_back(std::to_string(Value(c, i))); }
  if (c.type == 0) return Column::CreateStringColumn(name, s);
  if (c.type == 1) return Column::CreateBucketizedFloatColumn(name, f);
  return Column::CreateRawFloatColumn(name, std::move(f));
}

struct Op { int kind; int name; int type; int len; };  // kind 0: add, 1: remove
string ShowOp(const Op& o) {
  return o.kind ? string("remove '") + kNames[o.name] + "'"
                : string("add '") + kNames[o.name] + "' " + kTypes[o.type] + "[" + std::to_string(o.len) + "]";
}

void CheckAll(mc::Runner& r, DataStore* ds, const Model& m, const string& what) {
  auto fail = [&](const string& s) { r.Fail(what + ": " + s); };
  if (ds->num_cols() != m.size()) fail("num_cols is " + std::to_string(ds->num_cols()) + " instead of " + std::to_string(m.size()));
  uint rows = m.empty() ? 0 : m.begin()->second.len;
  if (ds->num_rows() != rows) fail("num_rows is " + std::to_string(ds->num_rows()) + " instead of " + std::to_string(rows));
  if (!ds->status().ok()) fail("status is not ok");
  std::set<const Column*> want[3], got[3];
  for (auto name : kNames) {
    auto it = m.find(name);
    const Column* c = ds->GetColumn(name);
    const StringColumn* s = ds->GetStringColumn(name);
    const BucketizedFloatColumn* f = ds->GetBucketizedFloatColumn(name);
    const gbdt::RawFloatColumn* w = ds->GetRawFloatColumn(name);
    if (it == m.end()) {
      if (c || s || f || w) fail(string("'") + name + "' is there");
      continue;
    }
    const Col& k = it->second;
    if (!c || c->name() != name || c->size() != (uint)k.len || (int)c->type() != k.type) fail(string("'") + name + "' is absent or wrong");
    if ((s != nullptr) != (k.type == 0) || (f != nullptr) != (k.type == 1) || (w != nullptr) != (k.type == 2)) fail(string("'") + name + "' is not retrievable under exactly its type");
    if (s && s != c || f && f != c || w && w != c) fail(string("'") + name + "' differs between the getters");
    want[k.type].insert(c);
    for (int i = 0; i < k.len; ++i) {
      bool ok = s ? s->get_row_string(i) == std::to_string(Value(k, i)) : f ? f->get_row_max(i) == Value(k, i) : (*w)[i] == Value(k, i);
      if (!ok) fail(string("'") + name + "' row " + std::to_string(i) + " is wrong");
    }
  }
  size_t total = 0;
  for (auto c : ds->GetStringColumns()) { got[0].insert(c); ++total; }
  for (auto c : ds->GetBucketizedFloatColumns()) { got[1].insert(c); ++total; }
  for (auto c : ds->GetRawFloatColumns()) { got[2].insert(c); ++total; }
  if (total != m.size()) fail("the lists have " + std::to_string(total) + " columns");
  for (int t = 0; t < 3; ++t) if (want[t] != got[t]) fail(string("the list of ") + kTypes[t] + " columns is wrong");
  // The description names the three counts and the number of rows.
  std::multiset<string> nums, expect = {std::to_string(want[0].size()), std::to_string(want[1].size()), std::to_string(want[2].size()), std::to_string(rows)};
  string d = ds->Description(), cur;
  for (char ch : d + " ") { if (isdigit(ch)) cur += ch; else if (!cur.empty()) { nums.insert(cur); cur.clear(); } }
  if (nums != expect) fail("description is wrong: " + d);
  auto count_before = [&](const string& word) {
    size_t p = d.find(word);
    if (p == string::npos) return string("?");
    size_t e = d.find_last_of("0123456789", p), b = e;
    while (b > 0 && isdigit(d[b - 1])) --b;
    return d.substr(b, e - b + 1);
  };
  if (d.find("bucketized float") != string::npos && count_before("bucketized float") != std::to_string(want[1].size())) fail("description is wrong: " + d);
  if (d.find("raw float") != string::npos && count_before("raw float") != std::to_string(want[2].size())) fail("description is wrong: " + d);
  if (d.find("row") != string::npos && d.find("rows") != string::npos && count_before("rows") != std::to_string(rows)) fail("description is wrong: " + d);
}

void Run(mc::Runner& r, const vector<Op>& ops) {
  DataStore ds;
  Model m;
  string what;
  for (size_t i = 0; i < ops.size(); ++i) {
    const Op& o = ops[i];
    string name = kNames[o.name];
    what += (i ? ", " : "") + ShowOp(o);
    if (o.kind) {
      ds.RemoveColumnIfExists(name);
      m.erase(name);
    } else {
      Col c{o.type, o.len, (int)i + 1};
      bool ok = !m.count(name) && (m.empty() || m.begin()->second.len == o.len);
      auto st = ds.Add(Make(name, c));
      if (st.ok() != ok) r.Fail(what + ": Add gives " + st.ToString());
      if (ok) m[name] = c;
    }
    r.Step();
    // The prefixes are cases of their own; a full comparison at the end.
  }
  CheckAll(r, &ds, m, what.empty() ? "empty data store" : what);
  string key;
  for (auto& p : m) key += p.first + "/" + std::to_string(p.second.type) + "/" + std::to_string(p.second.len) + "/" + std::to_string(p.second.version) + ";";
  r.State(key);
}

void Body(mc::Runner& r) {
  Init();
  // Alphabets: depth 3 over everything, deeper over fewer names, types and lengths.
  struct A { int names, types, lens, depth; };
  for (A a : {A{4, 3, 3, 3}, A{2, 2, 2, 5}, A{3, 1, 2, 5}, A{4, 3, 1, 4}}) {
    vector<Op> all;
    for (int n = 0; n < a.names; ++n) {
      for (int t = 0; t < a.types; ++t) for (int l = 0; l < a.lens; ++l) all.push_back({0, n, t, l});
      all.push_back({1, n, 0, 0});
    }
    for (int len = 0; len <= a.depth + (r.thorough ? 1 : 0); ++len)
      Sequences(all.size(), len, [&](const vector<int>& v) {
        if (r.Done()) return;
        if (!r.Next([=] { string s; for (int i : v) s += ShowOp(all[i]) + "; "; return s; })) return;
        vector<Op> ops;
        for (int i : v) ops.push_back(all[i]);
        Run(r, ops);
      });
  }
  // Many columns, long names, many rows.
  for (int n : {100, 257, 1025, 5000})
    for (int order = 0; order < 3; ++order)
      for (int removed : {0, 1, 3, 1000}) {
        if (r.Done()) return;
        if (!r.Next([=] { return std::to_string(n) + " columns, order " + std::to_string(order) + ", removed " + std::to_string(removed); })) continue;
        DataStore ds;
        vector<const Column*> at(n);
        auto name = [=](int i) { return (order == 2 ? string(i % 300, 'x') : "col") + std::to_string(order == 1 ? n - i : i); };
        auto check = [&](const char* when) {
          uint have = 0;
          size_t types[3] = {0, 0, 0};
          for (int i = 0; i < n; ++i) {
            if (ds.GetColumn(name(i)) != at[i]) r.Fail(string(when) + ": column " + name(i).substr(0, 400) + " is absent or another one");
            if (at[i]) { ++have; ++types[i % 3]; r.Check(at[i]->name() == name(i) && at[i]->size() == 2, "a column changed"); }
          }
          r.Check(ds.num_cols() == have && ds.num_rows() == (have ? 2u : 0u), string(when) + ": " + std::to_string(ds.num_cols()) + " columns instead of " + std::to_string(have));
          r.Check(ds.GetStringColumns().size() == types[0] && ds.GetBucketizedFloatColumns().size() == types[1] && ds.GetRawFloatColumns().size() == types[2], string(when) + ": the lists of columns are wrong");
        };
        auto add = [&](int i) {
          auto c = Make(name(i), {i % 3, 2, i});
          const Column* p = c.get();
          if (!ds.Add(std::move(c)).ok()) r.Fail("adding column " + std::to_string(i) + " fails");
          at[i] = p;
          r.Step();
        };
        for (int i = 0; i < n; ++i) add(i);
        check("after adding");
        for (int i = 0; i < n; ++i) {
          r.Check(!ds.Add(Make(name(i), {(i + 1) % 3, 2, 1})).ok(), "column " + std::to_string(i) + " is added twice");
          r.Step();
        }
        check("after adding again");
        for (int i = 0; i < n; ++i) if (removed && i * 7 % 1001 < removed) { ds.RemoveColumnIfExists(name(i)); at[i] = nullptr; r.Step(); }
        check("after removing");
        for (int i = 0; i < n; i += 2) if (!at[i]) add(i);
        check("after adding the removed ones");
        r.State(std::to_string(ds.num_cols()) + name(n - 1).substr(0, 20));
      }
  // Raw floats are kept as they are.
  const float raw[] = {0.0f, -0.0f, 1, -1, 1e-45f, -1e-45f, 1e-40f, 1.1754944e-38f, 1e-30f, 0.1f, 16777217.0f, 1e30f, 2e38f, 3.4028235e38f, -3.4028235e38f, INFINITY, -INFINITY, NAN};
  for (int first = 0; first < 18; ++first)
    for (int second = 0; second < 18; ++second)
      for (int times : {1, 3, 1000}) {
        if (!r.Next([=] { return "raw floats " + std::to_string(raw[first]) + " and " + std::to_string(raw[second]) + ", " + std::to_string(times) + " times"; })) continue;
        vector<float> v;
        for (int i = 0; i < times; ++i) { v.push_back(raw[first]); v.push_back(raw[second]); }
        DataStore ds;
        r.Check(ds.Add(gbdt::Column::CreateRawFloatColumn("a", vector<float>(v))).ok(), "Add fails");
        const auto* got = ds.GetRawFloatColumn("a");
        r.Step();
        if (!got || got->raw_floats().size() != v.size() || got->size() != v.size()) r.Fail("the column has another number of rows");
        for (size_t i = 0; i < v.size(); ++i) {
          float x = got->raw_floats()[i], z = (*got)[i];
          if (std::isnan(v[i]) ? !(std::isnan(x) && std::isnan(z)) : !(x == v[i] && z == v[i])) r.Fail("row " + std::to_string(i) + " is " + std::to_string(x) + " instead of " + std::to_string(v[i]));
        }
        r.State("raw " + std::to_string(first) + " " + std::to_string(second));
      }
  for (int rows : {1, 255, 256, 65535, 65536, 70000})
    for (int diff : {0, 1, -1, 256, -256, 65536, 131072})
      for (int type = 0; type < 3; ++type) {
        if (rows + diff < 0 || r.Done()) continue;
        if (!r.Next([=] { return std::to_string(rows) + " rows, then " + std::to_string(rows + diff) + ", type " + std::to_string(type); })) continue;
        DataStore ds;
        r.Check(ds.Add(Make("a", {2, rows, 1})).ok(), "Add fails");
        auto st = ds.Add(Make("b", {type, rows + diff, 2}));
        r.Step(2);
        r.Check(st.ok() == (diff == 0), diff ? "a column of another length is accepted" : "a column of the same length is rejected");
        r.Check(ds.num_rows() == (uint)rows && ds.num_cols() == (diff ? 1u : 2u), "wrong number of rows or columns");
        r.State(std::to_string(rows) + "," + std::to_string(diff));
      }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
