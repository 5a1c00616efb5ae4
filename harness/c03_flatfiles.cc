// C03: every interleaving of threads that ask one FlatfilesDataStore for columns.
#include <glog/logging.h>
#include <gflags/gflags.h>
#include <math.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <map>
#include <memory>
#include <thread>

#include "mcrt.h"
#include "src/data_store/column.h"
#include "src/data_store/flatfiles_data_store.h"
#include "src/gbdt_algo/utils.h"

DECLARE_int32(num_threads);

using namespace gbdt;
using std::string;
using std::vector;

namespace {

string g_dir;
const int kMany = 300;

void Write(const string& name, const string& text) {
  // Atomically: every worker process runs Setup.
  string tmp = g_dir + "/tmp." + std::to_string(getpid());
  { std::ofstream(tmp) << text; }
  rename(tmp.c_str(), (g_dir + "/" + name).c_str());
}

void Setup() {
  g_dir = string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/ff";
  mkdir(g_dir.c_str(), 0700);
  mkdir((g_dir + "/second").c_str(), 0700);
  Write("s", "# dtype=strings\nx\ny\nx\n");
  Write("s2", "# dtype=strings\nu\nv\nw\n");
  Write("r", "# dtype=raw_floats\n1\n2.5\nbad\n");
  Write("b", "# dtype=bucketized_floats\n3\n1\n3\n");
  Write("short", "# dtype=strings\nx\n");
  Write("long", "# dtype=raw_floats\n1\n2\n3\n4\n5\n");
  Write("unknown", "# dtype=nothing\n1\n2\n3\n");
  Write("second/only2", "# dtype=raw_floats\n7\n8\n9\n");
  FLAGS_minloglevel = 4;
}

void SetupMany() {
  Setup();
  for (int i = 0; i < kMany; ++i) Write("m" + std::to_string(i), "# dtype=strings\nv" + std::to_string(i) + "\ny\nx\n");
}

string Contents(const Column* c) {
  if (!c) return "absent";
  string o = c->name() + ":";
  for (uint i = 0; i < c->size(); ++i) {
    o += i ? "," : "";
    if (c->type() == Column::kStringColumn) {
      o += static_cast<const StringColumn*>(c)->get_row_string(i);
    } else if (c->type() == Column::kRawFloatColumn) {
      float v = (*static_cast<const RawFloatColumn*>(c))[i];
      o += std::isnan(v) ? "?" : std::to_string(v).substr(0, 3);
    } else {
      const auto* b = static_cast<const BucketizedFloatColumn*>(c);
      o += std::to_string(b->get_row_min(i)).substr(0, 3) + ".." + std::to_string(b->get_row_max(i)).substr(0, 3);
    }
  }
  return o;
}

const std::map<string, string>& Expected() {
  static const auto* m = [] { auto* m = new std::map<string, string>{
      {"s", "s:x,y,x"}, {"s2", "s2:u,v,w"}, {"r", "r:1.0,2.5,?"}, {"b", "b:3.0..3.0,1.0..1.0,3.0..3.0"},
      {"short", "short:x"}, {"long", "long:1.0,2.0,3.0,4.0,5.0"}, {"only2", "only2:7.0,8.0,9.0"},
      {"unknown", "absent"}, {"none", "absent"}};
    for (int i = 0; i < kMany; ++i) (*m)["m" + std::to_string(i)] = "m" + std::to_string(i) + ":v" + std::to_string(i) + ",y,x";
    return m;
  }();
  return *m;
}

// Each thread asks for its columns in order; "+" before a name: loaded before the threads start.
// may_fail: columns that may be absent because another length was loaded first (exactly one length wins).
std::string Run(const vector<string>& pre, const vector<vector<string>>& threads, bool conflict) {
  FlatfilesDataStore ds(vector<string>{g_dir, g_dir + "/second"});
  std::map<string, const Column*> seen;
  uint rows = 0;
  for (const auto& n : pre) { seen[n] = ds.GetColumn(n); if (seen[n]) rows = seen[n]->size(); }
  vector<vector<const Column*>> got(threads.size());
  vector<vector<string>> text(threads.size());
  vector<std::thread> ts;
  for (size_t t = 0; t < threads.size(); ++t) {
    got[t].resize(threads[t].size());
    text[t].resize(threads[t].size());
    ts.emplace_back([&, t] {
      for (size_t i = 0; i < threads[t].size(); ++i) {
        const string& n = threads[t][i];
        // Through the untyped and the typed accessors.
        const Column* c = ds.GetColumn(n);
        if (n == "s" && c) mcrt::Assert(ds.GetStringColumn(n) == c, "typed accessor gave another column");
        if (n == "r" && c) mcrt::Assert(ds.GetStringColumn(n) == nullptr, "column of a wrong type");
        got[t][i] = c;
        text[t][i] = Contents(c);
      }
      // Still alive and unchanged later on.
      for (size_t i = 0; i < threads[t].size(); ++i)
        mcrt::Assert(Contents(got[t][i]) == text[t][i], "contents of " + threads[t][i] + " changed");
    });
  }
  for (auto& t : ts) t.join();
  std::set<uint> sizes;
  if (rows) sizes.insert(rows);
  string out;
  for (size_t t = 0; t < threads.size(); ++t)
    for (size_t i = 0; i < threads[t].size(); ++i) {
      const string& n = threads[t][i];
      const Column* c = got[t][i];
      out += text[t][i] + ";";
      if (c) {
        sizes.insert(c->size());
        mcrt::Assert(text[t][i] == Expected().at(n), "column " + n + " read as " + text[t][i]);
        if (seen.count(n) && seen[n]) mcrt::Assert(seen[n] == c, "two columns for the name " + n);
        seen[n] = c;
      } else if (!conflict) {
        bool wrong_size = rows == 3 && (n == "short" || n == "long");
        mcrt::Assert(wrong_size || Expected().at(n) == "absent", "existing column " + n + " reported absent");
      }
    }
  mcrt::Assert(sizes.size() <= 1, "columns of different lengths accepted");
  if (conflict) mcrt::Assert(sizes.size() == 1, "no column was accepted");
  uint cols = 0;
  for (auto& p : seen) {
    if (!p.second) continue;
    ++cols;
    mcrt::Assert(ds.GetColumn(p.first) == p.second, "a column was replaced");
    mcrt::Assert(Contents(p.second) == Expected().at(p.first), "contents changed");
  }
  // A column that some caller was told is absent has to be absent for all, and the loaded ones present.
  for (size_t t = 0; t < threads.size(); ++t)
    for (size_t i = 0; i < threads[t].size(); ++i) {
      const Column* again = ds.GetColumn(threads[t][i]);
      mcrt::Assert(again == got[t][i], "column " + threads[t][i] + " differs when asked again");
    }
  return out;
}

mcrt::Scenario S(const string& name, vector<string> pre, vector<vector<string>> threads, int quick, int thorough,
                 bool conflict = false) {
  mcrt::Scenario s;
  s.name = name;
  s.setup = Setup;
  s.run = [=] { return Run(pre, threads, conflict); };
  s.quick_bound = quick;
  s.thorough_bound = thorough;
  s.same_outcome = !conflict;
  s.horizon = 5000;
  return s;
}

// The features of a training, loaded by a pool of threads.
std::string Load(const vector<string>& names, int threads, bool good) {
  FLAGS_num_threads = threads;
  FlatfilesDataStore ds(vector<string>{g_dir, g_dir + "/second"});
  vector<const Column*> cols;
  Status st = LoadFeatures(std::unordered_set<string>(names.begin(), names.end()), &ds, &cols);
  mcrt::Assert(st.ok() == good, "loading the features gives " + st.ToString());
  if (!good) return "error";
  mcrt::Assert(cols.size() == names.size() && ds.num_cols() == names.size(), std::to_string(cols.size()) + " features");
  std::set<string> text;
  for (auto* c : cols) {
    text.insert(Contents(c));
    mcrt::Assert(c == ds.GetColumn(c->name()), "the feature " + c->name() + " is not the column of the data store");
  }
  for (auto& n : names) mcrt::Assert(text.count(Expected().at(n)), "the feature " + n + " is absent or wrong");
  return std::to_string(text.size());
}

mcrt::Scenario L(const string& name, vector<string> names, int threads, bool good, int quick, int thorough) {
  mcrt::Scenario s;
  s.name = name;
  s.setup = Setup;
  s.run = [=] { return Load(names, threads, good); };
  s.quick_bound = quick;
  s.thorough_bound = thorough;
  return s;
}

}  // namespace

int main(int argc, char** argv) {
  typedef vector<string> V;
  vector<mcrt::Scenario> v;
  v.push_back(S("same_string", V{}, {V{"s"}, V{"s"}}, -1, -1));
  v.push_back(S("same_raw", V{}, {V{"r"}, V{"r"}}, -1, -1));
  v.push_back(S("same_bucketized", V{}, {V{"b"}, V{"b"}}, -1, -1));
  v.push_back(S("different", V{}, {V{"s"}, V{"r"}}, -1, -1));
  v.push_back(S("preloaded", V{"s"}, {V{"s"}, V{"b", "s"}}, -1, -1));
  v.push_back(S("missing", V{}, {V{"none", "s"}, V{"s", "none"}}, 3, -1));
  v.push_back(S("unknown_type", V{}, {V{"unknown", "r"}, V{"r", "unknown"}}, 3, -1));
  v.push_back(S("wrong_length", V{"s"}, {V{"short", "r"}, V{"long", "b"}}, 3, -1));
  v.push_back(S("conflict", V{}, {V{"s"}, V{"long"}}, -1, -1, true));
  v.push_back(S("conflict_crossed", V{}, {V{"s", "short"}, V{"short", "s"}}, 3, -1, true));
  v.push_back(S("crossed", V{}, {V{"s", "r"}, V{"r", "s"}}, 3, -1));
  v.push_back(S("second_dir", V{}, {V{"only2", "s"}, V{"s", "only2"}}, 3, -1));
  v.push_back(S("three_same", V{}, {V{"s"}, V{"s"}, V{"s"}}, 3, 6));
  v.push_back(S("three_different", V{}, {V{"s"}, V{"r"}, V{"b"}}, 3, 6));
  v.push_back(S("three_two_columns", V{}, {V{"s", "b"}, V{"b", "s"}, V{"r", "s"}}, 2, 4));
  v.push_back(S("growing", V{"s"}, {V{"s2", "r", "b", "only2"}, V{"s", "s2", "s"}}, 3, 5));
  // The schedule that switches at every point: more threads, and many columns.
  auto rotating = [&](mcrt::Scenario s) { s.rotate = true; s.horizon = 40000; v.push_back(s); };
  rotating(S("rotating_same", V{}, {V{"s"}, V{"s"}}, -1, -1));
  rotating(S("rotating_crossed", V{}, {V{"s", "r", "b"}, V{"b", "r", "s"}}, 3, 6));
  rotating(S("rotating_five", V{}, {V{"s", "b"}, V{"b", "s"}, V{"r", "s"}, V{"s2", "b"}, V{"none", "s2"}}, 1, 3));
  rotating(S("rotating_nine_same", V{}, vector<V>(9, V{"s"}), 1, 2));
  rotating(S("rotating_conflict", V{}, {V{"s", "short", "long"}, V{"short", "long", "s"}, V{"long", "s", "short"}}, 2, 4, true));
  for (int threads : {1, 2, 8}) {
    vector<V> names(threads);
    for (int t = 0; t < threads; ++t)
      for (int i = 0; i < kMany; ++i) names[t].push_back("m" + std::to_string((t % 2 ? kMany - 1 - i : i + t * 37) % kMany));
    rotating(S("many_columns_" + std::to_string(threads), V{}, names, 0, 0));
    v.back().setup = SetupMany;
  }
  // As training loads them.
  v.push_back(L("load_2", {"s", "r"}, 2, true, 3, 5));
  v.push_back(L("load_3", {"s", "r", "b"}, 3, true, 2, 3));
  v.push_back(L("load_missing", {"s", "none", "b"}, 2, false, 2, 4));
  v.push_back(L("load_length", {"s", "short"}, 2, false, 2, 4));
  v.push_back(L("load_no_columns", {}, 2, true, 3, 5));
  V all;
  for (int i = 0; i < kMany; ++i) all.push_back("m" + std::to_string(i));
  rotating(L("load_many", all, 6, true, 0, 0));
  v.back().setup = SetupMany;
  rotating(L("rotating_load_4", {"s", "r", "b", "s2"}, 4, true, 1, 2));
  return mcrt::Main(argc, argv, v);
}
