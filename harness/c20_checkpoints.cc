// C20: every list of checkpoints on small forests; the files in the output directory afterwards.
#include <dirent.h>
#include <sys/stat.h>

#include <list>

#include "common.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/utils.h"

using namespace ref;
using std::string;
using std::vector;

namespace {

std::map<string, string> Files(const string& dir) {
  std::map<string, string> m;
  if (DIR* d = opendir(dir.c_str())) {
    while (auto* e = readdir(d)) {
      string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::ifstream in(dir + "/" + n);
      std::stringstream s;
      s << in.rdbuf();
      m[n] = s.str();
    }
    closedir(d);
  }
  return m;
}
void Clean(const string& dir) {
  for (auto& f : Files(dir)) unlink((dir + "/" + f.first).c_str());
  rmdir(dir.c_str());
}

Forest MakeForest(int T, int kind) {
  Forest f;
  for (int i = 0; i < T; ++i) {
    int k = (i * 5 + kind) % 4;
    if (k == 0) *f.add_tree() = Leaf(0.5f * (i + 1));
    else if (k == 1) *f.add_tree() = Node(FloatSplit("x", 1.5f, i & 1), Leaf(1 << i % 6), Leaf(-0.25f * (i + 1)));
    else if (k == 2) *f.add_tree() = Node(CatSplit("c", {"p", "__missing__"}), Leaf(-2 - i), Node(FloatSplit("x", 2.5f, true), Leaf(0.125f), Leaf(3 * i)));
    else *f.add_tree() = Node(FloatSplit("z", 0, false), Leaf(0.0625f * i), Leaf(8));
  }
  return f;
}

Data MakeData(int n) {
  Data d;
  d.n = n;
  const char* c[] = {"p", "q", "__missing__"};
  for (int i = 0; i < n; ++i) {
    d.floats["x"].push_back(i % 5 == 4 ? NAN : i % 5);
    d.floats["z"].push_back(i % 2 ? -1 : 1);
    d.strings["c"].push_back(c[i % 3]);
  }
  if (!n) { d.floats["x"]; d.floats["z"]; d.strings["c"]; }
  return d;
}

// pre: files that are in the directory before.
void CheckList(mc::Runner& r, gbdt::DataStore* ds, const Data& d, const Forest& f, const vector<int>& pts, const string& dir, const std::map<string, string>& pre) {
  auto what = [&] { return std::to_string(f.tree_size()) + " trees, " + std::to_string(d.n) + " rows, checkpoints " + ShowV(pts) + ": "; };
  Clean(dir);
  if (!pre.empty()) {
    mkdir(dir.c_str(), 0755);
    for (auto& p : pre) std::ofstream(dir + "/" + p.first) << p.second;
  }
  auto st = gbdt::EvaluateForest(ds, f, std::list<int>(pts.begin(), pts.end()), dir);
  r.Step();
  if (!st.ok()) r.Fail(what() + "fails: " + st.ToString());
  std::set<int> want;
  for (int p : pts) if (p >= 1 && p <= f.tree_size()) want.insert(p);
  auto files = Files(dir);
  for (auto& p : pre) if (!want.count(p.first.size() > 7 ? atoi(p.first.c_str() + 7) : -1)) {
    if (!files.count(p.first) || files[p.first] != p.second) r.Fail(what() + "changes the file " + p.first);
    files.erase(p.first);
  }
  for (int k : want) {
    string name = "forest." + std::to_string(k) + ".score";
    if (!files.count(name)) r.Fail(what() + "does not write " + name);
    std::istringstream in(files[name]);
    string l;
    vector<string> lines;
    while (std::getline(in, l)) lines.push_back(l);
    if ((int)lines.size() != d.n) r.Fail(what() + name + " has " + std::to_string(lines.size()) + " lines");
    for (int i = 0; i < d.n; ++i) {
      char* end;
      double v = strtod(lines[i].c_str(), &end);
      double w = Score(f, d, i, k);
      // Small scores count, too: the error is relative, but for what is lost when scores cancel out.
      double sum = 0;
      for (int t = 0; t < k; ++t) { Forest one; *one.add_tree() = f.tree(t); sum += fabs(Score(one, d, i, 1)); }
      if (lines[i].empty() || *end || !(v == w || fabs(v - w) <= 1e-5 * fabs(w) + 1e-14 * sum)) r.Fail(what() + name + " has " + lines[i] + " in line " + std::to_string(i + 1) + " instead of " + std::to_string(w));
    }
    files.erase(name);
  }
  if (!files.empty()) r.Fail(what() + "writes " + files.begin()->first);
  string key;
  for (int k : want) key += std::to_string(k) + " ";
  r.State(key + "of " + std::to_string(f.tree_size()) + " " + std::to_string(d.n) + (pre.empty() ? "" : " over files"));
}

void Body(mc::Runner& r) {
  Init();
  string dir = r.TempDir() + "/out";
  // 1. Every list of up to 4 (5) checkpoints between -1 and one more than the number of trees.
  for (int T = 0; T <= 4; ++T)
    for (int kind = 0; kind < 4; ++kind)
      for (int n : {1, 5}) {
        Data d = MakeData(n);
        auto ds = d.Store();
        Forest f = MakeForest(T, kind);
        for (int len = 0; len <= (r.thorough ? 5 : T == 4 ? 3 : 4); ++len)
          Sequences(T + 3, len, [&](const vector<int>& v) {
            if (r.Done()) return;
            vector<int> pts;
            for (int x : v) pts.push_back(x - 1);
            if (!r.thorough && (len == 4) && ((v[0] + 2 * v[1] + v[3] * 3 + kind + n) % 4)) return;
            if (!r.Next([=] { return "trees " + std::to_string(T) + " kind " + std::to_string(kind) + " rows " + std::to_string(n) + " checkpoints " + ShowV(pts); })) return;
            FLAGS_num_threads = 1 + (v.empty() ? 0 : v[0] % 3);
            CheckList(r, ds.get(), d, f, pts, dir, {});
          });
      }
  // 2. Every set of checkpoints of a larger forest, in rising and falling order.
  {
    const int T = r.thorough ? 10 : 8;
    Data d = MakeData(7);
    auto ds = d.Store();
    Forest f = MakeForest(T, 1);
    for (int bits = 0; bits < 1 << T; ++bits) {
      if (r.Done()) return;
      if (!r.Next([=] { return "set of checkpoints " + std::to_string(bits); })) continue;
      vector<int> pts;
      for (int i = 0; i < T; ++i) if (bits >> i & 1) pts.push_back(i + 1);
      CheckList(r, ds.get(), d, f, pts, dir, {});
      std::reverse(pts.begin(), pts.end());
      CheckList(r, ds.get(), d, f, pts, dir, {});
      // Files that are there are replaced; other files are left alone.
      if (bits % 5 == 0) CheckList(r, ds.get(), d, f, pts, dir, {{"forest.1.score", string(5000, '7')}, {"forest.3.score", ""}, {"other", "x"}, {"forest.99.score", "1\n2"}});
    }
  }
  // 3. Numbers of rows around the sizes of buffers and slices; extreme numbers.
  for (int n : {0, 2, 79, 80, 81, 1000, 5000})
    for (int threads : {1, 4, 16}) {
      if (!r.Next([=] { return "rows " + std::to_string(n) + " threads " + std::to_string(threads); })) continue;
      FLAGS_num_threads = threads;
      Data d = MakeData(n);
      auto ds = d.Store();
      for (int T : {1, 6, 30}) CheckList(r, ds.get(), d, MakeForest(T, T), {T, 1, -5, T / 2, T, 2 * T, 2147483647, -2147483647 - 1}, dir, {});
    }
  for (float s : {0.0f, -0.0f, 1e-30f, 1e-8f, -2.5e-7f, 3e-12f, 3e38f, 123456.7f, -0.000123f, 1e10f}) {
    if (!r.Next([=] { return "score " + std::to_string(s); })) continue;
    Data d = MakeData(3);
    auto ds = d.Store();
    Forest f;
    *f.add_tree() = Leaf(s);
    *f.add_tree() = Node(FloatSplit("x", 1, false), Leaf(-s), Leaf(s));
    CheckList(r, ds.get(), d, f, {1, 2}, dir, {});
  }
  // Long lists of checkpoints, in several orders, with repetitions.
  for (int T : {130, 257, 300, 600})
    for (int kind = 0; kind < 5; ++kind) {
      if (!r.Next([=] { return std::to_string(T) + " checkpoints, kind " + std::to_string(kind); })) continue;
      Data d = MakeData(4);
      auto ds = d.Store();
      vector<int> pts;
      for (int i = 1; i <= T; ++i) pts.push_back(i);
      if (kind == 1) std::reverse(pts.begin(), pts.end());
      if (kind == 2) for (int i = 0; i < T; ++i) pts[i] = 1 + i * 7 % T;
      if (kind == 3) { pts.insert(pts.end(), pts.begin(), pts.end()); }
      if (kind == 4) { pts.assign(T, 3); pts.push_back(T); pts.insert(pts.begin() + T / 2, T - 1); }
      FLAGS_num_threads = 1 + T % 4;
      CheckList(r, ds.get(), d, MakeForest(T, kind), pts, dir, {});
    }
  // 4. The checkpoints of an interval.
  for (int T = 0; T <= (r.thorough ? 200 : 40); ++T)
    for (int I = -2; I <= T + 2; ++I) {
      if (!r.Next([=] { return "interval " + std::to_string(I) + " of " + std::to_string(T); })) continue;
      Config c;
      c.set_eval_interval(I);
      auto l = gbdt::GetTestPoints(c, T);
      r.Step();
      std::set<int> got, want;
      for (int x : l) { if (x >= 1) got.insert(x); if (x > T) r.Fail("interval " + std::to_string(I) + " of " + std::to_string(T) + " trees has the checkpoint " + std::to_string(x)); }
      if (T > 0) want.insert(T);
      if (I > 0) for (int x = T; x >= 1; x -= I) want.insert(x);
      r.Check(got == want, "interval " + std::to_string(I) + " of " + std::to_string(T) + " trees gives other checkpoints");
      r.State("interval" + std::to_string(I) + "/" + std::to_string(T));
      if (T <= 6) {  // ... and they are what is written.
        Data d = MakeData(2);
        auto ds = d.Store();
        Forest f = MakeForest(T, I + 2);
        CheckList(r, ds.get(), d, f, vector<int>(l.begin(), l.end()), dir, {});
      }
    }
  for (int I : {2147483647, 1000000, -2147483647 - 1})
    if (r.Next([=] { return "interval " + std::to_string(I); })) {
      Config c;
      c.set_eval_interval(I);
      auto l = gbdt::GetTestPoints(c, 2000000);
      r.Check(I == 1000000 ? l.size() == 2 : l.size() == 1 && l.front() == 2000000, "wrong checkpoints");
    }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
