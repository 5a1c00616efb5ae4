// C21: feature importance and the needed features of every small forest, and of trained ones.
#include "common.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/gbdt_algo/utils.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/subsampling.h"

using namespace ref;
using std::string;
using std::vector;

namespace {

void Sum(const TreeNode& t, std::map<string, double>* m) {
  if (!t.has_left_child()) return;
  (*m)[t.split().feature()] += t.split().gain();
  Sum(t.left_child(), m);
  Sum(t.right_child(), m);
}

void Leftover(const TreeNode& t, std::set<string>* s) {
  if (t.has_left_child()) { Leftover(t.left_child(), s); Leftover(t.right_child(), s); }
  else if (t.has_split()) s->insert(t.split().feature());
}

void CheckForest(mc::Runner& r, const Forest& f) {
  auto what = [&] { string s = Show(f); return (s.size() > 1500 ? s.substr(0, 1500) + "..." : s) + ": "; };
  std::map<string, double> want;
  for (auto& t : f.tree()) Sum(t, &want);
  double most = 0;
  for (auto& p : want) most = std::max(most, p.second);
  auto got = gbdt::ComputeFeatureImportance(f);
  r.Step();
  if (got.size() != want.size()) r.Fail(what() + std::to_string(got.size()) + " importances for " + std::to_string(want.size()) + " features");
  std::set<string> seen;
  double last = 0;
  uint64_t key = 1;
  for (size_t i = 0; i < got.size(); ++i) {
    auto& p = got[i];
    if (!want.count(p.first) || !seen.insert(p.first).second) r.Fail(what() + "importance of " + p.first + ", which no node uses or which is listed already");
    // The share of a negative gain of a tiny largest one need not be representable.
    bool representable = most <= 0 || std::isfinite(want[p.first] / most);
    if (!std::isfinite(p.second) && representable) r.Fail(what() + "importance of " + p.first + " is " + std::to_string(p.second));
    if (most > 0) {
      if (representable && !Near(p.second, want[p.first] / most, 1e-9)) r.Fail(what() + "importance of " + p.first + " is " + std::to_string(p.second) + " instead of " + std::to_string(want[p.first] / most));
      if (i && p.second > last) r.Fail(what() + p.first + " is listed after a smaller importance");
    }
    last = p.second;
    key = mc::Mix(key, mc::Hash(p.first + std::to_string(p.second)));
  }
  auto features = gbdt::CollectAllFeatures(f);
  std::set<string> a(features.begin(), features.end()), b, spare;
  for (auto& p : want) b.insert(p.first);
  // Whether the features of splits that leaves were left with are asked for is open.
  for (auto& t : f.tree()) Leftover(t, &spare);
  for (auto& n : spare) if (!b.count(n)) a.erase(n);
  if (a != b) r.Fail(what() + std::to_string(a.size()) + " needed features instead of " + std::to_string(b.size()));
  r.State(key);
}

// Shapes with k inner nodes, as functions from (feature, gain) per inner node.
void Shapes(int k, std::function<void(const string&)> f, string s = "") {
  // Prefix notation: N = inner node, L = leaf.
  std::function<void(int, int, string)> go = [&](int inner, int open, string t) {
    if (open == 0) { if (inner == 0) f(t); return; }
    if (inner > 0) go(inner - 1, open + 1, t + "N");
    go(inner, open - 1, t + "L");
  };
  go(k, 1, s);
}
TreeNode Build(const string& shape, size_t* at, const vector<string>& names, const vector<double>& gains, int* node, unsigned spare = 0) {
  if (shape[(*at)++] == 'L') {
    TreeNode leaf = Leaf(*node);
    // Some leaves still have the split that they were not worth growing for.
    if (spare >> *at & 1) *leaf.mutable_split() = FloatSplit(*at % 2 ? "spare" : names.empty() ? "x" : names[0], 2, true, 3.5).split();
    return leaf;
  }
  int n = (*node)++;
  TreeNode s = n % 2 ? CatSplit(names[n], {"a"}, gains[n]) : FloatSplit(names[n], 1, n & 1, gains[n]);
  TreeNode l = Build(shape, at, names, gains, node, spare);
  TreeNode rr = Build(shape, at, names, gains, node, spare);
  return Node(s, l, rr);
}

void Body(mc::Runner& r) {
  Init();
  const char* feature[] = {"a", "b", "c d", ""};
  const double gain[] = {1, 0, 0.3, 7.5, 1e-9, 1e12};
  // 1. Every forest of up to 3 trees with up to 4 (5) inner nodes in all.
  vector<vector<string>> shapes(6);
  for (int k = 0; k <= 5; ++k) Shapes(k, [&](const string& s) { shapes[k].push_back(s); });
  for (int total = 0; total <= (r.thorough ? 5 : 4); ++total)
    for (int trees = 0; trees <= 3; ++trees)
      Sequences(total + 1, trees, [&](const vector<int>& split) {
        int sum = 0;
        for (int x : split) sum += x;
        if (sum != total) return;
        int nshapes = 1;
        for (int x : split) nshapes *= shapes[x].size();
        for (int sh = 0; sh < nshapes; ++sh) {
          Sequences(3, total, [&](const vector<int>& fv) {
            if (r.Done()) return;
            if (!r.Next([=] { return "nodes per tree " + ShowV(split) + " shapes " + std::to_string(sh) + " features " + ShowV(fv); })) return;
            int ng = total <= 3 ? 6 : r.thorough && total == 4 ? 5 : 3;
            Sequences(ng, total, [&](const vector<int>& gv) {
              vector<string> names;
              vector<double> gains;
              for (int x : fv) names.push_back(feature[x]);
              for (int x : gv) gains.push_back(gain[x]);
              Forest f;
              int s = sh, first = 0;
              for (int x : split) {
                size_t at = 0;
                int node = 0;
                *f.add_tree() = Build(shapes[x][s % shapes[x].size()], &at, vector<string>(names.begin() + first, names.end()), vector<double>(gains.begin() + first, gains.end()), &node);
                s /= shapes[x].size();
                first += x;
              }
              CheckForest(r, f);
              // Leftover splits of leaves don't count.
              for (unsigned spare : {~0u, 0x2cu, 0x92u}) {
                f.Clear();
                s = sh; first = 0;
                for (int x : split) {
                  size_t at = 0;
                  int node = 0;
                  *f.add_tree() = Build(shapes[x][s % shapes[x].size()], &at, vector<string>(names.begin() + first, names.end()), vector<double>(gains.begin() + first, gains.end()), &node, spare);
                  s /= shapes[x].size();
                  first += x;
                }
                CheckForest(r, f);
                if (gv.size() && gv[0]) break;
              }
            });
          });
        }
      });
  // 2. Unusual gains and names, many features, deep trees.
  const double odd[] = {0, -1, -2, 1e-30, 0.1, 1e300, 3, 1e-35, 3e-35, 2e-308, 1e-310};
  Sequences(11, 3, [&](const vector<int>& v) {
    if (!r.Next([=] { return "unusual gains " + ShowV(v); })) return;
    for (int same = 0; same < 4; ++same) {
      Forest f;
      for (int i = 0; i < 3; ++i) *f.add_tree() = Node(FloatSplit(feature[same == 1 ? 0 : same == 2 ? i / 2 : same == 3 ? 3 - i : i], 1, false, odd[v[i]]), Leaf(1), Leaf(2));
      CheckForest(r, f);
    }
  });
  for (int n : {50, 1000})
    for (int variant = 0; variant < 4; ++variant) {
      if (!r.Next([=] { return "features " + std::to_string(n) + " variant " + std::to_string(variant); })) continue;
      Forest f;
      for (int i = 0; i < n; ++i)
        *f.add_tree() = Node(FloatSplit("feature" + std::to_string(i * (variant + 1) % n), 1, false, variant == 3 ? 1 : (i * 37 % 101) / 8.0), Leaf(1), Node(CatSplit("other" + std::to_string(i % 7), {"x"}, 0.5), Leaf(1), Leaf(1)));
      CheckForest(r, f);
      TreeNode deep = Leaf(1);
      for (int i = 0; i < n; ++i) deep = Node(FloatSplit("f" + std::to_string(i % 5), i, false, 1 + i % 3), variant % 2 ? deep : Leaf(0), variant % 2 ? Leaf(0) : deep);
      Forest g;
      *g.add_tree() = deep;
      CheckForest(r, g);
    }
  // 3. Trained forests.
  for (int k = 0; k < 24; ++k) {
    if (!r.Next([=] { return "trained forest " + std::to_string(k); })) continue;
    Data d;
    d.n = 12;
    vector<float> y;
    for (int i = 0; i < d.n; ++i) {
      d.floats["x"].push_back(i * 5 % 12);
      d.floats["u"].push_back(i % 3);
      d.strings["c"].push_back(i % 4 ? "p" : "q");
      d.strings["constant"].push_back("same");
      y.push_back(k % 2 ? (i * 7 % 5 > 2 ? 1 : -1) : i * 7 % 5);
    }
    auto ds = d.Store();
    Config c;
    c.set_num_trees(1 + k % 5);
    c.set_num_leaves(1 + k % 4);
    c.set_shrinkage(0.5);
    c.set_example_sampling_rate(1);
    c.set_feature_sampling_rate(1);
    c.set_loss_func(k % 2 ? "logloss" : "mse");
    auto lf = gbdt::LossFuncFactory::CreateLossFunc(c);
    Forest f;
    gbdt::Subsampling::Reseed(k);
    auto st = gbdt::TrainGBDT(ds.get(), {"x", "u", "c", "constant"}, [](int) { return 1.0f; }, [&](int i) { return y[i]; }, lf.get(), c, nullptr, &f);
    r.Check(st.ok(), "training fails: " + st.ToString());
    CheckForest(r, f);
    r.Check(!gbdt::CollectAllFeatures(f).count("constant"), "a constant column is used");
  }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
