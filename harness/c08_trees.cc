// C08: trees fitted to every small assignment of feature values and gradients.
#include "common.h"
#include "treecheck.h"
#include "src/gbdt_algo/tree_algo.h"
#include "src/loss_func/gradient_data.h"
#include "src/utils/subsampling.h"

using namespace ref;
using gbdt::GradientData;
using std::string;
using std::vector;

namespace {

struct Setup { int leaves; double lambda, min_hessian, min_gain; float example_rate, feature_rate; int threads; };

struct Case {
  Data d;
  vector<GradientData> gd;
  vector<float> w;
};

void CheckFit(mc::Runner& r, const Case& k, const Setup& s, int seed, double tolerance = 1e-6) {
  auto ds = k.d.Store();
  vector<string> names;
  vector<const Column*> cols;
  for (auto& p : k.d.floats) names.push_back(p.first);
  for (auto& p : k.d.strings) names.push_back(p.first);
  std::rotate(names.begin(), names.begin() + seed % names.size(), names.end());
  for (auto& n : names) cols.push_back(ds->GetColumn(n));
  Config c;
  c.set_num_leaves(s.leaves);
  c.set_l2_lambda(s.lambda);
  c.set_min_hessian(s.min_hessian);
  c.set_min_gain(s.min_gain);
  c.set_example_sampling_rate(s.example_rate);
  c.set_feature_sampling_rate(s.feature_rate);
  FLAGS_num_threads = s.threads;
  // The rows used are the ones subsampling selects.
  gbdt::Subsampling::Reseed(seed);
  vector<int> rows;
  for (uint i : gbdt::Subsampling::UniformSubsample(k.d.n, s.example_rate)) rows.push_back(i);
  gbdt::Subsampling::Reseed(seed);
  TreeNode t = gbdt::FitTreeToGradients([&](int i) { return k.w[i]; }, k.gd, cols, c);
  vector<GH> gh(k.d.n);
  for (int i = 0; i < k.d.n; ++i) { gh[i].g = k.w[i] * k.gd[i].g; gh[i].h = k.w[i] * k.gd[i].h; }
  TreeChecker checker(k.d, names, gh, c, 1, s.feature_rate == 1);
  checker.set_tolerance(tolerance);
  string err = checker.Check(t, rows);
  r.Step();
  r.State(Show(t));
  if (!err.empty()) {
    std::ostringstream o;
    o << err << "\n  leaves=" << s.leaves << " lambda=" << s.lambda << " min_hessian=" << s.min_hessian << " min_gain=" << s.min_gain
      << " rates " << s.example_rate << "," << s.feature_rate << " threads " << s.threads << "\n  " << k.d.Show() << " g,h,w: ";
    for (int i = 0; i < k.d.n; ++i) o << "(" << k.gd[i].g << "," << k.gd[i].h << "," << k.w[i] << ")";
    o << "\n  tree " << Show(t);
    r.Fail(o.str());
  }
}

void Body(mc::Runner& r) {
  Init();
  const float fv[] = {1, 2, NAN};
  const char* sv[] = {"a", "b"};
  const double gh[][2] = {{-1, 1}, {2, 1}, {0.5, 0.25}};
  const Setup setups[] = {{2, 0, 0, 0, 1, 1, 1}, {3, 0, 0, 0, 1, 1, 1}, {4, 1, 0, 0, 1, 1, 1}, {8, 0, 0.5, 0.25, 1, 1, 1}, {1, 0, 0, 0, 1, 1, 1}};
  // 1. All multisets of rows over 3 float values, 2 categories and 3 gradients.
  for (int n = 1; n <= (r.thorough ? 6 : 5); ++n)
    Multisets(18, n, [&](const vector<int>& m) {
      if (r.Done()) return;
      if (!r.Next([=] { return "rows " + ShowV(m); })) return;
      Case k;
      k.d.n = n;
      for (int x : m) {
        k.d.floats["f"].push_back(fv[x % 3]);
        k.d.strings["s"].push_back(sv[x / 3 % 2]);
        k.gd.emplace_back(gh[x / 6][0], gh[x / 6][1]);
      }
      k.w.assign(n, 1);
      int sum = 0;
      for (int x : m) sum += x;
      for (int i = 0; i < (r.thorough ? 5 : n == 5 ? 1 : 3); ++i) CheckFit(r, k, setups[r.thorough ? i : (sum + i * 2) % 5], sum);
    });
  // 2. Larger data with distinct gains: every tree size, all setups, weights, three features.
  int reps = r.thorough ? 200 : 36;
  for (int rep = 0; rep < reps; ++rep)
    for (int leaves = 1; leaves <= 10; ++leaves) {
      if (!r.Next([=] { return "data set " + std::to_string(rep) + ", " + std::to_string(leaves) + " leaves"; })) continue;
      Case k;
      k.d.n = 9 + rep % 8;
      unsigned long x = 88172645463325252ull + rep * 977;
      auto rnd = [&](int m) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (int)(x % m); };
      const char* cats[] = {"a", "b", "c", kMissing};
      const float vals[] = {0.5f, 1.5f, -2, NAN, 4, 1e9f};
      for (int i = 0; i < k.d.n; ++i) {
        k.d.floats["f"].push_back(vals[rnd(6)]);
        k.d.floats["g"].push_back(rnd(9));
        k.d.strings["s"].push_back(cats[rnd(4)]);
        k.gd.emplace_back((rnd(41) - 20) / 4.0, (1 + rnd(8)) / 4.0);
        k.w.push_back(rep % 3 == 0 ? 1 : rnd(5) / 2.0f);
      }
      Setup s{leaves, rep % 2 ? 0.5 : 0, rep % 5 == 1 ? 1.5 : 0, rep % 4 == 2 ? 1.0 : 0, 1, 1, 1 + rep % 3};
      CheckFit(r, k, s, rep);
      s.example_rate = 0.6f;
      CheckFit(r, k, s, rep + 1);
      s.feature_rate = 0.5f;
      CheckFit(r, k, s, rep + 2);
      s.example_rate = 0.05f;
      CheckFit(r, k, s, rep + 3);
    }
  // Columns with more categories than 8 and 16 bits can count: the split names all of one side.
  for (int n : {300, 3000, 66000})
    for (int pattern = 0; pattern < 3; ++pattern) {
      if (!r.Next([=] { return std::to_string(n) + " categories pattern " + std::to_string(pattern); })) continue;
      auto up = [=](int i) { return pattern == 0 ? i % 2 : pattern == 1 ? i >= n - 2 : i * 7 % 10 < 6; };
      gbdt::DataStore ds;
      vector<string> v;
      vector<GradientData> gd;
      double g[2] = {0, 0}, h[2] = {0, 0};
      for (int i = 0; i < n; ++i) {
        v.push_back("c" + std::to_string(i));
        gd.emplace_back(up(i) ? 3 : -1, 1);
        g[up(i)] += gd.back().g;
        h[up(i)] += 1;
      }
      r.Check(ds.Add(Column::CreateStringColumn("s", v)).ok(), "Add failed");
      Config c;
      c.set_num_leaves(2);
      c.set_example_sampling_rate(1);
      c.set_feature_sampling_rate(1);
      FLAGS_num_threads = 2;
      TreeNode t = gbdt::FitTreeToGradients([](int) { return 1.0f; }, gd, {ds.GetColumn("s")}, c);
      r.Step();
      r.Check(t.has_left_child() && t.split().feature() == "s", "no split");
      std::set<string> left(t.split().cat_split().category().begin(), t.split().cat_split().category().end());
      r.State(std::to_string(n) + "," + std::to_string(left.size()));
      bool left_up = left.count(v[n - 1]) ? up(n - 1) : !up(n - 1);
      for (int i = 0; i < n; ++i)
        if ((bool)left.count(v[i]) != ((bool)up(i) == left_up)) r.Fail("category " + v[i] + " is on the wrong side");
      r.Check(left.size() == h[left_up], "the split names " + std::to_string(left.size()) + " categories instead of " + std::to_string(h[left_up]));
      r.Check(Near(t.left_child().score(), left_up ? 3 : -1, 1e-6) && Near(t.right_child().score(), left_up ? -1 : 3, 1e-6), "the leaves have other scores: " + std::to_string(t.left_child().score()) + ", " + std::to_string(t.right_child().score()));
      double want = g[0] * g[0] / h[0] + g[1] * g[1] / h[1] - (g[0] + g[1]) * (g[0] + g[1]) / n;
      r.Check(Near(t.split().gain(), want, 1e-9), "gain " + std::to_string(t.split().gain()));
    }
  // Trees with many leaves.
  for (int leaves : {64, 128, 129, 255, 256, 257, 300, 420})
    for (int kind = 0; kind < 3; ++kind) {
      if (!r.Next([=] { return std::to_string(leaves) + " leaves of many, kind " + std::to_string(kind); })) continue;
      Case k;
      k.d.n = kind == 2 ? leaves / 2 : 400;
      unsigned long x = 88172645463325252ull + leaves * 977 + kind;
      auto rnd = [&](int m) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (int)(x % m); };
      for (int i = 0; i < k.d.n; ++i) {
        k.d.floats["f"].push_back(i);
        k.d.floats["g"].push_back(i * 7 % 20);
        if (kind) k.d.strings["s"].push_back("c" + std::to_string(rnd(30)));
        k.gd.emplace_back(kind == 1 ? i * i * 0.001 + rnd(1000) / 977.0 : rnd(100000) / 977.0, 1);
      }
      k.w.assign(k.d.n, 1);
      CheckFit(r, k, Setup{leaves, kind ? 0.5 : 0, 0, 0, 1, 1, 1 + leaves % 3}, leaves);
    }
  // Many rows.
  for (int n : {1023, 1025, 4097, 10001, 16385, 40000, 65535, 65537, 100001})
    for (int threads : {1, 3})
      for (int sampled = 0; sampled < 2; ++sampled) {
        if (!r.Next([=] { return std::to_string(n) + " rows, " + std::to_string(threads) + " threads" + (sampled ? ", sampled" : ""); })) continue;
        Case k;
        k.d.n = n;
        const char* cats[] = {"a", "b", "c", kMissing, "e"};
        for (int i = 0; i < n; ++i) {
          k.d.floats["f"].push_back(i % 7 == 3 ? NAN : i % 7);
          k.d.floats["g"].push_back(i * 3 / n);
          k.d.strings["s"].push_back(cats[i % 11 % 5]);
          // The thirds are unlike each other, in turn the more and the less worth splitting, and so are the last rows.
          const double scale[] = {1, 0.25, 0.5};
          int third = i * 3 / n;
          k.gd.emplace_back((i % 7 * 2 - (i % 11 % 5) * 3) * scale[(third + n / 2 % 3 + threads / 2 + sampled) % 3] + (i > n - n / 8 ? 40 : third * 25 * (n % 4 < 2 ? 1 : -1)), 1 + i % 2);
        }
        k.w.assign(n, 1);
        CheckFit(r, k, Setup{3 + (n / 2 + threads) % 4, threads == 3 ? 1000.0f : 0, 0, 0, sampled ? 0.7f : 1, 1, threads}, n);
        // Nothing but the root.
        if (!sampled) CheckFit(r, k, Setup{1, 300.0f, 0, 0, 1, 1, threads}, n);
      }
  // 3. Gains that differ by less than single precision shows.
  for (int signs = 0; signs < 16; ++signs)
    Sequences(r.thorough ? 5 : 4, 4, [&](const vector<int>& v) {
      if (r.Done()) return;
      if (!r.Next([=] { return "near ties " + std::to_string(signs) + " " + ShowV(v); })) return;
      Case k;
      k.d.n = 8;
      const float g[] = {1, 2, 1, 2}, f[] = {2, 2, 1, 1};
      const char* s[] = {"a", "b", "b", "a"};
      for (int i = 0; i < 8; ++i) {
        k.d.floats["f"].push_back(f[i % 4] + (i < 4 ? 0 : 10));
        k.d.floats["g"].push_back(g[i % 4]);
        k.d.strings["s"].push_back(s[i % 4]);
        // The second half is like the first with other small differences.
        int x = i < 4 ? v[i] : v[(i + 1) % 4];
        k.gd.emplace_back((signs >> (i % 4) & 1 ? -1 : 1) * (1 + (x - 1) * ldexp(1, -28)), 1);
      }
      // With an offset the first split separates the halves, which then compete.
      Case halves = k;
      for (int i = 0; i < 8; ++i) halves.gd[i].g += i < 4 ? 64 : -64;
      halves.w.assign(8, 1);
      k.w.assign(8, 1);
      int sum = v[0] + v[1] * 2 + v[2] * 3 + v[3] + signs;
      for (int leaves = 2; leaves <= 5; ++leaves) {
        CheckFit(r, k, Setup{leaves, 0, 0, 0, 1, 1, 1}, sum, 1e-11);
        if (leaves > 2) CheckFit(r, halves, Setup{leaves, 0, 0, 0, 1, 1, 1}, sum, 1e-10);
      }
    });
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
