// Checks a trained forest against the definition of stagewise boosting.
#ifndef BOOSTCHECK_H_
#define BOOSTCHECK_H_
#include "common.h"
#include "treecheck.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/subsampling.h"

namespace ref {

inline Config TrainConfig(const std::string& loss, int trees, int leaves, float shrinkage, double lambda) {
  Config c;
  c.set_loss_func(loss);
  c.set_num_trees(trees);
  c.set_num_leaves(leaves);
  c.set_shrinkage(shrinkage);
  c.set_l2_lambda(lambda);
  c.set_example_sampling_rate(1);
  c.set_feature_sampling_rate(1);
  c.set_pair_sampling_rate(2);
  return c;
}

inline Status Train(const Data& d, const std::vector<float>& y, const std::vector<float>& w, const Config& c,
                          const std::vector<std::string>& features, const Forest* base, Forest* out, int seed = 17) {
  auto ds = d.Store();
  gbdt::Subsampling::Reseed(seed);
  auto loss = gbdt::LossFuncFactory::CreateLossFunc(c);
  return gbdt::TrainGBDT(ds.get(), std::unordered_set<std::string>(features.begin(), features.end()),
                         [&](int i) { return w.empty() ? 1.0f : w[i]; }, [&](int i) { return y[i]; }, loss.get(), c, base, out);
}

// Whether every tree of the forest after the base's is what boosting adds, for deterministic settings (no sampling,
// pointwise loss). mult[i]: how many times row i occurs (the reference repeats rows instead of weighting them).
// Empty: right. Sets *diverged if the reference diverges.
inline std::string CheckBoosting(const Data& d, const std::vector<float>& y, const std::vector<int>& mult, const Config& c,
                                 const std::vector<std::string>& features, const Forest* base, const Forest& forest,
                                 std::vector<double>* final_scores = nullptr, double weight_scale = 1) {
  std::vector<int> rows;  // row of the repeated data -> row
  for (int i = 0; i < d.n; ++i) for (int k = 0; k < (mult.empty() ? 1 : mult[i]); ++k) rows.push_back(i);
  auto loss = gbdt::LossFuncFactory::CreateLossFunc(c);
  if (!loss->Init(rows.size(), [](int) { return 1.0f; }, [&](int i) { return y[rows[i]]; }, nullptr).ok()) return "harness: Init failed";
  int nbase = 0;
  double constant = 0;
  std::vector<double> f(rows.size(), 0);
  if (forest.tree_size() < 1 || forest.tree(0).has_left_child()) return "the first tree is not a constant";
  if (base)
    for (auto& t : base->tree()) {
      if (!t.has_left_child()) {
        constant += t.score();
      } else {
        ++nbase;
        if (nbase >= forest.tree_size() || Bits(forest.tree(nbase)) != Bits(t)) return "base tree " + std::to_string(nbase) + " was changed";
      }
      for (size_t i = 0; i < rows.size(); ++i) f[i] += TreeScore(t, d, rows[i]);
    }
  if (forest.tree_size() != 1 + nbase + c.num_trees())
    return std::to_string(forest.tree_size()) + " trees instead of 1+" + std::to_string(nbase) + "+" + std::to_string(c.num_trees());
  std::vector<int> all;
  for (int i = 0; i < d.n; ++i) all.push_back(i);
  std::vector<gbdt::GradientData> gd;
  for (int t = 0; t < c.num_trees(); ++t) {
    double k = 0;
    std::string progress;
    loss->ComputeFunctionalGradientsAndHessians(f, &k, &gd, &progress);
    if (std::isnan(k) || std::isinf(k)) return "harness: reference diverges";
    constant += k;
    std::vector<GH> gh(d.n);
    for (size_t i = 0; i < rows.size(); ++i) { gh[rows[i]].g += gd[i].g * weight_scale; gh[rows[i]].h += gd[i].h * weight_scale; }
    const TreeNode& tree = forest.tree(1 + nbase + t);
    TreeChecker checker(d, features, gh, c, c.shrinkage());
    std::string err = checker.Check(tree, all);
    if (!err.empty()) return "tree " + std::to_string(t) + ": " + err;
    for (size_t i = 0; i < rows.size(); ++i) f[i] += TreeScore(tree, d, rows[i]) + k;
  }
  // The constant is added up in single precision.
  if (!Near(forest.tree(0).score(), constant, 2e-6 * (1 + c.num_trees() / 50.0)))
    return "the constant is " + std::to_string(forest.tree(0).score()) + " instead of " + std::to_string(constant);
  for (size_t i = 0; i < rows.size(); ++i)
    if (!Near(Score(forest, d, rows[i]), f[i], 1e-5 * (1 + c.num_trees() / 50.0)))
      return "row " + std::to_string(rows[i]) + " scores " + std::to_string(Score(forest, d, rows[i])) + " but boosting ended with " + std::to_string(f[i]);
  if (final_scores) *final_scores = f;
  return "";
}

// Nothing but the model may be left in a returned forest.
inline std::string CheckClean(const TreeNode& t) {
  if (t.has_left_child() != t.has_right_child()) return "a node has one child";
  if (!t.has_left_child()) return t.has_split() ? "a leaf has a split" : "";
  if (!t.has_split()) return "an inner node has no split";
  if (t.split().cat_split().internal_categorical_index_size()) return "internal category indices are left in the forest";
  std::string e = CheckClean(t.left_child());
  return e.empty() ? CheckClean(t.right_child()) : e;
}

// Fixed data sets without ties: every value is different and irregular.
struct Generic {
  Data d;
  std::vector<float> y, yb, w;
  std::vector<std::string> features = {"f", "g", "s"};
  explicit Generic(int seed, int n) {
    unsigned long x = 88172645463325252ull + seed * 7919ull;
    auto rnd = [&](int m) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (int)(x % m); };
    d.n = n;
    const char* cats[] = {"a", "b", "c", kMissing};
    for (int i = 0; i < n; ++i) {
      d.floats["f"].push_back(rnd(5) == 0 ? NAN : rnd(100000) / 331.0f);
      d.floats["g"].push_back(rnd(100000) / 7.3f - 5000);
      d.strings["s"].push_back(cats[rnd(4)]);
      d.strings["group"].push_back(std::string(1, "xyz"[rnd(3)]));
      y.push_back(rnd(100000) / 9973.0f);
      yb.push_back(rnd(2) ? 1 : -1);
      w.push_back((1 + rnd(1000)) / 313.0f);
    }
  }
};

}  // namespace ref
#endif
