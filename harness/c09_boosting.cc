// C09: complete training runs on every small data set, every loss and setting, against stagewise boosting.
#include "boostcheck.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/tree_algo.h"

using namespace ref;
using std::string;
using std::vector;

namespace {

struct Set { const char* loss; int trees, leaves; float shrinkage; double lambda; int threads; };
const Set kSets[] = {{"mse", 2, 2, 0.5f, 0, 1}, {"logloss", 2, 3, 0.5f, 1, 1}, {"mse", 3, 3, 1, 0.5, 1}, {"huberized_hinge", 2, 2, 0.25f, 0.5, 1},
                     {"logloss", 1, 4, 1, 0.25, 2}, {"mse", 1, 4, 0.03125f, 0, 1}, {"huberized_hinge", 3, 3, 1, 1, 1}, {"logloss", 3, 2, 2, 2, 1}};

string ShowSet(const Config& c, const Data& d, const vector<float>& y) {
  std::ostringstream o;
  o << c.loss_func() << " trees=" << c.num_trees() << " leaves=" << c.num_leaves() << " shrinkage=" << c.shrinkage() << " lambda=" << c.l2_lambda()
    << " threads=" << FLAGS_num_threads << " " << d.Show() << " y=";
  for (float v : y) o << v << " ";
  return o.str();
}

void CheckTrain(mc::Runner& r, const Data& d, const vector<float>& y, const Config& c, const vector<string>& features) {
  Forest f;
  auto st = Train(d, y, {}, c, features, nullptr, &f);
  string what = ShowSet(c, d, y);
  r.Step(c.num_trees());
  if (!st.ok()) {
    // Allowed only if the constant diverges.
    string e = CheckBoosting(d, y, {}, c, features, nullptr, f);
    r.Check(e == "harness: reference diverges", what + ": training failed: " + st.ToString());
    r.Count("diverged");
    return;
  }
  r.State(Show(f));
  string e = CheckBoosting(d, y, {}, c, features, nullptr, f);
  r.Check(e.empty(), what + ": " + e + "\n forest " + Show(f));
  for (auto& t : f.tree()) { e = CheckClean(t); r.Check(e.empty(), what + ": " + e); }
  auto ds = d.Store();
  vector<double> scores;
  r.Check(gbdt::EvaluateForest(ds.get(), f, &scores).ok(), what + ": evaluation failed");
  for (int i = 0; i < d.n; ++i) r.Check(Near(scores[i], Score(f, d, i), 1e-6), what + ": evaluation of row " + std::to_string(i) + " is wrong");
}

void Body(mc::Runner& r) {
  Init();
  const float fv[] = {1, 2, NAN};
  const char* sv[] = {"a", "b"};
  // 1. Every multiset of rows over 3 float values, 2 categories, 2 targets.
  for (int n = 1; n <= (r.thorough ? 5 : 4); ++n)
    Multisets(12, n, [&](const vector<int>& m) {
      if (r.Done()) return;
      if (!r.Next([=] { return "rows " + ShowV(m); })) return;
      Data d;
      d.n = n;
      vector<float> y, yb;
      int sum = 0;
      for (int x : m) {
        d.floats["f"].push_back(fv[x % 3]);
        d.strings["s"].push_back(sv[x / 3 % 2]);
        y.push_back(x / 6 ? 3.5f : -1);
        yb.push_back(x / 6 ? 1 : -1);
        sum += x;
      }
      for (int k = 0; k < (r.thorough ? 8 : n == 4 ? 2 : 4); ++k) {
        const Set& s = kSets[r.thorough ? k : (sum + 3 * k) % 8];
        FLAGS_num_threads = s.threads;
        CheckTrain(r, d, s.loss[0] == 'm' ? y : yb, TrainConfig(s.loss, s.trees, s.leaves, s.shrinkage, s.lambda), {"f", "s"});
      }
    });
  // 2. Larger data, all pointwise losses, longer forests, any number of threads.
  for (int seed = 0; seed < (r.thorough ? 40 : 8); ++seed)
    for (const char* loss : {"mse", "logloss", "huberized_hinge"})
      for (int threads : {1, 2, 3, 5})
        for (int trees : {1, 2, 6}) {
          if (!r.Next([=] { return string(loss) + " data set " + std::to_string(seed) + " threads " + std::to_string(threads) + " trees " + std::to_string(trees); })) continue;
          Generic g(seed, 11 + seed % 9);
          FLAGS_num_threads = threads;
          Config c = TrainConfig(loss, trees, 2 + seed % 5, trees == 2 ? 0.01f : trees == 1 ? 1.5f : 0.3f, seed % 2 ? 0.7 : 0.1);
          CheckTrain(r, g.d, loss[0] == 'm' ? g.y : g.yb, c, g.features);
        }
  // Unusual shrinkage.
  for (const char* loss : {"mse", "logloss", "huberized_hinge"})
    for (float shrinkage : {0.0f, -0.5f, 1e-6f, 1.75f, 3.0f})
      for (int seed = 0; seed < 3; ++seed) {
        if (!r.Next([=] { return string(loss) + " shrinkage " + std::to_string(shrinkage) + " data set " + std::to_string(seed); })) continue;
        Generic g(seed + 70, 10 + seed);
        FLAGS_num_threads = 1 + seed;
        CheckTrain(r, g.d, loss[0] == 'm' ? g.y : g.yb, TrainConfig(loss, 3, 3, shrinkage, 0.5), g.features);
      }
  // Long trainings.
  for (const char* loss : {"mse", "logloss", "huberized_hinge"})
    for (int trees : {100, 256, 257, 600, 1100}) {
      if (!r.Next([=] { return string(loss) + " " + std::to_string(trees) + " trees"; })) continue;
      Generic g(trees, 9);
      FLAGS_num_threads = 1 + trees % 3;
      CheckTrain(r, g.d, loss[0] == 'm' ? g.y : g.yb, TrainConfig(loss, trees, 2 + trees % 3, loss[0] == 'm' ? 0.01f : 0.003f, 0.5), g.features);
    }
  // Small and large targets.
  for (float scale : {1e-2f, 1e4f, 1e7f, 1e12f})  // below, gains are under the smallest that counts
    for (float shift : {0.0f, 0.5f, 30.0f}) {
      if (!r.Next([=] { return "targets times " + std::to_string(scale * 1e6) + "e-6 and " + std::to_string(shift); })) continue;
      Generic g(7 + (int)shift, 10);
      vector<float> y;
      for (float v : g.y) y.push_back((v + shift) * scale);
      FLAGS_num_threads = 1;
      Config c = TrainConfig("mse", 2, 3, 0.5f, 0);
      Forest f;
      r.Check(Train(g.d, y, {}, c, g.features, nullptr, &f).ok(), "training failed");
      r.Check(f.tree_size() == 3 && !f.tree(0).has_left_child(), "not a constant and two trees");
      double mean = 0, spread = 0;
      for (float v : y) mean += v / y.size();
      for (float v : y) spread = std::max(spread, fabs(v - mean));
      r.Check(fabs(f.tree(0).score() - mean) <= 1e-5 * (fabs(mean) + spread), "the constant is " + std::to_string(f.tree(0).score() / scale) + " instead of " + std::to_string(mean / scale) + ", scaled");
      // One tree later the squared error is smaller.
      double last = 0;
      for (int k = 1; k <= 3; ++k) {
        double err = 0;
        for (int i = 0; i < g.d.n; ++i) { double e = (y[i] - Score(f, g.d, i, k)) / scale; err += e * e; }
        if (k > 1) r.Check(err < last, "tree " + std::to_string(k - 1) + " does not improve the fit of targets of this size");
        last = err;
      }
      r.Step(3);
      r.State(Show(f));
    }
  // 3. Determinism: same seed, same forest, whatever ran before; up to rounding for another number of threads.
  for (const char* loss : {"mse", "logloss", "huberized_hinge", "pairwise_logloss", "gbrank", "auc", "lambdamart"})
    for (int seed = 0; seed < (r.thorough ? 12 : 3); ++seed)
      for (int sample = 0; sample < 2; ++sample)
        for (int threads : {1, 2, 3}) {
          if (!r.Next([=] { return string(loss) + " determinism " + std::to_string(seed) + (sample ? " sampling" : "") + " threads " + std::to_string(threads); })) continue;
          Generic g(seed + 50, 14);
          bool binary = !strcmp(loss, "logloss") || !strcmp(loss, "huberized_hinge");
          Config c = TrainConfig(loss, 3, 4, 0.3f, 0.3);
          c.set_group_column("group");
          if (sample) { c.set_example_sampling_rate(0.7f); c.set_feature_sampling_rate(0.7f); }
          const auto& y = binary ? g.yb : g.y;
          Forest a, b, o, d;
          FLAGS_num_threads = threads;
          r.Check(Train(g.d, y, g.w, c, g.features, nullptr, &a, seed).ok(), "training failed");
          // Other calls in between.
          Generic g2(seed + 99, 9);
          Config c2 = TrainConfig("mse", 2, 3, 1, 0);
          c2.set_example_sampling_rate(0.5f);
          Train(g2.d, g2.y, {}, c2, {"g", "s"}, nullptr, &o, seed + 7);
          gbdt::Subsampling::UniformSubsample(seed * 3 + 1, 0.5);
          r.Check(Train(g.d, y, g.w, c, g.features, nullptr, &b, seed).ok(), "training failed");
          r.Check(Bits(a) == Bits(b), "the same seed gives another forest after other calls:\n " + Show(a) + "\n " + Show(b));
          FLAGS_num_threads = threads == 3 ? 1 : threads + 1;
          r.Check(Train(g.d, y, g.w, c, g.features, nullptr, &d, seed).ok(), "training failed");
          for (int i = 0; i < g.d.n; ++i)
            r.Check(Near(Score(a, g.d, i), Score(d, g.d, i), 1e-4), "another number of threads gives another score for row " + std::to_string(i) +
                    ":\n " + Show(a) + "\n " + Show(d));
          r.State(Show(a));
          r.Step(12);
        }
  // A loss function object that was used for another training before.
  for (const char* loss : {"mse", "logloss", "huberized_hinge", "pairwise_logloss", "gbrank", "auc", "lambdamart"})
    for (int first = 0; first < 4; ++first)
      for (int second = 0; second < 4; ++second)
        for (int threads : {1, 3}) {
          if (!r.Next([=] { return string(loss) + " object used for data set " + std::to_string(first) + ", then for " + std::to_string(second) + ", threads " + std::to_string(threads); })) continue;
          FLAGS_num_threads = threads;
          bool binary = !strcmp(loss, "logloss") || !strcmp(loss, "huberized_hinge");
          auto run = [&](int which, gbdt::LossFunc* object) {
            Generic g(which + 150, 8 + which * 5);
            Config c = TrainConfig(loss, 2, 4, 0.3f, 0.3);
            if (which % 2) c.set_group_column("group");
            const auto& y = binary ? g.yb : g.y;
            auto ds = g.d.Store();
            auto own = gbdt::LossFuncFactory::CreateLossFunc(c);
            gbdt::Subsampling::Reseed(17);
            Forest f;
            auto st = gbdt::TrainGBDT(ds.get(), std::unordered_set<string>(g.features.begin(), g.features.end()), [&](int i) { return g.w[i]; },
                                      [&](int i) { return y[i]; }, object ? object : own.get(), c, nullptr, &f);
            r.Check(st.ok(), "training failed: " + st.ToString());
            r.Step();
            return f;
          };
          auto object = gbdt::LossFuncFactory::CreateLossFunc(TrainConfig(loss, 2, 4, 0.3f, 0.3));
          Forest a = run(first, object.get()), b = run(second, object.get()), want = run(second, nullptr);
          r.Check(Bits(b) == Bits(want), "the forest is\n " + Show(b) + "\ninstead of\n " + Show(want));
          r.State(Show(b));
        }
  // 4. Losses and settings that draw random numbers: the boosting loop, using the library's losses and tree fitting.
  for (const char* loss : {"pairwise_logloss", "gbrank", "auc", "lambdamart", "mse", "logloss"})
    for (int seed = 0; seed < (r.thorough ? 20 : 4); ++seed)
      for (int threads : {1, 2})
        for (int mode = 0; mode < 3; ++mode) {
          if (!r.Next([=] { return string(loss) + " stages " + std::to_string(seed) + " threads " + std::to_string(threads) + " mode " + std::to_string(mode); })) continue;
          Generic g(seed + 20, 13);
          bool binary = !strcmp(loss, "logloss");
          const auto& y = binary ? g.yb : g.y;
          Config c = TrainConfig(loss, 4, 4, 0.3f, 0.3);
          if (mode != 1) c.set_group_column("group");
          if (mode == 2) { c.set_example_sampling_rate(0.6f); c.set_feature_sampling_rate(0.7f); }
          FLAGS_num_threads = threads;
          Forest f;
          r.Check(Train(g.d, y, g.w, c, g.features, nullptr, &f, seed).ok(), "training failed");
          auto ds = g.d.Store();
          auto w = [&](int i) { return g.w[i]; };
          r.Check(f.tree_size() == 5, "wrong number of trees");
          // The order in which features are considered is free (feature sampling makes it visible).
          vector<string> order = g.features;
          std::sort(order.begin(), order.end());
          string err;
          do {
            vector<const Column*> cols;
            for (auto& n : order) cols.push_back(ds->GetColumn(n));
            auto lf = gbdt::LossFuncFactory::CreateLossFunc(c);
            gbdt::Subsampling::Reseed(seed);
            r.Check(lf->Init(g.d.n, w, [&](int i) { return y[i]; }, c.group_column().empty() ? nullptr : ds->GetStringColumn("group")).ok(), "Init failed");
            vector<double> s(g.d.n, 0);
            vector<gbdt::GradientData> gd(g.d.n);
            double constant = 0;
            err = "";
            for (int t = 0; t < 4 && err.empty(); ++t) {
              double k = 0;
              lf->ComputeFunctionalGradientsAndHessians(s, &k, &gd, nullptr);
              constant += k;
              TreeNode tree = gbdt::FitTreeToGradients(w, gd, cols, c);
              for (int i = 0; i < g.d.n; ++i) {
                double fitted = TreeScore(tree, g.d, i) * c.shrinkage(), got = TreeScore(f.tree(t + 1), g.d, i);
                if (!Near(fitted, got, 1e-5))
                  err = "tree " + std::to_string(t) + " adds " + std::to_string(got) + " to row " + std::to_string(i) + " instead of " + std::to_string(fitted);
                s[i] += (float)fitted + k;
              }
            }
            if (err.empty() && !Near(constant, f.tree(0).score(), 1e-5))
              err = "the constant is " + std::to_string(f.tree(0).score()) + " instead of " + std::to_string(constant);
          } while (!err.empty() && std::next_permutation(order.begin(), order.end()));
          r.Check(err.empty(), err);
          r.State(Show(f));
          r.Step(4);
        }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
