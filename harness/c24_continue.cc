// C24: training from every small base forest, against stagewise boosting that starts from the base's scores; training
// in stages against training at once.
#include "boostcheck.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/tree_algo.h"
#include "src/utils/json_utils.h"

using namespace ref;
using std::string;
using std::vector;

namespace {

struct Set { const char* loss; int trees, leaves; float shrinkage; double lambda; int threads; };
const Set kSets[] = {{"mse", 2, 2, 0.5f, 0, 1}, {"logloss", 2, 3, 0.5f, 1, 1}, {"huberized_hinge", 1, 2, 0.25f, 0.5, 2}, {"mse", 1, 3, 1, 0.5, 1}};

string ShowSet(const Config& c, const Data& d, const vector<float>& y, const Forest& base) {
  std::ostringstream o;
  o << c.loss_func() << " trees=" << c.num_trees() << " leaves=" << c.num_leaves() << " shrinkage=" << c.shrinkage() << " lambda=" << c.l2_lambda()
    << " threads=" << FLAGS_num_threads << " " << d.Show() << " y=";
  for (float v : y) o << v << " ";
  return o.str() + " base " + Show(base);
}

void CheckBase(mc::Runner& r, const Data& d, const vector<float>& y, const Config& c, const vector<string>& features, const Forest& base) {
  Forest f;
  string before = base.SerializeAsString();
  auto st = Train(d, y, {}, c, features, &base, &f);
  auto what = [&] { return ShowSet(c, d, y, base) + ": "; };
  r.Step(c.num_trees());
  string e = CheckBoosting(d, y, {}, c, features, &base, f);
  if (!st.ok()) {
    if (e != "harness: reference diverges") r.Fail(what() + "training fails: " + st.ToString());
    return;
  }
  if (!e.empty()) r.Fail(what() + e + "\n forest " + Show(f));
  if (base.SerializeAsString() != before) r.Fail(what() + "the base forest was changed");
  for (auto& t : f.tree()) { e = CheckClean(t); if (!e.empty()) r.Fail(what() + e); }
  r.State(Show(f));
}

vector<TreeNode> Menu() {
  return {Leaf(0.75f), Leaf(-2), Leaf(0),
          Node(FloatSplit("f", 2, false, 3), Leaf(1), Leaf(-0.5f)),
          Node(CatSplit("s", {"b"}, 0.25), Leaf(0.125f), Leaf(2)),
          Node(FloatSplit("z", 5.5f, true, 1), Leaf(-1), Leaf(1.5f)),  // not among the features of training
          Node(FloatSplit("f", 1.5f, true, 9), Node(CatSplit("s", {"a", "unseen"}, 2), Leaf(4), Leaf(0.25f)), Leaf(-1))};
}

void Body(mc::Runner& r) {
  Init();
  auto menu = Menu();
  // 1. Every base forest of up to 3 (4) trees from the menu, on a few data sets.
  for (int len = 0; len <= (r.thorough ? 4 : 3); ++len)
    Sequences(menu.size(), len, [&](const vector<int>& v) {
      if (r.Done()) return;
      if (!r.Next([=] { return "base trees " + ShowV(v); })) return;
      Forest base;
      int sum = 0;
      for (int x : v) { *base.add_tree() = menu[x]; sum += x; }
      base.set_meta_info("made by hand");
      for (int ds = 0; ds < 4; ++ds) {
        Data d;
        const float fv[] = {1, 2, NAN, 1, 3, 2};
        const char* sv[] = {"a", "b", kMissing, "a"};
        vector<float> y, yb;
        d.n = ds == 0 ? 1 : ds + 3;
        for (int i = 0; i < d.n; ++i) {
          d.floats["f"].push_back(fv[(i * (ds + 1) + ds) % 6]);
          d.strings["s"].push_back(sv[(i + ds) % (2 + ds % 3)]);
          d.floats["z"].push_back(4 + (i * 3 + ds) % 4);
          y.push_back((i * 5 + ds) % 4 * 0.5f);
          yb.push_back((i * 3 + ds) % 4 < 2 ? 1 : -1);
        }
        const Set& s = kSets[(ds + sum) % 4];
        FLAGS_num_threads = s.threads;
        CheckBase(r, d, s.loss[0] == 'm' ? y : yb, TrainConfig(s.loss, s.trees, s.leaves, s.shrinkage, s.lambda), {"f", "s"}, base);
      }
    });
  // Base forests of many trees.
  for (int many : {40, 257, 700, r.thorough ? 70000 : 1100})
    for (int k = 0; k < 4; ++k) {
      if (r.Done()) return;
      if (!r.Next([=] { return "base of " + std::to_string(many) + " trees, setting " + std::to_string(k); })) continue;
      Forest base;
      for (int i = 0; i < many; ++i) {
        TreeNode t = menu[(i * 5 + i / 7 + k) % menu.size()];
        std::function<void(TreeNode*)> scale = [&](TreeNode* n) {
          n->set_score(n->score() / 64 * (i % 2 ? 1 : -1));
          if (n->has_left_child()) { scale(n->mutable_left_child()); scale(n->mutable_right_child()); }
        };
        scale(&t);
        *base.add_tree() = t;
      }
      Generic g(k + 77, 9);
      const Set& s = kSets[k];
      FLAGS_num_threads = s.threads;
      Data d = g.d;
      for (int i = 0; i < d.n; ++i) d.floats["z"].push_back(4 + i % 4);
      CheckBase(r, d, s.loss[0] == 'm' ? g.y : g.yb, TrainConfig(s.loss, s.trees, s.leaves, s.shrinkage, s.lambda), {"f", "s"}, base);
    }
  // 2. Training in stages: every split of up to 5 (7) trees into two and into three stages.
  int most = r.thorough ? 7 : 5;
  for (const char* loss : {"mse", "logloss", "huberized_hinge"})
    for (int seed = 0; seed < (r.thorough ? 12 : 3); ++seed)
      for (int variant = 0; variant < 4; ++variant)
        for (int m = 1; m < most; ++m)
          for (int n = 1; m + n <= most; ++n)
            for (int k = 0; m + n + k <= most; ++k) {
              if (r.Done()) return;
              if (k > 1 && !r.thorough) continue;
              if (!r.Next([=] { return string(loss) + " data set " + std::to_string(seed) + " variant " + std::to_string(variant) + " stages " + std::to_string(m) + " " + std::to_string(n) + " " + std::to_string(k); })) continue;
              Generic g(seed + 300, 16 + seed);
              const auto& y = loss[0] == 'm' ? g.y : g.yb;
              FLAGS_num_threads = 1 + variant % 3;
              Config c = TrainConfig(loss, m + n + k, 2 + variant, variant == 3 ? 1.0f : 0.25f, variant ? 0.3 * variant : 0.1);
              const auto& w = variant & 1 ? g.w : vector<float>();
              Forest all, a, b, last;
              r.Check(Train(g.d, y, w, c, g.features, nullptr, &all, 1).ok(), "training fails");
              c.set_num_trees(m);
              r.Check(Train(g.d, y, w, c, g.features, nullptr, &a, 2).ok(), "training fails");
              c.set_num_trees(n);
              // Through JSON, as a base model of the command line.
              string json;
              Forest a2;
              r.Check(JsonUtils::ToJson(a, &json).ok() && JsonUtils::FromJson(json, &a2).ok(), "JSON");
              r.Check(Train(g.d, y, w, c, g.features, &a2, &b, 3).ok(), "continued training fails");
              last = b;
              if (k) {
                c.set_num_trees(k);
                last.Clear();
                r.Check(Train(g.d, y, w, c, g.features, &b, &last, 4).ok(), "continued training fails");
              }
              // The trees of the base forest come first, without the single-leaf ones.
              int at = 0, single = 0;
              for (int i = 1; i <= m; ++i) {
                if (!a.tree(i).has_left_child()) { ++single; continue; }
                ++at;
                r.Check(at < last.tree_size() && Bits(last.tree(at)) == Bits(a.tree(i)), "tree " + std::to_string(i) + " of the base forest is changed or moved");
              }
              for (int i = single + 1; k && i < b.tree_size(); ++i) if (i > at && !b.tree(i).has_left_child()) ++single;
              if (!single) r.Check(last.tree_size() == all.tree_size(), "another number of trees: " + std::to_string(last.tree_size()) + " instead of " + std::to_string(all.tree_size()));
              auto ds = g.d.Store();
              vector<double> s1, s2;
              r.Check(gbdt::EvaluateForest(ds.get(), all, &s1).ok() && gbdt::EvaluateForest(ds.get(), last, &s2).ok(), "evaluation fails");
              for (int i = 0; i < g.d.n; ++i)
                r.Check(Near(s1[i], s2[i], 1e-4), "row " + std::to_string(i) + " scores " + std::to_string(s2[i]) + " instead of " + std::to_string(s1[i]) + "\n at once " + Show(all) + "\n in stages " + Show(last));
              r.Step(2 * (m + n + k));
              r.State(Show(last));
            }
  // 3. Losses and settings that draw random numbers: the boosting loop from the base's scores, using the library's
  // losses and tree fitting.
  for (const char* loss : {"pairwise_logloss", "gbrank", "auc", "lambdamart", "mse", "logloss"})
    for (int seed = 0; seed < (r.thorough ? 16 : 3); ++seed)
      for (int kind = 0; kind < 3; ++kind)
        for (int sample = 0; sample < 2; ++sample) {
          if (r.Done()) return;
          if (!r.Next([=] { return string(loss) + " stages from a base " + std::to_string(seed) + " kind " + std::to_string(kind) + (sample ? " sampling" : ""); })) continue;
          Generic g(seed + 40, 13);
          const auto& y = !strcmp(loss, "logloss") ? g.yb : g.y;
          Forest base;
          if (kind == 0) {
            for (int x : {0, 5, 1}) if (x != 5) *base.add_tree() = menu[x];
            *base.add_tree() = Node(FloatSplit("g", 100, false), Leaf(1), Leaf(-0.5f));
          } else {
            Config bc = TrainConfig(kind == 1 ? "mse" : loss, 2, 3, 0.5f, 0.5);
            if (kind == 2) bc.set_group_column("group");
            FLAGS_num_threads = 1;
            r.Check(Train(g.d, kind == 1 ? g.y : y, {}, bc, {"f", "s"}, nullptr, &base, seed + 5).ok(), "training fails");
          }
          Config c = TrainConfig(loss, 3, 4, 0.3f, 0.3);
          c.set_group_column("group");
          if (sample) { c.set_example_sampling_rate(0.6f); c.set_feature_sampling_rate(0.7f); }
          FLAGS_num_threads = 1 + seed % 2;
          Forest f;
          r.Check(Train(g.d, y, g.w, c, g.features, &base, &f, seed).ok(), "training fails");
          auto ds = g.d.Store();
          auto w = [&](int i) { return g.w[i]; };
          vector<TreeNode> kept;
          double base_constant = 0;
          for (auto& t : base.tree()) if (t.has_left_child()) kept.push_back(t); else base_constant += t.score();
          r.Check(f.tree_size() == 1 + (int)kept.size() + 3, "wrong number of trees");
          for (size_t i = 0; i < kept.size(); ++i) r.Check(Bits(f.tree(i + 1)) == Bits(kept[i]), "base tree " + std::to_string(i) + " is changed");
          vector<string> order = g.features;
          std::sort(order.begin(), order.end());
          string err;
          do {
            vector<const Column*> cols;
            for (auto& n : order) cols.push_back(ds->GetColumn(n));
            auto lf = gbdt::LossFuncFactory::CreateLossFunc(c);
            gbdt::Subsampling::Reseed(seed);
            r.Check(lf->Init(g.d.n, w, [&](int i) { return y[i]; }, ds->GetStringColumn("group")).ok(), "Init failed");
            vector<double> s;
            for (int i = 0; i < g.d.n; ++i) s.push_back(Score(base, g.d, i));
            vector<gbdt::GradientData> gd(g.d.n);
            double constant = base_constant;
            err = "";
            for (int t = 0; t < 3 && err.empty(); ++t) {
              double k = 0;
              lf->ComputeFunctionalGradientsAndHessians(s, &k, &gd, nullptr);
              constant += k;
              TreeNode tree = gbdt::FitTreeToGradients(w, gd, cols, c);
              for (int i = 0; i < g.d.n; ++i) {
                double fitted = TreeScore(tree, g.d, i) * c.shrinkage(), got = TreeScore(f.tree(kept.size() + 1 + t), g.d, i);
                if (!Near(fitted, got, 1e-5)) err = "new tree " + std::to_string(t) + " adds " + std::to_string(got) + " to row " + std::to_string(i) + " instead of " + std::to_string(fitted);
                s[i] += (float)fitted + k;
              }
            }
            if (err.empty() && !Near(constant, f.tree(0).score(), 1e-5)) err = "the constant is " + std::to_string(f.tree(0).score()) + " instead of " + std::to_string(constant);
          } while (!err.empty() && std::next_permutation(order.begin(), order.end()));
          r.Check(err.empty(), err + "\n base " + Show(base));
          r.State(Show(f));
          r.Step(3);
        }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
