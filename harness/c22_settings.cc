// C22: training and evaluation with every small deviation from valid settings, data and forests: what has to be
// rejected is rejected, everything else trains (or stops because it diverges), and nothing ends the process.
#include <dirent.h>
#include <float.h>
#include <limits.h>

#include "boostcheck.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/utils.h"

using namespace ref;
using std::string;
using std::vector;

namespace {

const float kInf = INFINITY;
const char* kLosses[] = {"mse", "logloss", "huberized_hinge", "auc", "pairwise_logloss", "gbrank", "lambdamart"};

// A setting, with its values. The first one is the usual one. Class: 'v' valid, 'i' invalid (to be rejected),
// 'p' invalid for ranking losses only, 'b' invalid for binary losses only, 'm': may do anything but end the process,
// 'd': may stop because it diverges.
struct Dim { const char* name; vector<double> v; string cls; };
const vector<Dim> kDims = {
    {"num_trees", {2, 0, -1, INT_MIN, 1}, "viiiv"},
    {"num_leaves", {3, 0, -1, INT_MIN, 1, 2, 100, INT_MAX}, "viiivvvv"},
    {"example_sampling_rate", {1, 0, -0.5, NAN, 1.0001, kInf, -kInf, 0.5, 1e-30}, "viiiiiivv"},
    {"feature_sampling_rate", {1, 0, -0.5, NAN, 1.0001, kInf, -kInf, 0.5, 1e-30}, "viiiiiivv"},
    {"pair_sampling_rate", {2, 0, -1, NAN, kInf, -kInf, 1e-30, 0.5, 100}, "vpppmpvvv"},
    {"shrinkage", {0.25, 0, 1, -1, 1e30, NAN, kInf}, "vvvmmmm"},
    {"min_gain", {0, 0.01, -1, 1e30, NAN, kInf}, "vvmvmm"},
    {"l2_lambda", {0.25, 0, 1e30, -1, NAN, kInf}, "vvvmmm"},
    {"min_hessian", {0, 1, 1e30, -1, NAN, kInf}, "vvvmmm"},
    {"eval_interval", {0, 1, -1}, "vvv"},
    {"lambdamart_dcg_base", {0, 1, 2.5, -1, 1e-30, NAN, kInf}, "vdvvddd"},
    {"equal_group_weight", {0, 1}, "vv"},
    {"pair_weight_by_delta_target", {0, 1}, "vv"},
    // All three; none; unknown; all and unknown; one; the group column; a raw column.
    {"features", {0, 1, 2, 3, 4, 5, 6}, "vviivvm"},
    // "group"; none; unknown; a float feature; a raw column; "" as a value.
    {"group_column", {0, 1, 2, 3, 4}, "vviii"},
    // Fitting the loss; not in {-1, 1}; with a NaN; with an infinite one; all the same (1); a single one of 0.5; of
    // -0.25; of 0; of -2; just above 1; just below 1.
    {"targets", {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, "vbmmvbbbbbb"},
    // All 1; different; one 0; all 0; negative; NaN; infinite.
    {"weights", {0, 1, 2, 3, 4, 5, 6}, "vvvmmmm"},
    // None; empty; good; absent feature; float feature as categorical one; the other way round; raw column (as float,
    // as category); absent in a right child; scores that are infinite.
    {"base_forest", {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, "vvviiiiiim"},
    {"threads", {1, 3}, "vv"},
    // 12 rows; 1; 2; none; 60 rows with many categories; all values missing; infinite values.
    {"rows", {0, 1, 2, 3, 4, 5, 6}, "vvvmvvv"},
};

struct Case { vector<int> at; string loss; };

string ShowCase(const Case& k) {
  std::ostringstream o;
  o << k.loss;
  for (size_t i = 0; i < kDims.size(); ++i) if (k.at[i]) o << " " << kDims[i].name << "=" << kDims[i].v[k.at[i]];
  return o.str();
}

const double& Val(const Case& k, const char* name) {
  for (size_t i = 0; i < kDims.size(); ++i) if (!strcmp(kDims[i].name, name)) return kDims[i].v[k.at[i]];
  fprintf(stderr, "harness: no setting %s\n", name);
  abort();
}

Data MakeData(int kind) {
  Data d;
  d.n = kind == 0 || kind >= 5 ? 12 : kind == 1 ? 1 : kind == 2 ? 2 : kind == 3 ? 0 : 60;
  auto& f = d.floats["f"];
  auto& g = d.floats["g"];
  auto& s = d.strings["s"];
  auto& group = d.strings["group"];
  auto& w = d.raws["raw"];
  for (int i = 0; i < d.n; ++i) {
    f.push_back(i * 5 % 12);
    g.push_back(i % 4 == 3 ? NAN : i * 7 % 9 / 4.0f);
    s.push_back(kind == 4 ? "c" + std::to_string(i * 17 % 30) : i % 5 == 4 ? kMissing : string(1, "abc"[i % 3]));
    group.push_back(kind == 4 ? string(1, "xy"[i > 45]) : string(1, "xyz"[i / 5]));
    w.push_back(i);
    if (kind == 5) { f[i] = g[i] = NAN; s[i] = kMissing; }
    if (kind == 6 && i % 3) { f[i] = i % 3 == 1 ? kInf : -kInf; g[i] = i % 2 ? FLT_MAX : -FLT_MAX; }
  }
  return d;
}

// Forests for the data above, a good one first.
vector<std::pair<Forest, bool>> Forests() {
  vector<std::pair<Forest, bool>> out;
  auto add = [&](bool good, vector<TreeNode> trees) {
    Forest f;
    for (auto& t : trees) *f.add_tree() = t;
    out.push_back({f, good});
  };
  TreeNode f = Node(FloatSplit("f", 3, true), Leaf(1), Leaf(2)), s = Node(CatSplit("s", {"a", "new"}), Leaf(-1), Leaf(0.5));
  TreeNode none;
  *none.mutable_left_child() = Leaf(1);
  *none.mutable_right_child() = Leaf(2);
  vector<TreeNode> bad = {FloatSplit("absent", 1, false), CatSplit("absent", {"a"}), CatSplit("f", {"a"}), FloatSplit("s", 1, true), FloatSplit("raw", 1, true),
                          CatSplit("raw", {"a"}), FloatSplit("", 1, true)};
  add(true, {});
  add(true, {Leaf(1)});
  add(true, {Leaf(1), f, s});
  add(true, {Node(f, s, Node(CatSplit("group", {"x"}), f, Leaf(3)))});
  add(false, {none});
  for (auto& b : bad) {
    TreeNode n = Node(b, Leaf(1), Leaf(2));
    add(false, {n});
    add(false, {n, f});
    add(false, {Leaf(1), f, s, n});
    add(false, {Node(f, n, Leaf(0))});
    add(false, {Node(s, Leaf(0), n)});
    add(false, {Node(f, s, Node(s, f, n))});
    add(false, {Node(b, f, s)});
  }
  return out;
}

void RunTraining(mc::Runner& r, const Case& k) {
  bool pairwise = k.loss == "auc" || k.loss == "pairwise_logloss" || k.loss == "gbrank" || k.loss == "lambdamart";
  bool binary = k.loss == "logloss" || k.loss == "huberized_hinge";
  bool invalid = false, may = false, diverge = false;
  for (size_t i = 0; i < kDims.size(); ++i) {
    char c = kDims[i].cls[k.at[i]];
    invalid |= c == 'i' || (c == 'p' && pairwise) || (c == 'b' && binary);
    may |= c == 'm';
    diverge |= c == 'd';
  }
  Data d = MakeData(Val(k, "rows"));
  // Targets that are not binary need rows.
  Config c;
  c.set_loss_func(k.loss);
  c.set_num_trees(Val(k, "num_trees"));
  c.set_num_leaves(Val(k, "num_leaves"));
  c.set_example_sampling_rate(Val(k, "example_sampling_rate"));
  c.set_feature_sampling_rate(Val(k, "feature_sampling_rate"));
  c.set_pair_sampling_rate(Val(k, "pair_sampling_rate"));
  c.set_shrinkage(Val(k, "shrinkage"));
  c.set_min_gain(Val(k, "min_gain"));
  c.set_l2_lambda(Val(k, "l2_lambda"));
  c.set_min_hessian(Val(k, "min_hessian"));
  c.set_eval_interval(Val(k, "eval_interval"));
  c.set_lambdamart_dcg_base(Val(k, "lambdamart_dcg_base"));
  c.set_equal_group_weight(Val(k, "equal_group_weight"));
  c.set_pair_weight_by_delta_target(Val(k, "pair_weight_by_delta_target"));
  const vector<vector<string>> features = {{"f", "g", "s"}, {}, {"nowhere"}, {"f", "g", "s", "nowhere"}, {"g"}, {"group"}, {"f", "raw"}};
  const char* groups[] = {"group", "", "nowhere", "f", "raw"};
  c.set_group_column(groups[(int)Val(k, "group_column")]);
  int targets = Val(k, "targets"), weights = Val(k, "weights"), bf = Val(k, "base_forest");
  vector<float> y, w;
  for (int i = 0; i < d.n; ++i) {
    y.push_back(binary ? (i * 5 % 3 == 1 ? 1 : -1) : i * 11 % 7 / 4.0f);
    w.push_back(weights == 1 ? 0.25f * (1 + i % 5) : weights == 3 ? 0 : weights == 4 ? -1 - i : 1);
    if (targets == 1) y[i] = i % 2 ? 1 : 0;
    if (targets == 4) y[i] = 1;
  }
  if (d.n) {
    if (targets == 2) y[d.n / 2] = NAN;
    if (targets == 3) y[d.n - 1] = kInf;
    if (targets == 5) y[d.n - 1] = 0.5;
    if (targets == 6) y[d.n / 2] = -0.25;
    if (targets == 7) y[0] = 0;
    if (targets == 8) y[d.n - 1] = -2;
    if (targets == 9) y[d.n / 2] = nextafterf(1, 2);
    if (targets == 10) y[d.n - 1] = nextafterf(1, 0);
    if (weights == 2 && d.n > 2) w[1] = 0;
    if (weights == 5) w[d.n / 2] = NAN;
    if (weights == 6) w[0] = kInf;
  }
  if ((targets == 2 || targets == 3) && binary) invalid = invalid || d.n;
  Forest base, out;
  if (bf >= 2) {
    const vector<TreeNode> trees = {
        Node(FloatSplit("f", 3, true), Leaf(0.25), Node(CatSplit("s", {"a"}), Leaf(-0.5), Leaf(0))), Node(FloatSplit("nowhere", 3, true), Leaf(1), Leaf(2)),
        Node(CatSplit("f", {"a"}), Leaf(1), Leaf(2)), Node(FloatSplit("s", 3, true), Leaf(1), Leaf(2)), Node(FloatSplit("raw", 3, true), Leaf(1), Leaf(2)),
        Node(CatSplit("raw", {"a"}), Leaf(1), Leaf(2)), Node(FloatSplit("f", 3, true), Leaf(1), Node(CatSplit("nowhere", {"a"}), Leaf(1), Leaf(2))),
        Node(FloatSplit("f", 3, true), Leaf(kInf), Leaf(-kInf))};
    *base.add_tree() = Leaf(0.5);
    *base.add_tree() = trees[bf - 2];
  }
  FLAGS_num_threads = Val(k, "threads");
  auto st = Train(d, y, w, c, features[(int)Val(k, "features")], bf ? &base : nullptr, &out);
  r.Step(1 + out.tree_size());
  r.State(ShowCase(k) + st.ToString() + Bits(out));
  if (invalid) {
    if (st.ok() && d.n) r.Fail("training accepts what it should reject");
    r.Count("rejected");
    return;
  }
  if (may) { r.Count(st.ok() ? "unusual, trained" : "unusual, rejected"); return; }
  if (!st.ok() && diverge) { r.Count("diverged"); return; }
  if (!st.ok()) r.Fail("training rejects valid settings: " + st.ToString());
  int extra = bf == 2;
  if (out.tree_size() != 1 + extra + c.num_trees()) r.Fail(std::to_string(out.tree_size()) + " trees in the forest");
  string e;
  for (auto& t : out.tree()) if (e.empty()) e = CheckClean(t);
  if (!e.empty()) r.Fail(e);
  // Whatever is trained can be applied.
  auto ds = d.Store();
  vector<double> scores;
  if (!gbdt::EvaluateForest(ds.get(), out, &scores).ok() || (int)scores.size() != d.n) r.Fail("the forest can not be evaluated on its own data");
  for (double s : scores) if (!std::isfinite(s)) r.Fail("a score is not finite: " + Show(out));
  r.Count("trained");
}

int Files(const string& dir) {
  DIR* p = opendir(dir.c_str());
  if (!p) return 0;
  int n = 0;
  while (auto* e = readdir(p)) n += e->d_name[0] != '.';
  closedir(p);
  return n;
}

void Body(mc::Runner& r) {
  Init();
  // 1. Up to 2 (3) deviations from usual settings.
  int nd = kDims.size();
  for (const char* loss : kLosses) {
    auto run = [&](const vector<int>& at) {
      if (!r.Next([=] { return ShowCase({at, loss}); })) return;
      RunTraining(r, {at, loss});
    };
    vector<int> at(nd, 0);
    run(at);
    for (int a = 0; a < nd; ++a)
      for (at[a] = 1; at[a] < (int)kDims[a].v.size(); ++at[a]) {
        if (r.Done()) return;
        run(at);
        for (int b = a + 1; b < nd; ++b) {
          for (at[b] = 1; at[b] < (int)kDims[b].v.size(); ++at[b]) {
            if (r.Done()) return;
            run(at);
            if (r.thorough)
              for (int c = b + 1; c < nd; ++c) {
                for (at[c] = 1; at[c] < (int)kDims[c].v.size(); ++at[c]) run(at);
                at[c] = 0;
              }
          }
          at[b] = 0;
        }
        if (at[a] + 1 == (int)kDims[a].v.size()) { at[a] = 0; break; }
      }
  }
  // 2. Evaluating and continuing forests whose features are absent or have another type.
  auto forests = Forests();
  for (size_t k = 0; k < forests.size(); ++k)
    for (int rows = 0; rows < 5; ++rows)
      for (int threads : {1, 3}) {
        if (r.Done()) return;
        if (!r.Next([=] { return "forest " + Show(forests[k].first) + " rows " + std::to_string(rows) + " threads " + std::to_string(threads); })) continue;
        FLAGS_num_threads = threads;
        const Forest& f = forests[k].first;
        bool good = forests[k].second;
        Data d = MakeData(rows);
        auto ds = d.Store();
        string dir = r.TempDir() + "/out";
        if (system(("rm -rf '" + dir + "'").c_str())) {}
        vector<double> scores;
        auto s1 = gbdt::EvaluateForest(ds.get(), f, &scores);
        std::list<int> points;
        for (int i = 1; i <= f.tree_size(); ++i) points.push_back(i);
        auto s2 = gbdt::EvaluateForest(ds.get(), f, points, dir);
        r.Step(2);
        if (s1.ok() != good) r.Fail(good ? "evaluation rejects the forest: " + s1.ToString() : "evaluation accepts the forest");
        if (s2.ok() != good) r.Fail(good ? "evaluation into files rejects the forest: " + s2.ToString() : "evaluation into files accepts the forest");
        if (!good && Files(dir)) r.Fail("scores of a rejected forest are written");
        if (good && Files(dir) != f.tree_size()) r.Fail("score files are missing");
        if (good) for (int i = 0; i < d.n; ++i) if (!Near(scores[i], Score(f, d, i))) r.Fail("wrong score");
        for (const char* loss : kLosses) {
          vector<float> y;
          for (int i = 0; i < d.n; ++i) y.push_back(i % 2 ? 1 : -1);
          Config c = TrainConfig(loss, 1, 2, 0.5, 1);
          Forest out;
          auto s3 = Train(d, y, {}, c, {"f", "s"}, &f, &out);
          r.Step();
          if (s3.ok() && !good) r.Fail(string("training with ") + loss + " accepts the base forest");
          if (!s3.ok() && good && d.n) r.Fail(string("training with ") + loss + " rejects the base forest: " + s3.ToString());
        }
        r.State(Show(f) + s1.ToString() + std::to_string(rows));
      }
  // One bad target anywhere in longer data.
  for (const char* loss : {"logloss", "huberized_hinge"})
    for (int n : {1, 2, 64, 101, 300, 5000, 70000})
      for (int where = 0; where < 5; ++where)
        for (float bad : {1.0f, 0.0f, -2.0f, nextafterf(-1, 0)}) {
          if (!r.Next([=] { return string(loss) + " " + std::to_string(n) + " rows, target " + std::to_string(bad) + " at place " + std::to_string(where); })) continue;
          int at = where == 0 ? 0 : where == 1 ? n - 1 : where == 2 ? n / 2 : where == 3 ? n * 9 / 10 : n / 3;
          Config c;
          c.set_loss_func(loss);
          FLAGS_num_threads = 2;
          auto lf = gbdt::LossFuncFactory::CreateLossFunc(c);
          auto st = lf->Init(n, [](int) { return 1.0f; }, [=](int i) { return i == at ? bad : i % 2 ? 1.0f : -1.0f; }, nullptr);
          r.Step();
          r.Check(st.ok() == (bad == 1), bad == 1 ? "binary targets are rejected: " + st.ToString() : "a target that is not binary is accepted");
        }
  // Many unusual targets, weights or scores in data long enough for every way of sorting: nothing may end the process.
  for (const char* loss : kLosses)
    for (int n : {17, 40, 129, 700})
      for (int where = 0; where < 3; ++where)      // targets, weights, scores of the base forest
        for (double bad : {(double)NAN, (double)kInf, (double)-kInf})
          for (int every : {1, 2, 3, 5, 16, 17})
            for (int pattern = 0; pattern < 5; ++pattern) {
              if (where == 2 && pattern > 1) continue;
              if (!r.Next([=] { return string(loss) + " " + std::to_string(n) + " rows, unusual " + (where == 0 ? "targets" : where == 1 ? "weights" : "scores") + " " + std::to_string(bad) + " every " + std::to_string(every) + ", order " + std::to_string(pattern); })) continue;
              auto mixed = [=](unsigned i) {
                return pattern == 0 ? (int)i : pattern == 1 ? n - 1 - (int)i : pattern == 2 ? (int)(i * 7919u % n) : pattern == 3 ? (int)(i * 31u % 5) : i % 2 ? n - (int)i : (int)i;
              };
              Data d;
              d.n = n;
              auto& f = d.floats["f"];
              auto& s = d.strings["s"];
              vector<float> y, w;
              bool binary = !strcmp(loss, "logloss") || !strcmp(loss, "huberized_hinge");
              if (binary && where == 0) continue;
              for (int i = 0; i < n; ++i) {
                f.push_back(i % 37);
                s.push_back("c" + std::to_string(i * 13 % 50));
                y.push_back(binary ? (i * 5 % 3 == 1 ? 1 : -1) : mixed(i) / 4.0f);
                w.push_back(1);
                if (i % every == 0 || (every == 1 && where != 2)) (where == 0 ? y : w)[i] = where == 2 ? 1 : bad;
              }
              Forest base, out;
              *base.add_tree() = Leaf(0.5);
              // Scores of infinities, which make NaNs when they meet.
              *base.add_tree() = Node(FloatSplit("f", every + 3, true), Leaf(bad), Leaf(-bad));
              *base.add_tree() = Node(FloatSplit("f", 20, true), Leaf(pattern ? bad : 1), Leaf(0.25));
              Config c = TrainConfig(loss, 3, 4, 0.5, 0);
              FLAGS_num_threads = 1 + pattern % 2;
              auto st = Train(d, y, w, c, {"f", "s"}, where == 2 ? &base : nullptr, &out);
              r.Step();
              r.Count(st.ok() ? "unusual, trained" : "unusual, rejected");
            }
  // Long forests of small trees.
  for (int trees : {300, 5000, 12000}) {
    if (!r.Next([=] { return std::to_string(trees) + " trees"; })) continue;
    Data d;
    d.n = 2;
    d.floats["f"] = {1, 2};
    FLAGS_num_threads = 1;
    Forest out;
    auto st = Train(d, {0, 1}, {}, TrainConfig("mse", trees, 2, 0.001f, 0), {"f"}, nullptr, &out);
    r.Step(trees);
    r.Check(st.ok() && out.tree_size() == trees + 1, "training rejects valid settings or returns another number of trees");
  }
  // 3. Names of losses.
  for (const char* name : {"mse", "logloss", "huberized_hinge", "auc", "pairwise_logloss", "gbrank", "lambdamart", "", "MSE", "ms", "mse ", "lambdarank", "mse\n", "logloss2"}) {
    if (!r.Next([=] { return string("loss ") + name; })) continue;
    Config c;
    c.set_loss_func(name);
    bool known = false;
    for (const char* l : kLosses) known |= !strcmp(l, name);
    r.Check((gbdt::LossFuncFactory::CreateLossFunc(c) != nullptr) == known, string("the loss ") + name + (known ? " is not known" : " is created"));
    r.Step();
  }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
