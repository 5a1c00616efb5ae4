// C02: every interleaving (up to a bound) of complete training and prediction runs.
#include <glog/logging.h>
#include <gflags/gflags.h>
#include <string.h>
#include <memory>

#include "mcrt.h"
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
#include "src/gbdt_algo/compute_tree_scores.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
#include "src/utils/subsampling.h"

DECLARE_int32(num_threads);

using namespace gbdt;
using std::string;
using std::unique_ptr;
using std::vector;

namespace {

// Values whose sums depend on the order of summation, so that a changed order shows.
const float kF[] = {0.3f, 1.7f, NAN, 0.3f, 2.9f, -4.1f, 0.1f, 1.7f, 5.3f, -0.2f, 2.2f, 0.9f};
const char* kS[] = {"a", "b", "a", "c", "b", "__missing__", "c", "a", "b", "a", "c", "b"};
const char* kG[] = {"x", "x", "y", "y", "x", "y", "z", "z", "x", "y", "z", "z"};
const float kY[] = {0.1f, 1.3f, 0.7f, 2.1f, 0.1f, 3.7f, 1.1f, 0.3f, 0.9f, 1.9f, 0.6f, 2.7f};
const float kW[] = {1.1f, 0.7f, 0.3f, 1.9f, 1.3f, 0.1f, 0.9f, 2.3f, 0.6f, 1.7f, 0.2f, 1.2f};

// Twelve rows, over and over; wide: in groups of their own and two big ones, with six more features.
unique_ptr<DataStore> Data(int n, bool wide = false, bool two = false) {
  unique_ptr<DataStore> ds(new DataStore());
  auto add = [&](unique_ptr<Column> c) { mcrt::Assert(ds->Add(std::move(c)).ok(), "harness: Add"); };
  vector<float> f;
  vector<string> s, g;
  for (int i = 0; i < n; ++i) {
    f.push_back(kF[i % 12]);
    s.push_back(kS[i % 12]);
    // The last third of wide data is two groups.
    g.push_back(two ? i % 2 ? "odd" : "even" : wide && i >= 64 ? i < 80 ? "big" : "large" : kG[i % 12] + (i < 12 ? "" : std::to_string(i / 12)));
  }
  add(Column::CreateBucketizedFloatColumn("f", f));
  add(Column::CreateStringColumn("s", s));
  add(Column::CreateStringColumn("group", g));
  if (wide)
    for (int k = 0; k < 6; ++k) {
      vector<float> x;
      for (int i = 0; i < n; ++i) x.push_back((i * (2 * k + 5) + k) % 17 * 0.3f);
      add(Column::CreateBucketizedFloatColumn("x" + std::to_string(k), x));
    }
  return ds;
}

Config BaseConfig(const string& loss, int trees, int leaves) {
  Config c;
  c.set_num_trees(trees);
  c.set_num_leaves(leaves);
  c.set_shrinkage(0.3f);
  c.set_l2_lambda(0.1);
  c.set_example_sampling_rate(1);
  c.set_feature_sampling_rate(1);
  c.set_loss_func(loss);
  c.set_pair_sampling_rate(3);
  c.set_group_column("group");
  return c;
}

string Hex(const void* p, size_t n) {
  string o;
  char b[4];
  for (size_t i = 0; i < n; ++i) { snprintf(b, sizeof b, "%02x", ((const unsigned char*)p)[i]); o += b; }
  return o;
}
string Dump(const TreeNode& t) {
  string o = "(";
  float s = t.score();
  o += Hex(&s, 4);
  if (t.has_split()) {
    double g = t.split().gain();
    o += t.split().feature() + Hex(&g, 8);
    if (t.split().has_float_split()) {
      float v = t.split().float_split().threshold();
      o += Hex(&v, 4) + (t.split().float_split().missing_to_right_child() ? "R" : "L");
    }
    for (auto& c : t.split().cat_split().category()) o += "," + c;
  }
  if (t.has_left_child()) o += Dump(t.left_child());
  if (t.has_right_child()) o += Dump(t.right_child());
  return o + ")";
}
string Dump(const Forest& f) {
  string o;
  for (auto& t : f.tree()) o += Dump(t);
  return o;
}

Forest BaseForest() {
  Forest f;
  f.add_tree()->set_score(0.7f);
  auto* t = f.add_tree();
  t->set_score(0.1f);
  t->mutable_split()->set_feature("f");
  t->mutable_split()->mutable_float_split()->set_threshold(1.1f);
  t->mutable_split()->mutable_float_split()->set_missing_to_right_child(true);
  t->mutable_left_child()->set_score(-0.3f);
  t->mutable_right_child()->set_score(0.9f);
  return f;
}

struct P {
  string loss;
  int n = 7, trees = 1, leaves = 2, threads = 2;
  bool base = false, weights = true, eval = true, sample = false, wide = false, two = false;
};

string Train(const P& p) {
  FLAGS_num_threads = p.threads;
  Subsampling::Reseed(12345);
  auto ds = Data(p.n, p.wide, p.two);
  Config c = BaseConfig(p.loss, p.trees, p.leaves);
  bool binary = p.loss == "logloss" || p.loss == "huberized_hinge";
  if (p.sample) { c.set_example_sampling_rate(0.7f); c.set_feature_sampling_rate(0.6f); }
  auto loss = LossFuncFactory::CreateLossFunc(c);
  Forest base = BaseForest(), forest;
  std::function<double(int)> w = [&](int i) { return p.weights ? (double)kW[i % 12] : 1.0; };
  std::function<double(int)> y = [&](int i) { return binary ? (kY[i % 12] > 1 ? 1.0 : -1.0) : (double)kY[i % 12]; };
  std::unordered_set<string> features = {"f", "s"};
  if (p.wide) for (int k = 0; k < 6; ++k) features.insert("x" + std::to_string(k));
  auto status = TrainGBDT(ds.get(), features, w, y, loss.get(), c, p.base ? &base : nullptr, &forest);
  mcrt::Assert(status.ok(), "training failed: " + status.ToString());
  string out = Dump(forest);
  if (p.eval) {
    vector<double> scores;
    mcrt::Assert(EvaluateForest(ds.get(), forest, &scores).ok(), "evaluation failed");
    out += "|" + Hex(scores.data(), scores.size() * 8);
  }
  // Long outcomes are compared by hash.
  uint64_t h = 1469598103934665603ull;
  for (unsigned char ch : out) h = (h ^ ch) * 1099511628211ull;
  return std::to_string(h) + " " + out.substr(0, 300);
}

string Evaluate(int n, int threads) {
  FLAGS_num_threads = threads;
  auto ds = Data(n);
  Forest f = BaseForest();
  auto* t = f.add_tree();
  t->mutable_split()->set_feature("s");
  t->mutable_split()->mutable_cat_split()->add_category("a");
  t->mutable_split()->mutable_cat_split()->add_category("never");
  t->mutable_left_child()->set_score(0.123f);
  t->mutable_right_child()->set_score(-0.77f);
  vector<double> scores;
  mcrt::Assert(EvaluateForest(ds.get(), f, &scores).ok(), "evaluation failed");
  string out;
  for (int i = 0; i < n; ++i) {
    double want = 0.0;
    want += 0.7f;
    want += (!std::isnan(kF[i % 12]) && kF[i % 12] < 1.1f) ? -0.3f : 0.9f;
    want += !strcmp(kS[i % 12], "a") ? 0.123f : -0.77f;
    mcrt::Assert(std::fabs(scores[i] - want) < 1e-6, "row " + std::to_string(i) + " has a wrong score");
  }
  return Hex(scores.data(), scores.size() * 8);
}

mcrt::Scenario T(const string& name, P p, int quick, int thorough) {
  mcrt::Scenario s;
  s.name = name;
  s.setup = [p] {
    FLAGS_minloglevel = 4;
    // Warm up whatever initializes itself once.
    P q = p;
    q.threads = 1;
    Train(q);
  };
  s.run = [p] { return Train(p); };
  s.quick_bound = quick;
  s.thorough_bound = thorough;
  s.horizon = 20000;
  return s;
}

}  // namespace

int main(int argc, char** argv) {
  vector<mcrt::Scenario> v;
  for (const char* loss : {"mse", "logloss", "huberized_hinge", "pairwise_logloss", "gbrank", "auc", "lambdamart"}) {
    P p;
    p.loss = loss;
    p.n = 7;
    v.push_back(T(string("train_") + loss, p, 1, 2));
  }
  {
    P p; p.loss = "mse"; p.n = 6; p.base = true; p.trees = 2; p.leaves = 3;
    v.push_back(T("base_forest_two_trees", p, 1, 1));
    P q; q.loss = "logloss"; q.n = 12; q.threads = 3; q.trees = 1; q.leaves = 3;
    v.push_back(T("three_threads", q, 1, 1));
    P r; r.loss = "lambdamart"; r.n = 12; r.threads = 3; r.trees = 2; r.weights = false; r.sample = true;
    v.push_back(T("lambdamart_three_threads_sampling", r, 1, 1));
  }
  for (int t : {1, 2, 3}) {
    mcrt::Scenario s;
    s.name = "evaluate_" + std::to_string(t);
    s.setup = [] { FLAGS_minloglevel = 4; Evaluate(3, 1); };
    s.run = [t] { return Evaluate(12, t); };
    s.quick_bound = t == 1 ? 2 : 1;
    s.thorough_bound = t == 1 ? 4 : t == 2 ? 3 : 2;
    v.push_back(s);
  }
  // Small runs on the schedule that switches at every point, and all with a deviation from it.
  for (const char* loss : {"mse", "logloss", "huberized_hinge", "pairwise_logloss", "gbrank", "auc", "lambdamart"}) {
    P p;
    p.loss = loss; p.n = 12; p.threads = 2 + (loss[0] == 'l'); p.leaves = 2;
    auto s = T(string("rotating_") + loss, p, 1, 1);
    s.rotate = true;
    v.push_back(s);
  }
  // Two large groups.
  for (const char* loss : {"pairwise_logloss", "lambdamart"})
    for (int rotate = 0; rotate < 2; ++rotate) {
      P p;
      p.loss = loss; p.n = 40; p.leaves = 2; p.two = true; p.eval = false;
      auto s = T(string(rotate ? "rotating_" : "") + "two_groups_" + loss, p, 1, 1);
      s.rotate = rotate;
      v.push_back(s);
    }
  // Longer data and more threads: the default schedule that switches at every point, so that all threads take part.
  for (const char* loss : {"mse", "pairwise_logloss"})
    for (int threads : {4, 6, 9, 17, 33}) {
      P p;
      p.loss = loss; p.n = 96; p.threads = threads; p.trees = 1; p.leaves = threads == 33 ? 2 : 3; p.wide = true;
      auto s = T(string("wide_") + loss + "_" + std::to_string(threads) + "_threads", p, 0, threads == 4);
      s.rotate = true;
      v.push_back(s);
    }
  // More threads, one of which may stall anywhere.
  for (const char* loss : {"mse", "auc"})
    for (int threads : {6, 9}) {
      P p;
      p.loss = loss; p.n = 48; p.threads = threads; p.eval = false;
      v.push_back(T(string("stall_") + loss + "_" + std::to_string(threads) + "_threads", p, loss[0] == 'm' && threads == 6, 1));
    }
  for (int t : {5, 12}) {
    mcrt::Scenario s;
    s.name = "evaluate_wide_" + std::to_string(t);
    s.setup = [] { FLAGS_minloglevel = 4; Evaluate(3, 1); };
    s.run = [t] { return Evaluate(120, t); };
    s.quick_bound = s.thorough_bound = 0;
    s.rotate = true;
    v.push_back(s);
  }
  return mcrt::Main(argc, argv, v);
}
