// C05: every forest over a menu of splits, on every kind of row, in several orders, sizes and thread counts.
#include <float.h>

#include "common.h"
#include "src/gbdt_algo/evaluation.h"

using namespace ref;
using std::string;
using std::vector;

namespace {

string Num(double x) { std::ostringstream o; o << x; return o.str(); }

const float kThr[] = {0.5f, 1.0f, -1.0f, INFINITY, 1e-40f, -INFINITY, NAN, -FLT_MAX, FLT_MAX};

vector<TreeNode> Splits(bool all) {
  vector<TreeNode> v;
  for (float t : kThr)
    for (bool r : {false, true}) v.push_back(FloatSplit("f", t, r));
  if (all)
    for (bool r : {false, true}) v.push_back(FloatSplit("g", 2.0f, r));
  // Any subset of the missing marker, two seen categories, the empty string and one never seen.
  const char* cats[] = {"a", kMissing, "b", "unseen", ""};
  for (int m = 0; m < 32; ++m) {
    if (!all && (m & 16)) continue;
    vector<string> c;
    for (int k = 0; k < 5; ++k) if (m >> k & 1) c.push_back(cats[k]);
    v.push_back(CatSplit("s", c));
  }
  return v;
}

// All rows: every float value with every category.
Data AllRows() {
  Data d;
  const float fv[] = {0.25f, 1.0f, NAN, 0.5f, -1.0f, INFINITY, 0.0f, -3.5f, FLT_MAX, -INFINITY};
  const char* sv[] = {"b", "a", kMissing, "", "other"};
  for (float f : fv)
    for (auto s : sv) {
      d.floats["f"].push_back(f);
      d.floats["g"].push_back(d.n % 3 == 0 ? NAN : d.n % 3 == 1 ? 1.5f : 2.0f);
      d.strings["s"].push_back(s);
      ++d.n;
    }
  return d;
}

struct Variant { string name; vector<int> rows; int threads; };

struct Env {
  Data all;
  vector<Variant> variants;
  vector<Data> data;
  vector<std::unique_ptr<DataStore>> stores;
  vector<Data> single;
  vector<std::unique_ptr<DataStore>> single_stores;
  Env() {
    all = AllRows();
    vector<int> id, rev, rot;
    for (int i = 0; i < all.n; ++i) { id.push_back(i); rev.push_back(all.n - 1 - i); rot.push_back((i * 7 + 3) % all.n); }
    variants = {{"in order, 1 thread", id, 1}, {"reversed, 2 threads", rev, 2}, {"shuffled, 3 threads", rot, 3},
                {"nine rows, 4 threads", vector<int>(rot.begin(), rot.begin() + 9), 4},
                {"repeated rows, 2 threads", {5, 5, 0, 12, 12, 12, 7}, 2}};
    for (auto& v : variants) { data.push_back(all.Rows(v.rows)); stores.push_back(data.back().Store()); }
  }
};

void CheckForest(mc::Runner& r, Env& e, const Forest& f, size_t variant) {
  FLAGS_num_threads = e.variants[variant].threads;
  vector<double> scores(3, 77.0);  // stale contents have to go
  auto st = gbdt::EvaluateForest(e.stores[variant].get(), f, &scores);
  const Data& d = e.data[variant];
  string what = e.variants[variant].name + ", forest " + Show(f);
  r.Check(st.ok(), what + ": " + st.ToString());
  r.Check((int)scores.size() == d.n, what + ": " + std::to_string(scores.size()) + " scores for " + std::to_string(d.n) + " rows");
  for (int i = 0; i < d.n; ++i) {
    double want = Score(f, d, i);
    r.Check(Near(scores[i], want, 1e-9), what + ": row f=" + std::to_string(d.floats.at("f")[i]) + " g=" +
            std::to_string(d.floats.at("g")[i]) + " s='" + d.strings.at("s")[i] + "' scores " +
            std::to_string(scores[i]) + " instead of " + std::to_string(want));
    r.Step();
    uint64_t b;
    memcpy(&b, &scores[i], 8);
    r.State(mc::Mix(mc::Mix(b, i), variant));
  }
}

void Body(mc::Runner& r) {
  Init();
  Env e;
  vector<TreeNode> sp = Splits(true), small = Splits(r.thorough);
  // Two-level trees: each child is a leaf or a split.
  auto child = [&](const vector<TreeNode>& menu, int k, float base) {
    return k == 0 ? Leaf(base) : Node(menu[k - 1], Leaf(base * 3 + 0.25f), Leaf(base * 5 - 0.125f));
  };
  long idx = 0;
  for (size_t a = 0; a < sp.size(); ++a)
    for (size_t b = 0; b <= small.size(); ++b)
      for (size_t c = 0; c <= small.size(); ++c) {
        ++idx;
        // Both children vary together only in the thorough tier.
        if (!r.thorough && b != 0 && c != 0 && (b + c) % 5 != 0) continue;
        if (!r.Next([=] { return "tree " + std::to_string(a) + "/" + std::to_string(b) + "/" + std::to_string(c); })) {
          if (r.Done()) return;
          continue;
        }
        Forest f;
        *f.add_tree() = Node(sp[a], child(small, b, 1.0f), child(small, c, -16.0f));
        for (size_t v = 0; v < e.variants.size(); ++v)
          if (r.thorough || v < 2 || (idx % 3) + 2 == (long)v) CheckForest(r, e, f, v);
      }
  // Scores of every size and sign, in forests of some equal trees.
  for (double s : {0.0, 1.0, -1.0, 1e-3, -1e-3, 1e-7, -1e-7, 1e-12, -1e-12, 1e-30, -1e-30, 1e5, -1e5, 1e10, -1e10, 1e30, -1e30})
    for (int T = 1; T <= 6; ++T)
      for (int kind = 0; kind < 4; ++kind) {
        if (!r.Next([=] { return std::to_string(T) + " trees of kind " + std::to_string(kind) + " with the score " + Num(s); })) continue;
        Data d;
        d.n = 3;
        d.floats["f"] = {1, 2, NAN};
        auto ds = d.Store();
        Forest f;
        for (int k = 0; k < T; ++k) {
          if (kind == 0 || (kind == 3 && k % 2)) *f.add_tree() = Leaf(s);
          else if (kind == 1) *f.add_tree() = Node(FloatSplit("f", 1.5f, false), Leaf(s), Leaf(-s));
          else if (kind == 2) *f.add_tree() = Node(FloatSplit("f", 1.5f, true), Leaf(0), Node(FloatSplit("f", 3, false), Leaf(s), Leaf(2 * s)));
          else *f.add_tree() = Node(FloatSplit("f", 0.5f, false), Leaf(s), Leaf(s));
        }
        vector<double> scores;
        auto st = gbdt::EvaluateForest(ds.get(), f, &scores);
        r.Step();
        r.Check(st.ok() && (int)scores.size() == d.n, "evaluation failed");
        for (int i = 0; i < d.n; ++i) {
          double want = Score(f, d, i);
          if (!(fabs(scores[i] - want) <= 1e-9 * fabs(want))) r.Fail("row " + std::to_string(i) + " scores " + Num(scores[i]) + " instead of " + Num(want));
          r.State(Num(want));
        }
      }
  // Forests of several trees, constants in any position.
  for (size_t a = 0; a < sp.size(); ++a)
    for (size_t b = 0; b < sp.size(); ++b)
      for (int pos = 0; pos < 4; ++pos) {
        if (!r.Next([=] { return "forest " + std::to_string(a) + "," + std::to_string(b) + " constant at " + std::to_string(pos); })) {
          if (r.Done()) return;
          continue;
        }
        Forest f;
        for (int k = 0; k < 3; ++k) {
          if (k == pos) *f.add_tree() = Leaf((a + b) % 2 ? 0.7f : -0.7f);
          if (k == 0) *f.add_tree() = Node(sp[a], Leaf(1), Leaf(2));
          if (k == 1) *f.add_tree() = Node(sp[b], Leaf(10), Leaf(20));
        }
        for (size_t v = 0; v < e.variants.size(); ++v)
          if (r.thorough || (a + b + pos) % e.variants.size() == v) CheckForest(r, e, f, v);
      }
  // Every number of rows with every number of threads.
  for (int n = 0; n <= (r.thorough ? 40 : 24); ++n)
    for (int t = 1; t <= 6; ++t) {
      if (!r.Next([=] { return std::to_string(n) + " rows, " + std::to_string(t) + " threads"; })) continue;
      vector<int> rows;
      for (int i = 0; i < n; ++i) rows.push_back((i * 11) % e.all.n);
      Data d = e.all.Rows(rows);
      if (n == 0) { d.floats["f"]; d.floats["g"]; d.strings["s"]; }
      auto ds = d.Store();
      FLAGS_num_threads = t;
      Forest f;
      *f.add_tree() = Node(sp[0], Node(sp[20], Leaf(1), Leaf(2)), Leaf(4));
      *f.add_tree() = Node(sp[15], Leaf(16), Leaf(32));
      vector<double> scores;
      auto st = gbdt::EvaluateForest(ds.get(), f, &scores);
      r.Check(st.ok() && (int)scores.size() == n, "evaluation failed");
      for (int i = 0; i < n; ++i) r.Check(Near(scores[i], Score(f, d, i), 1e-9), "row " + std::to_string(i) + " has a wrong score");
      r.Step(n);
    }
  // Single rows: the order in which categories appear and the other rows must not matter.
  for (int i = 0; i < e.all.n; ++i)
    for (size_t a = 0; a < sp.size(); ++a) {
      if (!r.Next([=] { return "row " + std::to_string(i) + " alone, split " + std::to_string(a); })) continue;
      Data d = e.all.Rows({i});
      auto ds = d.Store();
      FLAGS_num_threads = 1 + a % 3;
      Forest f;
      *f.add_tree() = Node(sp[a], Leaf(1), Node(sp[(a * 5 + 1) % sp.size()], Leaf(2), Leaf(3)));
      vector<double> scores;
      auto st = gbdt::EvaluateForest(ds.get(), f, &scores);
      r.Check(st.ok() && scores.size() == 1, "evaluation failed");
      r.Check(Near(scores[0], Score(f, d, 0), 1e-9), "alone, the row scores " + std::to_string(scores[0]) + " instead of " + std::to_string(Score(f, d, 0)) + " under " + Show(f));
      r.Step();
    }
  // More distinct values than buckets: values that share a bucket count as the largest of them.
  const float bv[] = {-2, -0.5f, 0, 1, 2.5f, 7, NAN};
  for (int n = 2; n <= (r.thorough ? 7 : 6); ++n)
    Multisets(7, n, [&](const vector<int>& m) {
      if (r.Done()) return;
      if (!r.Next([=] { return "shared buckets " + ShowV(m); })) return;
      for (int budget = 1; budget < n; ++budget) {
        vector<float> v;
        for (size_t i = 0; i < m.size(); ++i) v.push_back(bv[m[(i * 5 + budget) % m.size()]]);
        auto col = Column::CreateBucketizedFloatColumn("f", v, budget);
        const auto* b = static_cast<const BucketizedFloatColumn*>(col.get());
        Data d;
        d.n = v.size();
        for (int i = 0; i < d.n; ++i) {
          float top = v[i];
          for (int k = 0; k < d.n; ++k) if (b->col()[k] == b->col()[i]) top = std::max(top, v[k]);
          d.floats["f"].push_back(top);
        }
        DataStore ds;
        ds.Add(std::move(col));
        FLAGS_num_threads = 1 + budget % 2;
        for (size_t t = 0; t < 12; ++t)
          for (bool right : {false, true}) {
            Forest f;
            float thr = t % 2 ? bv[t / 2] : bv[t / 2] - 0.125f;
            *f.add_tree() = Node(FloatSplit("f", thr, right), Leaf(1), Leaf(2));
            vector<double> scores;
            auto st = gbdt::EvaluateForest(&ds, f, &scores);
            r.Step();
            if (!st.ok() || (int)scores.size() != d.n) r.Fail("evaluation failed");
            for (int i = 0; i < d.n; ++i)
              if (!Near(scores[i], Score(f, d, i), 1e-9))
                r.Fail("budget " + std::to_string(budget) + " threshold " + std::to_string(thr) + ": row " + std::to_string(i) + " with value " + std::to_string(v[i]) +
                       " in a bucket up to " + std::to_string(d.floats["f"][i]) + " scores " + std::to_string(scores[i]));
          }
      }
    });
  // Deep chains, with rows that leave at every depth.
  for (int depth : {2, 7, 8, 15, 16, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 300})
    for (int kind = 0; kind < 4; ++kind) {
      if (!r.Next([=] { return "chain of depth " + std::to_string(depth) + " kind " + std::to_string(kind); })) continue;
      Data d;
      d.n = depth + 3;
      for (int i = 0; i < d.n; ++i) {
        d.floats["f"].push_back(i == d.n - 1 ? NAN : i);
        d.strings["s"].push_back("c" + std::to_string(i));
      }
      auto ds = d.Store();
      // The chain hangs on the left, on the right, or on either side in turn.
      TreeNode t = Leaf(-7);
      for (int k = depth; k >= 1; --k) {
        bool left = kind == 0 || kind == 3 || (kind == 2 && k % 2);
        TreeNode leaf = Leaf(k * 2 + 0.5f);
        TreeNode split;
        if (kind == 3) {
          vector<string> rest;
          for (int i = k; i < d.n; ++i) rest.push_back("c" + std::to_string(i));
          split = CatSplit("s", rest);
        } else {
          split = kind == 0 ? FloatSplit("f", depth - k + 1, k % 3 == 0) : kind == 1 ? FloatSplit("f", k, k % 3 == 0)
                  : left ? FloatSplit("f", depth - k / 2, false) : FloatSplit("f", k / 2, true);
        }
        t = left ? Node(split, t, leaf) : Node(split, leaf, t);
      }
      for (int threads : {1, 3}) {
        FLAGS_num_threads = threads;
        Forest f;
        *f.add_tree() = t;
        *f.add_tree() = Leaf(1000);
        vector<double> scores;
        auto st = gbdt::EvaluateForest(ds.get(), f, &scores);
        r.Check(st.ok() && (int)scores.size() == d.n, "evaluation failed");
        for (int i = 0; i < d.n; ++i) {
          double want = Score(f, d, i);
          if (!Near(scores[i], want, 1e-9)) r.Fail("row " + std::to_string(i) + " scores " + std::to_string(scores[i]) + " instead of " + std::to_string(want));
          r.State(mc::Mix(mc::Hash("chain" + std::to_string(kind)), (uint64_t)want * 4096 + depth));
        }
        r.Step(d.n);
      }
    }
  // Many trees.
  for (int trees : {64, 255, 256, 257, 1000, 5000}) {
    if (!r.Next([=] { return std::to_string(trees) + " trees"; })) continue;
    Data d = e.all;
    auto ds = d.Store();
    Forest f;
    for (int k = 0; k < trees; ++k) *f.add_tree() = k % 5 == 4 ? Leaf(0.125f * (k % 16)) : Node(sp[k % sp.size()], Leaf(0.25f * (k % 64)), Leaf(-0.5f * (k % 32)));
    FLAGS_num_threads = 1 + trees % 4;
    vector<double> scores;
    auto st = gbdt::EvaluateForest(ds.get(), f, &scores);
    r.Check(st.ok() && (int)scores.size() == d.n, "evaluation failed");
    for (int i = 0; i < d.n; ++i) if (!Near(scores[i], Score(f, d, i), 1e-9)) r.Fail("row " + std::to_string(i) + " has a wrong score");
    r.Step(d.n);
  }
  // Many categories and many distinct values, and a split on the last ones.
  for (int cats : {255, 256, 257, 1000, 65535, 65536, 65537, 70000, 140000}) {
    if (!r.Next([=] { return std::to_string(cats) + " categories"; })) continue;
    Data d;
    d.n = cats + 2;
    vector<float> f(d.n);
    vector<string> s(d.n);
    for (int i = 0; i < d.n; ++i) { f[i] = i < cats ? i : i - cats; s[i] = "c" + std::to_string(i < cats ? i : i - cats); }
    d.floats["f"] = f;
    d.strings["s"] = s;
    auto ds = d.Store();
    const int last = cats - 1;
    Forest fo;
    *fo.add_tree() = Node(CatSplit("s", {"c" + std::to_string(last), "c1", "unseen"}), Leaf(1), Leaf(2));
    *fo.add_tree() = Node(CatSplit("s", {"c" + std::to_string(last - 3)}), Leaf(4), Leaf(0));
    if (cats <= 1000) *fo.add_tree() = Node(FloatSplit("f", last, true), Leaf(16), Leaf(32));
    FLAGS_num_threads = 1 + cats % 3;
    vector<double> scores;
    auto st = gbdt::EvaluateForest(ds.get(), fo, &scores);
    r.Check(st.ok() && (int)scores.size() == d.n, "evaluation failed");
    for (int i = 0; i < d.n; ++i) {
      int k = i < cats ? i : i - cats;
      double want = (k == last || k == 1 ? 1 : 2) + (k == last - 3 ? 4 : 0) + (cats > 1000 ? 0 : k < last ? 16 : 32);
      if (scores[i] != want) r.Fail("row " + std::to_string(i) + " scores " + std::to_string(scores[i]) + " instead of " + std::to_string(want));
    }
    r.Step(d.n);
  }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
