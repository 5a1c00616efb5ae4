// C25: training with every small assignment of row weights, against training on repeated rows.
#include "boostcheck.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/utils.h"

using namespace ref;
using std::string;
using std::vector;

namespace {

struct Set { const char* loss; int trees, leaves; float shrinkage; double lambda, min_hessian, min_gain; int threads; };
const Set kSets[] = {{"mse", 2, 2, 0.5f, 0, 0, 0, 1}, {"logloss", 2, 3, 0.5f, 1, 0, 0, 1}, {"mse", 2, 3, 1, 0.5, 1.5, 0, 2}, {"huberized_hinge", 2, 2, 0.25f, 0.5, 0, 0.125, 1},
                     {"mse", 1, 4, 1, 0, 2.5, 0.5, 1}, {"logloss", 1, 4, 1, 0.25, 0.3, 0, 1}};

string ShowSet(const Config& c, const Data& d, const vector<float>& y, const vector<float>& w) {
  std::ostringstream o;
  o << c.loss_func() << " trees=" << c.num_trees() << " leaves=" << c.num_leaves() << " shrinkage=" << c.shrinkage() << " lambda=" << c.l2_lambda()
    << " min_hessian=" << c.min_hessian() << " min_gain=" << c.min_gain() << " threads=" << FLAGS_num_threads << " " << d.Show() << " y=";
  for (float v : y) o << v << " ";
  o << " w=";
  for (float v : w) o << v << " ";
  return o.str() + ": ";
}
Config Make(const Set& s) {
  Config c = TrainConfig(s.loss, s.trees, s.leaves, s.shrinkage, s.lambda);
  c.set_min_hessian(s.min_hessian);
  c.set_min_gain(s.min_gain);
  return c;
}

// The forest trained with weights is one that training on repeated rows may give.
void CheckMult(mc::Runner& r, const Data& d, const vector<float>& y, const vector<int>& mult, const Config& c, const vector<string>& features) {
  vector<float> w(mult.begin(), mult.end());
  Forest f;
  auto st = Train(d, y, w, c, features, nullptr, &f);
  auto what = [&] { return ShowSet(c, d, y, w); };
  r.Step(c.num_trees());
  if (!st.ok()) {
    // Then so does training on the repeated rows.
    vector<int> rows;
    vector<float> ry;
    for (int i = 0; i < d.n; ++i) for (int k = 0; k < mult[i]; ++k) { rows.push_back(i); ry.push_back(y[i]); }
    Forest g;
    if (Train(d.Rows(rows), ry, {}, c, features, nullptr, &g).ok()) r.Fail(what() + "training fails: " + st.ToString());
    r.Count("diverged");
    return;
  }
  string e = CheckBoosting(d, y, mult, c, features, nullptr, f);
  if (!e.empty()) r.Fail(what() + e + "\n forest " + Show(f));
  r.State(Show(f));
}

vector<double> Scores(const Forest& f, const Data& d) {
  vector<double> s;
  for (int i = 0; i < d.n; ++i) s.push_back(Score(f, d, i));
  return s;
}

void Body(mc::Runner& r) {
  Init();
  const float fv[] = {1, 2, NAN};
  const char* sv[] = {"a", "b"};
  // 1. Every multiset of rows (3 float values, 2 categories, 2 targets) with every assignment of weights 0 to 2 (3).
  for (int n = 1; n <= 4; ++n)
    Multisets(n == 4 && !r.thorough ? 6 : 12, n, [&](const vector<int>& m) {
      if (r.Done()) return;
      if (!r.Next([=] { return "rows " + ShowV(m); })) return;
      Data d;
      d.n = n;
      vector<float> y, yb;
      int sum = 0, wide = n == 4 && !r.thorough;
      for (int i = 0; i < n; ++i) {
        int x = m[i];
        d.floats["f"].push_back(fv[x % 3]);
        d.strings["s"].push_back(wide ? sv[i % 2] : sv[x / 3 % 2]);
        int t = wide ? x / 3 : x / 6;
        y.push_back(t ? 3.5f : -1);
        yb.push_back(t ? 1 : -1);
        sum += x;
      }
      Sequences(r.thorough ? 4 : 3, n, [&](const vector<int>& mult) {
        int tot = 0;
        for (int x : mult) tot += x;
        if (tot == 0) return;
        for (int k = 0; k < (r.thorough || n < 3 ? 6 : 1); ++k) {
          const Set& s = kSets[(sum + tot * 5 + k) % 6];
          FLAGS_num_threads = s.threads;
          CheckMult(r, d, s.loss[0] == 'm' ? y : yb, mult, Make(s), {"f", "s"});
        }
      });
    });
  // 2. Data without ties: predictions with weights and on repeated rows; rows of weight zero left out; scaled weights.
  for (const char* loss : {"mse", "logloss", "huberized_hinge"})
    for (int seed = 0; seed < (r.thorough ? 60 : 16); ++seed)
      for (int variant = 0; variant < 6; ++variant) {
        if (r.Done()) return;
        if (!r.Next([=] { return string(loss) + " data set " + std::to_string(seed) + " variant " + std::to_string(variant); })) continue;
        Generic g(seed + 700, 9 + seed % 12);
        const auto& y = loss[0] == 'm' ? g.y : g.yb;
        Config c = TrainConfig(loss, 3, 3 + seed % 3, 0.3f, variant == 5 ? 0 : 0.2);
        if (variant == 1) c.set_min_hessian(loss[0] == 'm' ? 3 : 0.6);
        if (variant == 2) c.set_min_gain(0.05);
        FLAGS_num_threads = 1 + variant % 4;
        vector<float> w, ry;
        vector<int> rows;
        for (int i = 0; i < g.d.n; ++i) {
          int k = (i * 7 + seed * 3 + i * i) % (variant == 4 ? 11 : 4);
          w.push_back(k);
          for (int j = 0; j < k; ++j) { rows.push_back(i); ry.push_back(y[i]); }
        }
        // Repeated rows in another order.
        if (seed % 2) { std::reverse(rows.begin(), rows.end()); std::reverse(ry.begin(), ry.end()); }
        Data rep = g.d.Rows(rows);
        Forest a, b;
        auto sa = Train(g.d, y, w, c, g.features, nullptr, &a, 3), sb = Train(rep, ry, {}, c, g.features, nullptr, &b, 4);
        r.Step(6);
        auto what = [&] { return ShowSet(c, g.d, y, w) + "\n weighted " + Show(a) + "\n repeated " + Show(b); };
        if (sa.ok() != sb.ok()) r.Fail(what() + ": one of the two trainings fails");
        if (!sa.ok()) { r.Count("diverged"); continue; }
        string e = CheckBoosting(g.d, y, vector<int>(w.begin(), w.end()), c, g.features, nullptr, a);
        if (!e.empty()) r.Fail(what() + ": " + e);
        e = CheckBoosting(rep, ry, {}, c, g.features, nullptr, b);
        if (!e.empty()) r.Fail(what() + ": repeated: " + e);
        // Two targets leave ties between splits; otherwise, only rows of weight zero may differ.
        if (loss[0] == 'm') for (int i = 0; i < g.d.n; ++i)
          if (w[i] > 0 && !Near(Score(a, g.d, i), Score(b, g.d, i), 1e-4))
            r.Fail(what() + ": row " + std::to_string(i) + " scores " + std::to_string(Score(a, g.d, i)) + " with weights and " + std::to_string(Score(b, g.d, i)) + " with repeated rows");
        r.State(Show(a));
        if (variant != 5) continue;
        // Weights without ties.
        w = g.w;
        for (auto& x : w) x *= 2;
        a.Clear();
        if (!Train(g.d, y, w, c, g.features, nullptr, &a, 3).ok()) r.Fail(what() + ": training fails");
        // All weights times a factor.
        for (float scale : {2.0f, 0.5f, 8.0f, 0.125f, 3.0f, 0.7f, 1024.0f, 1073741824.0f, 1152921504606846976.0f}) {
          // Rows without curvature: sums have to be exact to tell a leaf without any curvature.
          if (loss[0] == 'h' && std::log2(scale) != std::floor(std::log2(scale))) continue;
          vector<float> sw = w;
          for (auto& x : sw) x *= scale;
          Forest s;
          auto ss = Train(g.d, y, sw, c, g.features, nullptr, &s, 5);
          if (!ss.ok()) r.Fail(what() + ": training with scaled weights fails: " + ss.ToString());
          for (int i = 0; i < g.d.n; ++i)
            if (!Near(Score(a, g.d, i), Score(s, g.d, i), 1e-4))
              r.Fail(what() + ": row " + std::to_string(i) + " scores " + std::to_string(Score(s, g.d, i)) + " instead of " + std::to_string(Score(a, g.d, i)) + " with weights times " + std::to_string(scale) + "\n scaled " + Show(s));
          r.Step(3);
        }
      }
  // 3. A row of weight zero has no influence, whatever its values are.
  for (const char* loss : {"mse", "logloss", "huberized_hinge"})
    for (int seed = 0; seed < (r.thorough ? 30 : 6); ++seed)
      for (int where = 0; where < 3; ++where)
        for (int what = 0; what < 6; ++what) {
          if (r.Done()) return;
          if (!r.Next([=] { return string(loss) + " row of weight zero " + std::to_string(seed) + " at " + std::to_string(where) + " kind " + std::to_string(what); })) continue;
          Generic g(seed + 900, 8 + seed);
          auto y = loss[0] == 'm' ? g.y : g.yb;
          auto w = g.w;
          Config c = TrainConfig(loss, 3, 4, 0.3f, 0.2);
          FLAGS_num_threads = 1 + what % 3;
          Forest a, b;
          r.Check(Train(g.d, y, w, c, g.features, nullptr, &a, 3).ok(), "training fails");
          int at = where == 0 ? 0 : where == 1 ? g.d.n / 2 : g.d.n;
          Data e = g.d;
          auto ins = [&](float f, float gg, const char* s, float t) {
            e.floats["f"].insert(e.floats["f"].begin() + at, f);
            e.floats["g"].insert(e.floats["g"].begin() + at, gg);
            e.strings["s"].insert(e.strings["s"].begin() + at, s);
            e.strings["group"].insert(e.strings["group"].begin() + at, "x");
            y.insert(y.begin() + at, t);
            w.insert(w.begin() + at, 0);
            ++e.n;
          };
          float bt = loss[0] == 'm' ? 1e6f : 1;
          if (what == 0) ins(NAN, NAN, kMissing, bt);
          if (what == 1) ins(1e9, -1e9, "a", -bt);
          if (what == 2) ins(-1e9, 1e9, "new", bt);
          if (what == 3) ins(g.d.floats["f"][3], g.d.floats["g"][2], "b", -bt);
          if (what == 4) ins(0, 0, "", bt);
          if (what == 5) { ins(150, 17, "c", bt); ins(-5, 5, "d", -bt); ins(NAN, 3, "a", bt); }
          r.Check(Train(e, y, w, c, g.features, nullptr, &b, 3).ok(), "training fails");
          for (int i = 0; i < g.d.n; ++i)
            if (!Near(Score(a, g.d, i), Score(b, g.d, i), 1e-4))
              r.Fail("row " + std::to_string(i) + " scores " + std::to_string(Score(b, g.d, i)) + " instead of " + std::to_string(Score(a, g.d, i)) + "\n without the row " + Show(a) + "\n with it " + Show(b));
          r.State(Show(b));
          r.Step(6);
        }
  // 4. Weights given by a column and directly.
  for (int n : {1, 3, 10})
    for (int kind = 0; kind < 4; ++kind)
      for (const char* loss : {"mse", "logloss", "pairwise_logloss", "lambdamart"}) {
        if (!r.Next([=] { return string(loss) + " weight column " + std::to_string(n) + " kind " + std::to_string(kind); })) continue;
        Generic g(n + kind, n + 4);
        for (int i = 0; i < g.d.n; ++i) g.d.raws["w"].push_back(kind == 0 ? 1 : kind == 1 ? i % 3 : kind == 2 ? g.w[i] : 1e-3f * i + 0.5f);
        g.d.raws["other"] = g.w;
        Config c = TrainConfig(loss, 3, 4, 0.3f, 0.3);
        if (kind) c.set_weight_column("w");
        auto ds = g.d.Store();
        FLAGS_num_threads = 1 + n % 3;
        auto w = gbdt::GetSampleWeightsOrDie(c, ds.get());
        for (int i = 0; i < g.d.n; ++i) r.Check(w(i) == g.d.raws["w"][i], "the weight column says " + std::to_string(g.d.raws["w"][i]) + " for row " + std::to_string(i) + ", the weights are " + std::to_string(w(i)));
        const auto& y = !strcmp(loss, "logloss") ? g.yb : g.y;
        Forest a, b;
        r.Check(Train(g.d, y, g.d.raws["w"], c, g.features, nullptr, &a, 3).ok(), "training fails");
        gbdt::Subsampling::Reseed(3);
        auto lf = gbdt::LossFuncFactory::CreateLossFunc(c);
        r.Check(gbdt::TrainGBDT(ds.get(), {"f", "g", "s"}, w, [&](int i) { return y[i]; }, lf.get(), c, nullptr, &b).ok(), "training fails");
        r.Check(Bits(a) == Bits(b), "the weight column gives another forest than the weights");
        r.Step(6);
        r.State(Show(a));
      }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
