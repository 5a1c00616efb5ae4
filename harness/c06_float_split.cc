// C06: FindBestSplit on every small bucketized float feature against all partitions by a threshold.
#include "common.h"
#include "src/gbdt_algo/split_algo.h"
#include "src/loss_func/gradient_data.h"

using namespace ref;
using gbdt::GradientData;
using gbdt::Split;
using std::string;
using std::vector;

namespace {

struct Row { float v; double g, h; float w; };
struct Cfg { double lambda, min_hessian, min_gain; };

double Energy(double g, double h, double l) { return h + l == 0 ? 0 : g * g / (h + l); }

string ShowRows(const vector<Row>& rows, const Cfg& c) {
  std::ostringstream o;
  o.precision(9);
  for (auto& x : rows) o << "(v=" << x.v << " g=" << x.g << " h=" << x.h << " w=" << x.w << ") ";
  o << "lambda=" << c.lambda << " min_hessian=" << c.min_hessian << " min_gain=" << c.min_gain;
  return o.str();
}

// The sums of both sides decide; equality of floating sums is exact for the dyadic data used here.
void CheckCase(mc::Runner& r, const vector<Row>& rows, const Cfg& c, int budget, bool subset) {
  vector<float> v;
  vector<GradientData> gd;
  for (auto& x : rows) { v.push_back(x.v); gd.emplace_back(x.g, x.h); }
  auto col = Column::CreateBucketizedFloatColumn("f", v, budget);
  // Some rows of the column are not in the node.
  vector<uint> samples;
  for (uint i = 0; i < rows.size(); ++i) if (!subset || i % 3 != 1) samples.push_back(i);
  if (subset) std::reverse(samples.begin(), samples.end());
  Config config;
  config.set_l2_lambda(c.lambda);
  config.set_min_hessian(c.min_hessian);
  config.set_min_gain(c.min_gain);
  auto w = [&](int i) { return rows[i].w; };
  GradientData total;
  for (uint i : samples) { total.g += rows[i].w * rows[i].g; total.h += rows[i].w * rows[i].h; }

  // Reference: every threshold and side of the missing values. Values in one bucket are inseparable.
  const auto* fc = static_cast<const BucketizedFloatColumn*>(col.get());
  std::set<float> uppers;
  for (uint i : samples) if (!std::isnan(v[i])) uppers.insert(budget < 1000 ? fc->get_row_max(i) : v[i]);
  double best = -1;
  double tot_e = Energy(total.g, total.h, c.lambda);
  // A threshold just above each value, and one below all of them.
  for (int cut = -1; cut < (int)uppers.size(); ++cut) {
    auto it = uppers.begin();
    if (cut >= 0) std::advance(it, cut);
    for (bool right : {false, true}) {
      double lg = 0, lh = 0;
      for (uint i : samples) {
        bool left = std::isnan(v[i]) ? !right : cut >= 0 && (budget < 1000 ? fc->get_row_max(i) : v[i]) <= *it;
        if (left) { lg += rows[i].w * rows[i].g; lh += rows[i].w * rows[i].h; }
      }
      double rg = total.g - lg, rh = total.h - lh;
      if (!(std::min(lh, rh) > c.min_hessian)) continue;
      best = std::max(best, Energy(lg, lh, c.lambda) + Energy(rg, rh, c.lambda) - tot_e);
    }
  }

  Split split;
  VectorSlice<uint> slice(samples);
  bool found = gbdt::FindBestSplit(col.get(), w, &gd, slice, config, total, &split);
  r.Step();
  r.State(mc::Mix(mc::Hash(std::to_string(split.gain()) + "/" + std::to_string(split.float_split().threshold()) +
                  (split.float_split().missing_to_right_child() ? "R" : "L")), found));
  string what = ShowRows(rows, c);
  if (!found) {
    r.Check(best <= std::max(c.min_gain, 1e-5) + 1e-9, what + ": no split, though one gains " + std::to_string(best));
    r.Count("no_split");
    return;
  }
  r.Count("split");
  r.Check(split.has_float_split() && !split.has_cat_split(), what + ": not a float split");
  r.Check(best > 0 && split.gain() > c.min_gain - 1e-9, what + ": split with gain " + std::to_string(split.gain()));
  r.Check(Near(split.gain(), best, 1e-9), what + ": gain " + std::to_string(split.gain()) + " instead of " + std::to_string(best));
  // The gain has to be the one of the sides that partitioning produces.
  vector<uint> part = samples;
  auto sides = gbdt::Partition(col.get(), split, VectorSlice<uint>(part));
  double g[2] = {0, 0}, h[2] = {0, 0};
  std::multiset<uint> seen;
  for (int s = 0; s < 2; ++s)
    for (uint i : s ? sides.second : sides.first) {
      seen.insert(i);
      g[s] += rows[i].w * rows[i].g;
      h[s] += rows[i].w * rows[i].h;
      // And they have to be what the split says.
      bool left = std::isnan(v[i]) ? !split.float_split().missing_to_right_child() : fc->get_row_max(i) < split.float_split().threshold();
      r.Check(left == (s == 0), what + ": row " + std::to_string(i) + " is on the wrong side");
    }
  r.Check(seen == std::multiset<uint>(samples.begin(), samples.end()), what + ": partitioning loses or repeats rows");
  double real = Energy(g[0], h[0], c.lambda) + Energy(g[1], h[1], c.lambda) - tot_e;
  r.Check(Near(real, split.gain(), 1e-9), what + ": threshold " + std::to_string(split.float_split().threshold()) +
          " gains " + std::to_string(real) + " instead of " + std::to_string(split.gain()));
  r.Check(std::min(h[0], h[1]) > c.min_hessian, what + ": a side has no more than the minimum hessian");
}

const Cfg kCfgs[] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 0.75}, {0.5, 0.5, 0.25}, {2, 1.5, 1}, {0, 0, 1}, {0, 3, 0}};

void Body(mc::Runner& r) {
  Init();
  // 1. All multisets of rows over 4 values and 6 kinds of gradients.
  const double gh[][2] = {{-1, 1}, {1, 1}, {2, 0.5}, {0, 1}, {-3, 2}, {2, 0}};
  const float val[] = {NAN, 1, 2, 3};
  const float ws[] = {1, 0.5, 2, 0};
  int maxn = r.thorough ? 6 : 5;
  for (int n = 0; n <= maxn; ++n) {
    Multisets(24, n, [&](const vector<int>& m) {
      if (r.Done()) return;
      if (!r.Next([=] { return "rows " + ShowV(m); })) return;
      vector<Row> rows;
      for (size_t i = 0; i < m.size(); ++i) rows.push_back({val[m[i] % 4], gh[m[i] / 4][0], gh[m[i] / 4][1], 1});
      // The order of the rows is arbitrary.
      for (size_t i = 1; i < rows.size(); ++i) std::swap(rows[i], rows[(i * 7 + n) % (i + 1)]);
      for (auto& c : kCfgs) CheckCase(r, rows, c, 30000, false);
      // With weights.
      for (size_t i = 0; i < rows.size(); ++i) rows[i].w = ws[(i + m[i]) % 4];
      CheckCase(r, rows, kCfgs[0], 30000, true);
      CheckCase(r, rows, kCfgs[4], 30000, false);
      CheckCase(r, rows, kCfgs[1], 2, false);
    });
  }
  // 2. Extreme values: every 4 rows over values whose middles are hard.
  float one = 1, next = nextafterf(1, 2), prev = nextafterf(1, 0), big = 3e38f;
  const float ext[] = {NAN, one, next, prev, -INFINITY, INFINITY, std::numeric_limits<float>::max(), -std::numeric_limits<float>::max(),
                       big, 0.0f, -0.0f, 1e-45f, -1e-45f, 1e9f, nextafterf(1e9f, 2e9f), std::numeric_limits<float>::min()};
  const int ne = sizeof ext / sizeof *ext;
  for (int n = 2; n <= (r.thorough ? 5 : 4); ++n)
    Multisets(ne, n, [&](const vector<int>& m) {
      if (r.Done()) return;
      if (!r.Next([=] { return "extreme " + ShowV(m); })) return;
      for (int pat = 0; pat < (1 << n); ++pat) {
        vector<Row> rows;
        for (int i = 0; i < n; ++i) rows.push_back({ext[m[i]], pat >> i & 1 ? 1.0 : -1.0, 1, 1});
        CheckCase(r, rows, kCfgs[0], 30000, false);
        if (pat % 3 == 0) CheckCase(r, rows, kCfgs[1], 30000, false);
      }
    });
  // 3. Many rows in few buckets and in many (the 8, 16 and 32 bit representations).
  for (int n : {9, 64, 255, 256, 257, 300, 1000})
    for (int budget : {1, 2, 3, 5, 16, 100, 254, 255, 256, 300, 30000})
      for (int miss : {0, 3, 7}) {
        if (!r.Next([=] { return std::to_string(n) + " rows, budget " + std::to_string(budget) + ", missing every " + std::to_string(miss); })) continue;
        vector<Row> rows;
        for (int i = 0; i < n; ++i) {
          int k = (i * 37) % n;
          rows.push_back({miss && i % miss == 0 ? NAN : (float)(k % 5 == 0 ? 7 : k), (k > n / 3 ? 1.0 : -1.0) + (k % 2), 1, 1});
        }
        if (n <= 300) for (auto& c : {kCfgs[0], kCfgs[4]}) CheckCase(r, rows, c, budget, false);
        else CheckCase(r, rows, kCfgs[1], budget, false);
      }
  // 4. A large column: 16 bit and 32 bit buckets with a split at every position.
  for (int n : {300, 66000})
    for (int k = 0; k < (r.thorough ? 24 : 8); ++k) {
      if (!r.Next([=] { return "step at " + std::to_string(k) + " of " + std::to_string(n) + " distinct values"; })) continue;
      vector<float> v;
      vector<GradientData> gd;
      int cut = k < 4 ? k + 1 : k < 8 ? n - (k - 3) : (long)k * n / 25;
      if (k == 5) cut = 256; if (k == 6) cut = std::min(65536, n - 2);
      for (int i = 0; i < n; ++i) {
        int x = (int)((i * 7919L) % n);
        v.push_back(x);
        gd.emplace_back(x < cut ? -1 : 1, 1);
      }
      auto col = Column::CreateBucketizedFloatColumn("f", v, 100000);
      vector<uint> samples;
      for (int i = 0; i < n; ++i) samples.push_back(i);
      Config config;
      GradientData total;
      for (auto& x : gd) total += x;
      Split split;
      VectorSlice<uint> slice(samples);
      bool found = gbdt::FindBestSplit(col.get(), [](int) { return 1.0f; }, &gd, slice, config, total, &split);
      r.Step();
      r.Check(found, "no split");
      float t = split.float_split().threshold();
      r.Check(t > cut - 1 && t <= cut, "threshold " + std::to_string(t) + " for a step at " + std::to_string(cut));
      r.Check(Near(split.gain(), n - total.g * total.g / n, 1e-9), "gain " + std::to_string(split.gain()));
    }
  // 5. Gradients and hessians that need more than single precision.
  const double fine[][2] = {{-1.1, 1 + 0x1p-30}, {1 + 0x1p-28, 1}, {2.3, 0.5 - 0x1p-29}, {-0.7, 2}};
  for (int n = 2; n <= (r.thorough ? 6 : 5); ++n)
    Multisets(12, n, [&](const vector<int>& m) {
      if (r.Done()) return;
      if (!r.Next([=] { return "fine gradients " + ShowV(m); })) return;
      vector<Row> rows;
      for (int x : m) rows.push_back({val[x % 3], fine[x / 3][0], fine[x / 3][1], 1});
      CheckCase(r, rows, kCfgs[0], 30000, false);
      CheckCase(r, rows, kCfgs[1], 30000, false);
      // The smallest hessian just reached and just not.
      Cfg just = {0, 1, 0};
      CheckCase(r, rows, just, 30000, false);
      for (size_t i = 0; i < rows.size(); ++i) rows[i].w = ws[(i + m[i]) % 3];
      CheckCase(r, rows, kCfgs[0], 30000, true);
      CheckCase(r, rows, kCfgs[4], 30000, false);
    });
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
