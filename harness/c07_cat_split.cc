// C07: FindBestSplit on every small categorical feature against all divisions of the categories.
#include "common.h"
#include "src/gbdt_algo/split_algo.h"
#include "src/loss_func/gradient_data.h"

using namespace ref;
using gbdt::GradientData;
using gbdt::Split;
using std::string;
using std::vector;

namespace {

struct Row { int cat; double g, h; float w; };
struct Cfg { double lambda, min_hessian, min_gain; };
const char* kCats[] = {kMissing, "b", "a", "", "long category name", "c", "d"};

double Energy(double g, double h, double l) { return h + l == 0 ? 0 : g * g / (h + l); }

string ShowRows(const vector<Row>& rows, const Cfg& c) {
  std::ostringstream o;
  for (auto& x : rows) o << "('" << kCats[x.cat] << "' g=" << x.g << " h=" << x.h << " w=" << x.w << ") ";
  o << "lambda=" << c.lambda << " min_hessian=" << c.min_hessian << " min_gain=" << c.min_gain;
  return o.str();
}

struct Sum { int cat; double g, h; };

// The best gain over the cuts of the given order, or -1.
double BestCut(const vector<Sum>& s, const Sum& tot, const Cfg& c) {
  double best = -1, lg = 0, lh = 0;
  for (size_t i = 0; i + 1 < s.size(); ++i) {
    lg += s[i].g; lh += s[i].h;
    double rg = tot.g - lg, rh = tot.h - lh;
    if (!(std::min(lh, rh) > c.min_hessian)) continue;
    best = std::max(best, Energy(lg, lh, c.lambda) + Energy(rg, rh, c.lambda) - Energy(tot.g, tot.h, c.lambda));
  }
  return best;
}

void CheckCase(mc::Runner& r, const vector<Row>& rows, const Cfg& c, bool subset) {
  vector<string> v;
  vector<GradientData> gd;
  for (auto& x : rows) { v.push_back(kCats[x.cat]); gd.emplace_back(x.g, x.h); }
  auto col = Column::CreateStringColumn("s", v);
  vector<uint> samples;
  for (uint i = 0; i < rows.size(); ++i) if (!subset || i % 3 != 1) samples.push_back(i);
  if (subset) std::reverse(samples.begin(), samples.end());
  Config config;
  config.set_l2_lambda(c.lambda);
  config.set_min_hessian(c.min_hessian);
  config.set_min_gain(c.min_gain);
  std::map<int, Sum> sums;
  Sum tot{0, 0, 0};
  for (uint i : samples) {
    auto& s = sums[rows[i].cat];
    s.cat = rows[i].cat;
    s.g += rows[i].w * rows[i].g; s.h += rows[i].w * rows[i].h;
    tot.g += rows[i].w * rows[i].g; tot.h += rows[i].w * rows[i].h;
  }
  vector<Sum> s;
  bool positive = true;
  for (auto& p : sums) {
    if (p.second.g == 0 && p.second.h == 0) continue;  // has no influence on any side
    s.push_back(p.second);
    if (p.second.h <= 0) positive = false;
  }
  // Acceptable answers: with ties in the node score every order of the tied categories is acceptable.
  std::set<double> acceptable;
  double score_eps = 1e-12;
  auto score = [&](const Sum& x) { return x.h + c.lambda == 0 ? 0 : x.g / (x.h + c.lambda); };
  bool tied = false;
  std::sort(s.begin(), s.end(), [&](const Sum& a, const Sum& b) { return score(a) != score(b) ? score(a) < score(b) : a.cat < b.cat; });
  for (size_t i = 1; i < s.size(); ++i) if (score(s[i]) - score(s[i - 1]) < score_eps) tied = true;
  if (!tied) {
    acceptable.insert(BestCut(s, tot, c));
  } else {
    vector<int> perm(s.size());
    for (size_t i = 0; i < s.size(); ++i) perm[i] = i;
    do {
      vector<Sum> t;
      bool ok = true;
      for (int i : perm) t.push_back(s[i]);
      for (size_t i = 1; i < t.size(); ++i) if (score(t[i]) < score(t[i - 1]) - score_eps) ok = false;
      if (ok) acceptable.insert(BestCut(t, tot, c));
    } while (std::next_permutation(perm.begin(), perm.end()));
  }
  double best_all = -1;
  bool plain = positive && c.lambda == 0 && c.min_hessian == 0;
  if (plain)
    for (unsigned m = 1; m + 1 < (1u << s.size()); ++m) {
      double lg = 0, lh = 0;
      for (size_t i = 0; i < s.size(); ++i) if (m >> i & 1) { lg += s[i].g; lh += s[i].h; }
      best_all = std::max(best_all, Energy(lg, lh, 0) + Energy(tot.g - lg, tot.h - lh, 0) - Energy(tot.g, tot.h, 0));
    }

  Split split;
  VectorSlice<uint> slice(samples);
  bool found = gbdt::FindBestSplit(col.get(), [&](int i) { return rows[i].w; }, &gd, slice, config, {tot.g, tot.h}, &split);
  r.Step();
  string what = ShowRows(rows, c);
  string st = found ? std::to_string(split.gain()) : "none";
  for (auto x : split.cat_split().internal_categorical_index()) st += "," + std::to_string(x);
  r.State(st);
  double floor = std::max(c.min_gain, 1e-5) + 1e-9;
  if (!found) {
    r.Count("no_split");
    bool may = false;
    for (double a : acceptable) if (a <= floor) may = true;
    r.Check(may, what + ": no split, though one gains " + std::to_string(*acceptable.begin()));
    if (plain) r.Check(best_all <= floor, what + ": no split, though one gains " + std::to_string(best_all));
    return;
  }
  r.Count("split");
  r.Check(split.has_cat_split() && !split.has_float_split(), what + ": not a categorical split");
  bool ok = false;
  for (double a : acceptable) if (Near(a, split.gain(), 1e-9)) ok = true;
  r.Check(ok, what + ": gain " + std::to_string(split.gain()) + " instead of " + std::to_string(*acceptable.rbegin()));
  r.Check(split.gain() > c.min_gain - 1e-9 && split.gain() > 0, what + ": gain " + std::to_string(split.gain()) + " below the minimum");
  if (plain) r.Check(Near(best_all, split.gain(), 1e-9), what + ": gain " + std::to_string(split.gain()) + " but some division gains " + std::to_string(best_all));
  // What partitioning does, before and after the indices are turned into category names.
  for (int named = 0; named < 2; ++named) {
    Split sp = split;
    if (named) {
      for (int x : split.cat_split().internal_categorical_index())
        sp.mutable_cat_split()->add_category(static_cast<StringColumn*>(col.get())->get_cat_string(x));
      sp.mutable_cat_split()->clear_internal_categorical_index();
    }
    vector<uint> part = samples;
    auto sides = gbdt::Partition(col.get(), sp, VectorSlice<uint>(part));
    double g[2] = {0, 0}, h[2] = {0, 0};
    std::multiset<uint> seen;
    std::set<int> left_cats;
    for (int k = 0; k < 2; ++k)
      for (uint i : k ? sides.second : sides.first) {
        seen.insert(i);
        g[k] += rows[i].w * rows[i].g;
        h[k] += rows[i].w * rows[i].h;
        if (k == 0) left_cats.insert(rows[i].cat);
        else r.Check(!left_cats.count(rows[i].cat), what + ": a category is on both sides");
      }
    r.Check(seen == std::multiset<uint>(samples.begin(), samples.end()), what + ": partitioning loses or repeats rows");
    double real = Energy(g[0], h[0], c.lambda) + Energy(g[1], h[1], c.lambda) - Energy(tot.g, tot.h, c.lambda);
    r.Check(Near(real, split.gain(), 1e-9), what + ": the sides gain " + std::to_string(real) + " instead of " + std::to_string(split.gain()));
    r.Check(std::min(h[0], h[1]) > c.min_hessian, what + ": a side has no more than the minimum hessian");
  }
}

const Cfg kCfgs[] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 0.75}, {0.5, 0.5, 0.25}, {2, 1.5, 1}, {0, 0, 2}, {0, 3, 0}};

void Body(mc::Runner& r) {
  Init();
  const double gh[][2] = {{-1, 1}, {1, 1}, {2, 0.5}, {0, 1}, {-3, 2}, {1, 0}, {0, 0}, {-0.5, 4}};
  const int ngh = 8;
  const float ws[] = {1, 0.5, 2, 0};
  // 1. One row per category: all assignments of gradients to up to 5 (6) categories.
  for (int k = 0; k <= (r.thorough ? 6 : 5); ++k)
    Multisets(ngh, k, [&](const vector<int>& m) {
      if (r.Done()) return;
      // Which category gets which gradient matters only for the missing one: rotate.
      for (int rot = 0; rot < std::max(k, 1); ++rot) {
        if (!r.Next([=] { return "categories " + ShowV(m) + "rotated by " + std::to_string(rot); })) continue;
        vector<Row> rows;
        for (int i = 0; i < k; ++i) rows.push_back({(i + rot) % k, gh[m[i]][0], gh[m[i]][1], 1});
        for (auto& c : kCfgs) CheckCase(r, rows, c, false);
        for (int i = 0; i < k; ++i) rows.push_back({(i * 2 + rot) % k, gh[m[k - 1 - i]][0], gh[m[k - 1 - i]][1], ws[i % 4]});
        CheckCase(r, rows, kCfgs[0], false);
        CheckCase(r, rows, kCfgs[0], true);
        CheckCase(r, rows, kCfgs[4], true);
        CheckCase(r, rows, kCfgs[1], false);
      }
    });
  // 2. All sequences of rows over 3 categories and 4 gradients.
  for (int n = 1; n <= (r.thorough ? 5 : 4); ++n)
    Sequences(12, n, [&](const vector<int>& m) {
      if (r.Done()) return;
      if (!r.Next([=] { return "rows " + ShowV(m); })) return;
      vector<Row> rows;
      for (int i = 0; i < n; ++i) rows.push_back({m[i] % 3, gh[m[i] / 3][0], gh[m[i] / 3][1], 1});
      CheckCase(r, rows, kCfgs[0], false);
      CheckCase(r, rows, kCfgs[3], false);
      CheckCase(r, rows, kCfgs[4], false);
    });
  // 3. Many categories: 8, 16 and 32 bit representations, one that matters.
  for (int n : {100, 254, 255, 256, 257, 300, 65534, 65535, 65536, 65537, 70000})
    for (int odd : {0, 1, 255, 256, 257, n - 2, n - 1}) {
      if (odd >= n) continue;
      if (!r.Next([=] { return std::to_string(n) + " categories, " + std::to_string(odd) + " stands out"; })) continue;
      vector<string> v;
      vector<GradientData> gd;
      GradientData total;
      vector<uint> samples;
      for (int i = 0; i < n; ++i) {
        v.push_back(i == 0 ? kMissing : "c" + std::to_string(i));
        gd.emplace_back(i == odd ? 5 : -1, 1);
        total += gd.back();
        samples.push_back(i);
      }
      auto col = Column::CreateStringColumn("s", v);
      Config config;
      Split split;
      VectorSlice<uint> slice(samples);
      bool found = gbdt::FindBestSplit(col.get(), [](int) { return 1.0f; }, &gd, slice, config, total, &split);
      r.Step();
      double want = 25 + (n - 1) - total.g * total.g / n;
      r.Check(found && Near(split.gain(), want, 1e-9), "wrong or no split");
      auto sides = gbdt::Partition(col.get(), split, VectorSlice<uint>(samples));
      const auto& small = sides.first.size() == 1 ? sides.first : sides.second;
      r.Check(small.size() == 1 && small[0] == (uint)odd, "the category that stands out is not alone on its side");
    }
  // Many categories on both sides.
  for (int n : {40, 300, 2500, 70000, 200003})
    for (int pattern = 0; pattern < 4; ++pattern) {
      if (!r.Next([=] { return std::to_string(n) + " categories, pattern " + std::to_string(pattern); })) continue;
      auto up = [=](int i) { return pattern == 0 ? i % 2 : pattern == 1 ? i % 3 == 0 : pattern == 2 ? i < n / 2 : i * 7 % 10 < 6; };
      vector<string> v;
      vector<GradientData> gd;
      GradientData total;
      vector<uint> samples;
      double g[2] = {0, 0}, h[2] = {0, 0};
      for (int i = 0; i < n; ++i) {
        v.push_back(i == 0 ? kMissing : "c" + std::to_string(i));
        gd.emplace_back(up(i) ? 3 : -1, 1);
        total += gd.back();
        g[up(i)] += gd.back().g;
        h[up(i)] += 1;
        samples.push_back(i);
      }
      auto col = Column::CreateStringColumn("s", v);
      Config config;
      Split split;
      bool found = gbdt::FindBestSplit(col.get(), [](int) { return 1.0f; }, &gd, VectorSlice<uint>(samples), config, total, &split);
      r.Step();
      double want = Energy(g[0], h[0], 0) + Energy(g[1], h[1], 0) - Energy(total.g, total.h, 0);
      r.Check(found && Near(split.gain(), want, 1e-9), "wrong or no split");
      r.State(std::to_string(split.gain()));
      for (int named = 0; named < 2; ++named) {
        if (named) {
          for (int x : split.cat_split().internal_categorical_index())
            split.mutable_cat_split()->add_category(static_cast<StringColumn*>(col.get())->get_cat_string(x));
          split.mutable_cat_split()->clear_internal_categorical_index();
        }
        vector<uint> part = samples;
        auto sides = gbdt::Partition(col.get(), split, VectorSlice<uint>(part));
        vector<int> side(n, -1);
        for (int k = 0; k < 2; ++k) for (uint i : k ? sides.second : sides.first) side[i] = k;
        for (int i = 1; i < n; ++i)
          if (side[i] < 0 || (side[i] == side[0]) != (up(i) == up(0))) r.Fail("category " + std::to_string(i) + " of " + std::to_string(n) + " is on the wrong side" + (named ? " by name" : ""));
      }
    }
  // 4. Gradients and hessians that need more than single precision.
  const double fine[][2] = {{-1.1, 1 + 0x1p-30}, {1 + 0x1p-28, 1}, {2.3, 0.5 - 0x1p-29}, {-0.7, 2}, {1, 1}};
  for (int n = 2; n <= (r.thorough ? 6 : 5); ++n)
    Multisets(15, n, [&](const vector<int>& m) {
      if (r.Done()) return;
      if (!r.Next([=] { return "fine gradients " + ShowV(m); })) return;
      vector<Row> rows;
      for (int x : m) rows.push_back({x % 3, fine[x / 3][0], fine[x / 3][1], 1});
      CheckCase(r, rows, kCfgs[0], false);
      CheckCase(r, rows, kCfgs[1], false);
      for (size_t i = 0; i < rows.size(); ++i) rows[i].w = ws[(i + m[i]) % 3];
      CheckCase(r, rows, kCfgs[0], true);
      CheckCase(r, rows, kCfgs[4], false);
    });
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
