// C17: pair sampling on every small group with a controlled random generator; pairwise losses on every small
// assignment of groups and targets, explained as a multiset of valid pairs.
#include <random>

#include "common.h"
#include "src/loss_func/group.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/subsampling.h"

using namespace ref;
using gbdt::GradientData;
using gbdt::Group;
using std::string;
using std::vector;

namespace {

// ---- A generator whose next 624 outputs are the given ones.
uint32_t UnRight(uint32_t y, int s) { uint32_t x = y; for (int i = 0; i < 32; ++i) x = y ^ (x >> s); return x; }
uint32_t UnLeft(uint32_t y, int s, uint32_t m) { uint32_t x = y; for (int i = 0; i < 32; ++i) x = y ^ ((x << s) & m); return x; }
uint32_t Untemper(uint32_t y) {
  y = UnRight(y, 18);
  y = UnLeft(y, 15, 0xefc60000u);
  y = UnLeft(y, 7, 0x9d2c5680u);
  return UnRight(y, 11);
}
void SetOutputs(std::mt19937* g, const vector<uint32_t>& words) {
  // libstdc++'s layout: 624 words, then the position.
  static_assert(sizeof(*g) == 624 * sizeof(uint_fast32_t) + sizeof(size_t), "layout of std::mt19937");
  uint_fast32_t x[624];
  for (int i = 0; i < 624; ++i) x[i] = Untemper(words[i % words.size()]);
  memcpy((void*)g, x, sizeof x);
  memset((char*)(void*)g + sizeof x, 0, sizeof(size_t));
}

void CheckSampling(mc::Runner& r, const vector<float>& y, const vector<uint>& rows, int per_pair) {
  auto fy = [&](int i) { return y[i]; };
  Group g(vector<uint>(rows), fy);
  auto what = [&] { std::ostringstream o; o << "targets"; for (uint i : rows) o << " " << y[i]; return o.str() + ": "; };
  r.Check(g.size() == rows.size(), what() + "wrong size");
  std::multiset<uint> members, want(rows.begin(), rows.end());
  for (uint i = 0; i < g.size(); ++i) { members.insert(g[i]); r.Check(g.y(i) == y[g[i]], what() + "wrong target"); }
  r.Check(members == want, what() + "the group has other rows");
  std::map<std::pair<uint, uint>, long> hits;
  for (uint a : rows) for (uint b : rows) if (y[a] > y[b]) hits[{a, b}] = 0;
  r.Check(g.num_pairs() == hits.size(), what() + std::to_string(g.num_pairs()) + " pairs instead of " + std::to_string(hits.size()));
  if (hits.empty()) return;
  std::mt19937 gen;
  // Smallest and largest outputs, and those around the boundaries between pairs.
  vector<uint32_t> edge = {0, 1, 0xffffffffu, 0xfffffffeu, 0x7fffffffu, 0x80000000u};
  for (size_t k = 1; k < hits.size(); ++k) for (int d = -1; d <= 1; ++d) edge.push_back((uint32_t)((double)k / hits.size() * 4294967296.0 + d));
  auto valid = [&](const std::pair<uint, uint>& p) {
    if (!(p.first < g.size() && p.second < g.size())) r.Fail(what() + "sampled positions " + std::to_string(p.first) + "," + std::to_string(p.second));
    if (!(y[g[p.first]] > y[g[p.second]])) r.Fail(what() + "sampled the pair of rows " + std::to_string(g[p.first]) + "," + std::to_string(g[p.second]));
  };
  for (uint32_t e : edge) { SetOutputs(&gen, {e, 0x9e3779b9u, e, 0x12345678u}); valid(g.SamplePair(&gen)); r.Step(); }
  // Outputs spread evenly over the range (in their high and their low bits).
  long m = per_pair * hits.size();
  uint32_t w = 0x1234567u;
  for (long k = 0; k < m;) {
    vector<uint32_t> words;
    for (int i = 0; i < 624; ++i) words.push_back(w += 2654435769u);
    SetOutputs(&gen, words);
    for (int i = 0; i < 300 && k < m; ++i, ++k) {
      auto p = g.SamplePair(&gen);
      valid(p);
      ++hits[{g[p.first], g[p.second]}];
    }
  }
  r.Step(m);
  for (auto& p : hits)
    r.Check(fabs(p.second - per_pair) <= 0.4 * per_pair, what() + "the pair of rows " + std::to_string(p.first.first) + "," + std::to_string(p.first.second) + " is drawn " + std::to_string(p.second) +
            " times in " + std::to_string(m) + " instead of " + std::to_string(per_pair));
  string key;
  for (uint i : rows) key += std::to_string(y[i]) + ",";
  r.State("group" + key);
}

void CheckRank(mc::Runner& r, const vector<float>& y, const vector<double>& f) {
  vector<uint> rows;
  for (size_t i = 0; i < y.size(); ++i) rows.push_back(i);
  Group g(vector<uint>(rows), [&](int i) { return y[i]; });
  for (int round = 0; round < 2; ++round) {
    vector<double> s = f;
    if (round) for (auto& x : s) x = -x;
    g.Rerank(s);
    r.Step();
    std::set<uint> used;
    for (uint i = 0; i < g.size(); ++i) {
      r.Check(g.rank(i) < g.size() && used.insert(g.rank(i)).second, "ranks are not a permutation");
      for (uint j = 0; j < g.size(); ++j)
        if (s[g[i]] > s[g[j]]) r.Check(g.rank(i) < g.rank(j), "row " + std::to_string(g[i]) + " with the higher score is ranked lower than " + std::to_string(g[j]));
    }
  }
}

// ---- The losses.
struct GHV { double g, h; };
GHV PairLoss(const string& loss, double dt, double d) {
  if (loss == "auc") return d >= 1 ? GHV{0, 0} : d >= 0 ? GHV{1 - d, 1} : GHV{1, 0};
  if (loss == "gbrank") return dt - d > 0 ? GHV{dt - d, 1} : GHV{0, 0};
  double p = 1 / (1 + exp(d));
  return {p, p * (1 - p)};
}

struct P { vector<float> y, w; vector<double> f; vector<string> group; bool has_group; string loss; float rate; bool delta, equal; float base; int threads; };

string ShowP(const P& p) {
  std::ostringstream o;
  o << p.loss << " rate " << p.rate << (p.delta ? " by delta target" : "") << (p.equal ? " equal groups" : "") << " base " << p.base << " threads " << p.threads << " rows";
  for (size_t i = 0; i < p.y.size() && i < 20; ++i) o << " (" << (p.has_group ? p.group[i] : "-") << " y=" << p.y[i] << " f=" << p.f[i] << " w=" << p.w[i] << ")";
  return o.str() + ": ";
}

// Explains the gradients of one group as draws[] of its pairs; false: not possible.
struct Eq { uint a, b; double g, h; };
bool Explain(const vector<Eq>& pairs, size_t k, int left, std::map<uint, GHV>* rest, double tol, vector<int>* draws) {
  if (k == pairs.size()) {
    if (left) return false;
    for (auto& p : *rest) if (fabs(p.second.g) > tol || fabs(p.second.h) > tol) return false;
    return true;
  }
  const Eq& e = pairs[k];
  auto move = [&](int n) {
    (*rest)[e.a].g -= n * e.g; (*rest)[e.b].g += n * e.g;
    (*rest)[e.a].h -= n * e.h; (*rest)[e.b].h -= n * e.h;
  };
  for (int n = 0; n <= left; ++n) {
    if (k + 1 == pairs.size() && n < left) continue;  // all the rest
    // The hessians left must not be negative.
    move(n);
    bool neg = (*rest)[e.a].h < -tol || (*rest)[e.b].h < -tol;
    (*draws)[k] = n;
    bool ok = !neg && Explain(pairs, k + 1, left - n, rest, tol, draws);
    move(-n);
    if (ok) return true;
    if (neg) break;
  }
  return false;
}

// hits: draws per pair of rows.
void CheckLoss(mc::Runner& r, const P& p, gbdt::LossFunc* lf, std::map<std::pair<uint, uint>, long>* hits = nullptr) {
  size_t n = p.y.size();
  vector<GradientData> g;
  if (n % 2) g.assign(n, GradientData(3, 4));  // what was there before does not matter
  double c = 77;
  string progress;
  lf->ComputeFunctionalGradientsAndHessians(p.f, &c, &g, &progress);
  r.Step();
  if (c != 0) r.Fail(ShowP(p) + "constant " + std::to_string(c));
  if (g.size() != n) r.Fail(ShowP(p) + "wrong number of gradients");
  std::map<string, vector<uint>> groups;
  for (size_t i = 0; i < n; ++i) {
    if (!p.has_group) groups["all"].push_back(i);
    else if (p.group[i] != kMissing) groups[p.group[i]].push_back(i);
    else if (!(g[i].g == 0 && g[i].h == 0)) r.Fail(ShowP(p) + "row " + std::to_string(i) + " has no group but gradient " + std::to_string(g[i].g));
  }
  long total = 0, most = 1;
  std::map<string, vector<std::pair<uint, uint>>> pairs;
  for (auto& q : groups) {
    auto& v = pairs[q.first];
    for (uint a : q.second) for (uint b : q.second) if (p.y[a] > p.y[b]) v.push_back({a, b});
    total += v.size();
    most = std::max<long>(most, v.size());
  }
  uint64_t key = mc::Hash(p.loss);
  for (auto& q : groups) {
    auto& v = pairs[q.first];
    std::map<uint, GHV> rest;
    double scale = 1;
    for (uint i : q.second) { rest[i] = {g[i].g, g[i].h}; scale = std::max(scale, std::max(fabs(g[i].g), fabs(g[i].h))); }
    if (v.empty()) {
      for (auto& e : rest) if (!(e.second.g == 0 && e.second.h == 0)) r.Fail(ShowP(p) + "row " + std::to_string(e.first) + " is in no pair but has gradient " + std::to_string(e.second.g));
      continue;
    }
    // Ranks by score.
    std::map<uint, int> rank;
    for (uint i : q.second) for (uint j : q.second) if (p.f[j] > p.f[i]) ++rank[i];
    vector<Eq> eqs;
    for (auto& ab : v) {
      double dt = (double)p.y[ab.first] - p.y[ab.second];
      GHV x = PairLoss(p.loss, dt, p.f[ab.first] - p.f[ab.second]);
      double w = (double)p.w[ab.first] * p.w[ab.second];
      if (p.equal) w *= (double)most / v.size();
      if (p.loss == "lambdamart") {
        double base = p.base > 0 ? p.base : 2;
        auto disc = [&](int k) { return log(base) / log(base + k); };
        w *= dt * fabs(disc(rank[ab.first]) - disc(rank[ab.second]));
      } else if (p.delta) {
        w *= dt;
      }
      eqs.push_back({ab.first, ab.second, w * x.g, 2 * w * x.h});
    }
    double exact = v.size() * ((double)p.rate * n / total / 2);
    bool ok = false;
    vector<int> draws(v.size());
    for (int count : {(int)floor(exact - 1e-9), (int)floor(exact + 1e-9)})
      if (!ok && count >= 0) ok = Explain(eqs, 0, count, &rest, 1e-6 * scale, &draws);
    if (!ok) {
      std::ostringstream o;
      for (uint i : q.second) o << " row " << i << ": g=" << g[i].g << " h=" << g[i].h << ";";
      r.Fail(ShowP(p) + "group " + q.first + " is not what " + std::to_string((int)floor(exact + 1e-9)) + " draws of its " + std::to_string(v.size()) + " pairs give:" + o.str());
    }
    for (size_t k = 0; k < v.size(); ++k) { key = mc::Mix(key, draws[k]); if (hits) (*hits)[v[k]] += draws[k]; }
  }
  r.State(key);
}

std::unique_ptr<gbdt::LossFunc> Make(mc::Runner& r, const P& p, const Column* group) {
  Config c;
  c.set_loss_func(p.loss);
  c.set_pair_sampling_rate(p.rate);
  c.set_pair_weight_by_delta_target(p.delta);
  c.set_equal_group_weight(p.equal);
  c.set_lambdamart_dcg_base(p.base);
  FLAGS_num_threads = p.threads;
  auto lf = gbdt::LossFuncFactory::CreateLossFunc(c);
  auto st = lf->Init(p.y.size(), [&p](int i) { return p.w[i]; }, [&p](int i) { return p.y[i]; }, p.has_group ? static_cast<const StringColumn*>(group) : nullptr);
  r.Check(st.ok(), ShowP(p) + "Init failed: " + st.ToString());
  return lf;
}

const char* kLosses[] = {"pairwise_logloss", "auc", "gbrank", "lambdamart"};
// Irregular scores, so that different draws give different sums.
const double kF[] = {0.317, -0.523, 1.291, 0.871, -1.117, 0.059, 2.231};
const float kW[] = {1.0f, 0.703f, 1.371f, 2.117f, 0.559f, 1.877f, 0.911f};

void Body(mc::Runner& r) {
  Init();
  // 1. Pair sampling: every group of up to 6 rows over 3 (4) targets, in every order of rows.
  const float ys[] = {0, 1, 2.5f, -3};
  for (int n = 1; n <= (r.thorough ? 7 : 5); ++n)
    Sequences(n <= 5 ? 4 : 3, n, [&](const vector<int>& v) {
      if (r.Done()) return;
      if (!r.Next([=] { return "group of targets " + ShowV(v); })) return;
      vector<float> y(3 * n + 2, 9);
      vector<uint> rows;
      int sum = 0;
      for (int i = 0; i < n; ++i) { uint row = (n - 1 - i) * 3 + 1; rows.push_back(row); y[row] = ys[v[i]]; sum += v[i]; }
      if (sum % 2) std::reverse(rows.begin(), rows.end());
      CheckSampling(r, y, rows, r.thorough ? 400 : 150);
    });
  // Larger groups by their numbers of equal targets.
  Sequences(4, 5, [&](const vector<int>& v) {
    if (r.Done()) return;
    if (!r.Next([=] { return "blocks of targets " + ShowV(v); })) return;
    const int count[] = {0, 1, 3, 8};
    vector<float> y;
    vector<uint> rows;
    for (int b = 0; b < 5; ++b) for (int k = 0; k < count[v[b]]; ++k) { rows.push_back(y.size()); y.push_back(b * 7 % 5); }
    if (rows.empty()) return;
    CheckSampling(r, y, rows, 120);
  });
  // Blocks of many equal targets: every row has its share of the draws.
  for (int a : {1, 63, 65, 130, 257, 300})
    for (int b : {1, 64, 100, 256, 331})
      for (int c : {0, 1, 70}) {
        if (!r.Next([=] { return "blocks of " + std::to_string(a) + ", " + std::to_string(c) + " and " + std::to_string(b) + " equal targets"; })) continue;
        vector<float> y;
        vector<uint> rows;
        for (int i = 0; i < a + b + c; ++i) { y.push_back(i < a ? 2 : i < a + b ? 0 : 1); rows.push_back(i * 7 % (a + b + c)); }
        if ((a + b + c) % 7 == 0) for (int i = 0; i < a + b + c; ++i) rows[i] = i;
        Group g(vector<uint>(rows), [&](int i) { return y[i]; });
        uint64_t pairs = (uint64_t)a * b + (uint64_t)a * c + (uint64_t)c * b;
        if (g.num_pairs() != pairs) r.Fail("the group has " + std::to_string(g.num_pairs()) + " pairs instead of " + std::to_string(pairs));
        const long m = 100L * (a + b + c);
        vector<long> pos(a + b + c), neg(a + b + c);
        std::mt19937 gen(a * 1000 + b + c);
        for (long k = 0; k < m; ++k) {
          auto p = g.SamplePair(&gen);
          if (!(p.first < g.size() && p.second < g.size() && g.y(p.first) > g.y(p.second))) r.Fail("invalid pair");
          ++pos[g[p.first]], ++neg[g[p.second]];
        }
        r.Step(m);
        for (int i = 0; i < a + b + c; ++i) {
          long lower = 0, higher = 0;
          if (i < a) lower = b + c; else if (i < a + b) higher = a + c; else lower = b, higher = a;
          double ep = (double)m * lower / pairs, en = (double)m * higher / pairs;
          if (fabs(pos[i] - ep) > 8 * sqrt(ep) + 1e-6 || fabs(neg[i] - en) > 8 * sqrt(en) + 1e-6)
            r.Fail("row " + std::to_string(i) + " is the first of " + std::to_string(pos[i]) + " and the second of " + std::to_string(neg[i]) + " draws instead of about " + std::to_string(ep) + " and " + std::to_string(en));
        }
        r.State("blocks " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c));
      }
  // Targets that hardly differ.
  const float close[] = {0, 1e-9f, 1, nextafterf(1, 2), nextafterf(1, 0), -1e-30f, 1e30f, 1.0001e30f};
  for (int n = 2; n <= (r.thorough ? 4 : 3); ++n)
    Sequences(8, n, [&](const vector<int>& v) {
      if (r.Done()) return;
      if (!r.Next([=] { return "close targets " + ShowV(v); })) return;
      vector<float> y;
      vector<uint> rows;
      for (int x : v) { rows.push_back(y.size()); y.push_back(close[x]); }
      CheckSampling(r, y, rows, 120);
    });
  // More than 2^32 pairs.
  for (int which = 0; which < 3; ++which) {
    if (!r.Next([=] { return "large group " + std::to_string(which); })) continue;
    vector<int> sizes = which == 0 ? vector<int>{100000, 100000} : which == 1 ? vector<int>{70000, 3, 70000} : vector<int>{65536, 65536};
    vector<float> y;
    vector<uint> rows;
    for (size_t b = 0; b < sizes.size(); ++b) for (int k = 0; k < sizes[b]; ++k) { rows.push_back(y.size()); y.push_back(b); }
    Group g(std::move(rows), [&](int i) { return y[i]; });
    uint64_t want = 0;
    for (size_t a = 0; a < sizes.size(); ++a) for (size_t b = 0; b < a; ++b) want += (uint64_t)sizes[a] * sizes[b];
    r.Check(g.num_pairs() == want, "a large group has " + std::to_string(g.num_pairs()) + " pairs instead of " + std::to_string(want));
    std::mt19937 gen(5);
    const int m = 64000;
    long pos[8] = {}, neg[8] = {};
    uint hi = sizes.back(), lo = sizes[0];
    for (int k = 0; k < m; ++k) {
      auto p = g.SamplePair(&gen);
      r.Check(p.first < g.size() && p.second < g.size() && g.y(p.first) > g.y(p.second), "invalid pair in a large group");
      // Positions among the highest and the lowest targets.
      if (p.first < hi) ++pos[(long)p.first * 8 / hi];
      if (p.second >= g.size() - lo) ++neg[(long)(p.second - (g.size() - lo)) * 8 / lo];
    }
    for (int k = 0; k < 8; ++k)
      r.Check(fabs(pos[k] - m / 8) < 700 && fabs(neg[k] - m / 8) < 700, "a large group is not sampled uniformly: part " + std::to_string(k) + " is drawn " + std::to_string(pos[k]) + " and " +
              std::to_string(neg[k]) + " times of " + std::to_string(m));
    r.Step(m);
  }
  // 2. Ranks.
  for (int n = 1; n <= 5; ++n)
    Sequences(3, n, [&](const vector<int>& v) {
      if (r.Done()) return;
      if (!r.Next([=] { return "ranks of scores " + ShowV(v); })) return;
      vector<double> f(v.begin(), v.end());
      Sequences(2, n, [&](const vector<int>& t) { CheckRank(r, vector<float>(t.begin(), t.end()), f); });
    });
  // Scores that differ in their last bits or by their sign only, of every size.
  const double fs[] = {1, nextafter(1, 2), 1e8, 1e8 + 1, -1e8, -1e8 - 1, 1e-300, -1e-300, 0, 1e300, 3e38, 4e38};
  for (int n = 2; n <= (r.thorough ? 5 : 4); ++n)
    Sequences(12, n, [&](const vector<int>& v) {
      if (r.Done()) return;
      if (!r.thorough && n == 4 && (v[0] + 2 * v[1] + 3 * v[2] + 5 * v[3]) % 7) return;
      if (!r.Next([=] { return "ranks of scores of other sizes " + ShowV(v); })) return;
      vector<double> f;
      vector<float> y;
      for (int x : v) { y.push_back(f.size() % 2); f.push_back(fs[x]); }
      CheckRank(r, y, f);
    });
  // Larger groups, ranked anew with several scores.
  for (int n : {17, 64, 255, 256, 257, 1000, 1025, 3000}) {
    if (!r.Next([=] { return "ranks of " + std::to_string(n) + " rows"; })) continue;
    vector<float> y;
    vector<uint> rows;
    for (int i = 0; i < n; ++i) { y.push_back(i * 13 % 5); rows.push_back(i); }
    Group g(std::move(rows), [&](int i) { return y[i]; });
    for (long mul : {1, 7, -1, 1237, 0, -11}) {
      vector<double> f;
      for (int i = 0; i < n; ++i) f.push_back(i * mul % 10007);
      g.Rerank(f);
      r.Step();
      vector<int> at(n, -1);
      for (int i = 0; i < n; ++i) {
        if (!(g.rank(i) < (uint)n && at[g.rank(i)] < 0)) r.Fail("ranks are not a permutation");
        at[g.rank(i)] = g[i];
      }
      for (int k = 1; k < n; ++k) if (f[at[k - 1]] < f[at[k]]) r.Fail("row " + std::to_string(at[k]) + " with the higher score is ranked lower than " + std::to_string(at[k - 1]));
    }
  }
  // One loss object for several data sets: nothing is left of the one before.
  for (int loss = 0; loss < 4; ++loss)
    for (int bits = 0; bits < 4; ++bits)
      for (int first = 0; first < 6; ++first)
        for (int second = 0; second < 6; ++second) {
          if (!r.Next([=] { return string(kLosses[loss]) + " settings " + std::to_string(bits) + " for data set " + std::to_string(first) + " and then " + std::to_string(second); })) continue;
          auto make = [&](int k) {
            P p;
            p.loss = kLosses[loss]; p.rate = 2; p.delta = bits & 1; p.equal = bits & 2; p.base = 0; p.threads = 1 + bits; p.has_group = k != 3;
            const char* gr[6][6] = {{"p", "p", "q", "q", "q", "q"}, {"p", "q", "p", "q", "", ""}, {"p", "p", "p", "p", "p", "q"}, {"", "", "", "", "", ""}, {"r", "r", "", "", "", ""}, {"p", "q", "r", "s", "r", "s"}};
            const float yy[] = {0, 1, 1, 0, 2, 3};
            int n = k == 1 ? 4 : k == 3 ? 3 : k == 4 ? 2 : 6;
            for (int i = 0; i < n; ++i) { p.y.push_back(yy[(i + (k == 5 ? 1 : 0)) % 6]); p.w.push_back(kW[(i + k) % 7]); p.f.push_back(kF[(i + 2 * k) % 7]); p.group.push_back(gr[k][i]); }
            return p;
          };
          P a = make(first), b = make(second);
          gbdt::Subsampling::Reseed(first * 6 + second);
          auto ca = Column::CreateStringColumn("g", a.group), cb = Column::CreateStringColumn("g", b.group);
          auto lf = Make(r, a, ca.get());
          CheckLoss(r, a, lf.get());
          auto st = lf->Init(b.y.size(), [&b](int i) { return b.w[i]; }, [&b](int i) { return b.y[i]; }, b.has_group ? static_cast<const StringColumn*>(cb.get()) : nullptr);
          r.Check(st.ok(), "Init failed");
          CheckLoss(r, b, lf.get());
        }
  // 3. Losses: every assignment of groups and targets to up to 4 (5) rows.
  int variant = 0;
  const char* gs[] = {kMissing, "p", "q"};
  for (int n = 1; n <= (r.thorough ? 5 : 4); ++n)
    Sequences(9, n, [&](const vector<int>& v) {
      if (r.Done()) return;
      variant = 0;
      for (int x : v) variant = variant * 7 + x;
      int vr = variant;
      if (!r.Next([=] { return "groups and targets " + ShowV(v); })) return;
      for (int rep = 0; rep < (r.thorough ? 4 : 2); ++rep) {
        int k = vr + rep * 5;
        P p;
        p.loss = kLosses[k % 4];
        p.has_group = true;
        bool any = false;
        for (int i = 0; i < n; ++i) {
          p.y.push_back(v[i] % 3 * (k % 3 == 0 ? 1.5f : 1.0f));
          p.group.push_back(gs[v[i] / 3]);
          any |= v[i] / 3 != 0;
          p.f.push_back(kF[(i + k) % 7]);
          p.w.push_back((k / 4) % 3 ? kW[(i * 2 + k) % 7] : 1);
        }
        if (!any && rep) p.has_group = false;
        p.rate = std::vector<float>{1, 2, 0.5f, 3}[(k / 3) % 4];
        p.delta = (k / 5) % 2;
        p.equal = (k / 7) % 2;
        p.base = std::vector<float>{0, 2, 3.5f}[k % 3];
        p.threads = 1 + (k / 11) % 3;
        gbdt::Subsampling::Reseed(k);
        auto col = Column::CreateStringColumn("g", p.group);
        auto lf = Make(r, p, col.get());
        CheckLoss(r, p, lf.get());
        // Other scores: the ranks are computed anew.
        for (auto& x : p.f) x = 0.7 - 1.3 * x;
        CheckLoss(r, p, lf.get());
      }
    });
  // 4. All settings on fixed data of three groups (and none).
  for (int loss = 0; loss < 4; ++loss)
    for (int bits = 0; bits < 8; ++bits)
      for (float rate : {0.3f, 1.0f, 2.0f, 4.0f})
        for (int threads : {1, 2, 4}) {
          if (!r.Next([=] { return string(kLosses[loss]) + " settings " + std::to_string(bits) + " rate " + std::to_string(rate) + " threads " + std::to_string(threads); })) continue;
          P p;
          p.loss = kLosses[loss];
          p.rate = rate;
          p.delta = bits & 1;
          p.equal = bits & 2;
          p.has_group = !(bits & 4);
          p.base = bits & 1 ? 5 : 0;
          p.threads = threads;
          int n = p.has_group ? 8 : 4;
          const char* gr[] = {"p", "q", "r", "q", "p", "s", "r", "p"};
          const float yy[] = {0, 1, 3, 2, 1, 5, 3, 4};
          for (int i = 0; i < n; ++i) { p.y.push_back(yy[i]); p.w.push_back(kW[i % 7]); p.f.push_back(kF[i % 7] + (i == 7)); p.group.push_back(gr[i]); }
          auto col = Column::CreateStringColumn("g", p.group);
          for (int seed = 0; seed < 4; ++seed) {
            gbdt::Subsampling::Reseed(seed);
            auto lf = Make(r, p, col.get());
            CheckLoss(r, p, lf.get());
          }
        }
  // 5. Rank discounts in large groups: one draw, explained by one of the pairs.
  for (int n : {3, 20, 99, 100, 101, 102, 150, 300, 1500, 2999})
    for (float base : {0.0f, 2.0f, 7.0f}) {
      if (!r.Next([=] { return "lambdamart group of " + std::to_string(n) + " base " + std::to_string(base); })) continue;
      for (int seed = 0; seed < (n > 300 ? 3 : 12); ++seed) {
        P p;
        p.loss = "lambdamart"; p.rate = 2.01f / n; p.delta = false; p.equal = seed & 1; p.has_group = false; p.base = base; p.threads = 1;
        for (int i = 0; i < n; ++i) { p.y.push_back(i == n / 3 ? 2 : 0); p.w.push_back(1); p.f.push_back(((i * 37 + seed * 11) % (n > 300 ? 3001 : 307)) / 100.0); }
        gbdt::Subsampling::Reseed(seed);
        auto lf = Make(r, p, nullptr);
        CheckLoss(r, p, lf.get());
      }
    }
  // Many groups.
  for (int loss = 0; loss < 4; ++loss)
    for (int n : {300, 70000}) {
      if (!r.Next([=] { return string(kLosses[loss]) + " " + std::to_string(n) + " groups"; })) continue;
      P p;
      p.loss = kLosses[loss]; p.rate = 1.01f; p.delta = loss & 1; p.equal = loss & 2; p.has_group = true; p.base = 0; p.threads = 1 + loss;
      for (int k = 0; k < 2; ++k)
        for (int i = 0; i < n; ++i) {
          p.y.push_back(k == i % 2 ? 1 + i % 3 : 0);
          p.w.push_back(kW[(i + k) % 7]);
          p.f.push_back(kF[(i + 3 * k) % 7] + 0.01 * k);
          p.group.push_back("g" + std::to_string(k ? n - 1 - i : i));
        }
      // Rows of one group have targets that differ.
      for (int i = 0; i < n; ++i) p.y[2 * n - 1 - i] = p.y[i] + 1 + i % 2;
      auto col = Column::CreateStringColumn("g", p.group);
      gbdt::Subsampling::Reseed(loss);
      auto lf = Make(r, p, col.get());
      CheckLoss(r, p, lf.get());
    }
  // 6. How often the losses draw each pair, over many calls.
  for (int loss = 0; loss < 4; ++loss)
    for (int variant2 = 0; variant2 < 4; ++variant2) {
      if (!r.Next([=] { return string(kLosses[loss]) + " frequencies " + std::to_string(variant2); })) continue;
      P p;
      p.loss = kLosses[loss]; p.delta = false; p.equal = false; p.base = 0; p.threads = 1 + variant2 % 2; p.has_group = variant2 >= 2;
      const float yy[] = {1, 0, 2, 1, 0, 1};
      int n = variant2 >= 2 ? 6 : 4;
      for (int i = 0; i < n; ++i) { p.y.push_back(yy[i]); p.w.push_back(kW[i % 7]); p.f.push_back(kF[i % 7] * 0.5); p.group.push_back(i < 3 ? "p" : "q"); }
      long total = variant2 >= 2 ? 5 : 5;  // 4 rows: 1>0 2>1 2>0 1>0 2>1 = 5; groups: 3 and 2
      p.rate = variant2 >= 2 ? 2.01f * total / n : 2.01f / n;  // one draw in all, or one per pair
      auto col = Column::CreateStringColumn("g", p.group);
      gbdt::Subsampling::Reseed(variant2);
      auto lf = Make(r, p, col.get());
      std::map<std::pair<uint, uint>, long> hits;
      const int calls = r.thorough ? 4000 : 1000;
      for (int k = 0; k < calls; ++k) CheckLoss(r, p, lf.get(), &hits);
      double draws = variant2 >= 2 ? calls : calls / 5.0;
      r.Check(hits.size() == 5, "not every pair is drawn");
      for (auto& h : hits)
        r.Check(fabs(h.second - draws) <= 6 * sqrt(draws), ShowP(p) + "the pair of rows " + std::to_string(h.first.first) + "," + std::to_string(h.first.second) + " is drawn " + std::to_string(h.second) +
                " times instead of about " + std::to_string(draws));
    }
  // 8. Many draws of the same pair.
  for (int loss = 0; loss < 4; ++loss)
    for (float rate : {17.3f, 100.7f, 333.1f, 2000.3f, 20000.1f})
      for (int bits = 0; bits < 4; ++bits)
        for (int groups = 1; groups <= 3; ++groups) {
          if (!r.Next([=] { return string(kLosses[loss]) + " one pair in " + std::to_string(groups) + " groups, rate " + std::to_string(rate) + " settings " + std::to_string(bits); })) continue;
          P p;
          p.loss = kLosses[loss]; p.rate = rate; p.delta = bits & 1; p.equal = bits & 2; p.base = 0; p.threads = 1 + bits % 2; p.has_group = true;
          for (int g = 0; g < groups; ++g)
            for (int i = 0; i < 2; ++i) { p.y.push_back(g * 0.5f + (i + g) % 2 * (1 + g)); p.w.push_back(kW[(g + i) % 7]); p.f.push_back(kF[(g * 2 + i) % 7] * 0.25); p.group.push_back(string(1, 'p' + g)); }
          gbdt::Subsampling::Reseed(bits);
          auto col = Column::CreateStringColumn("g", p.group);
          auto lf = Make(r, p, col.get());
          CheckLoss(r, p, lf.get());
        }
  // 9. One pair with any target and score difference.
  for (int loss = 0; loss < 4; ++loss)
    for (float dt : {1e-3f, 0.5f, 1.0f, 9.5f, 11.0f, 50.0f, 1000.0f, 1e6f}) {
      if (!r.Next([=] { return string(kLosses[loss]) + " target difference " + std::to_string(dt); })) continue;
      for (double df : {-500.0, -50.0, -2.0, -0.001, 0.0, 0.5, 0.999, 1.0, 1.001, 5.0, 10.5, 60.0, 999.0, 1001.0})
        for (int bits = 0; bits < 4; ++bits) {
          if (df == 0 && loss == 3) continue;  // the order of equal scores is open
          P p;
          p.loss = kLosses[loss]; p.rate = 3.2f; p.delta = bits & 1; p.equal = bits & 2; p.base = 0; p.threads = 1; p.has_group = bits == 3;
          p.y = {0, dt}; p.w = {0.75f, 1.5f}; p.f = {0.25, 0.25 + df}; p.group = {"p", "p"};
          gbdt::Subsampling::Reseed(bits);
          auto col = Column::CreateStringColumn("g", p.group);
          auto lf = Make(r, p, col.get());
          CheckLoss(r, p, lf.get());
        }
    }
  // 10. The number of draws in many groups of many sizes: with misplaced binary targets every draw of the auc loss adds one.
  struct Size { int pos, neg; };
  const Size sizes[] = {{1, 1}, {3, 5}, {0, 4}, {30, 41}, {1, 70}, {64, 64}, {200, 130}};
  for (int mix = 0; mix < 8; ++mix)
    for (int count : {1, 6, 40, 130})
      for (int threads : {1, 2, 16}) {
        if (!r.Next([=] { return std::to_string(count) + " groups, sizes " + std::to_string(mix) + " threads " + std::to_string(threads); })) continue;
        P p;
        p.loss = "auc"; p.delta = false; p.equal = false; p.base = 0; p.threads = threads; p.has_group = true;
        vector<Size> of;
        double total = 0;
        for (int g = 0; g < count; ++g) {
          of.push_back(sizes[mix < 7 ? (g % 2 ? mix : (g / 2 * 3 + mix) % 7) : 3]);
          total += (double)of[g].pos * of[g].neg;
        }
        // Interleave the rows of the groups.
        for (int i = 0; i < 330; ++i)
          for (int g = 0; g < count; ++g)
            if (i < of[g].pos + of[g].neg) {
              bool pos = of[g].neg == 0 || (i < 2 * of[g].pos && i < 2 * of[g].neg ? i % 2 : of[g].pos > of[g].neg);
              p.y.push_back(pos); p.f.push_back(pos ? 0 : 1); p.w.push_back(1); p.group.push_back("g" + std::to_string(g));
            }
        if (total == 0) continue;
        for (double rate : {0.37, 1.0, 3.3, 0.75 * 2 * total / p.y.size(), 2.6 * 2 * total / p.y.size()}) {
          p.rate = rate;
          auto col = Column::CreateStringColumn("g", p.group);
          auto lf = Make(r, p, col.get());
          vector<GradientData> gd;
          double c;
          lf->ComputeFunctionalGradientsAndHessians(p.f, &c, &gd, nullptr);
          r.Step();
          vector<double> up(count), down(count);
          for (size_t i = 0; i < p.y.size(); ++i) {
            int g = atoi(p.group[i].c_str() + 1);
            if (gd[i].h != 0 || (p.y[i] ? gd[i].g < 0 : gd[i].g > 0)) r.Fail(ShowP(p) + "row " + std::to_string(i) + " has gradient " + std::to_string(gd[i].g) + " hessian " + std::to_string(gd[i].h));
            (p.y[i] ? up : down)[g] += gd[i].g;
          }
          uint64_t key = 0;
          for (int g = 0; g < count; ++g) {
            double exact = (double)of[g].pos * of[g].neg * ((double)p.rate * p.y.size() / total / 2);
            double draws = up[g];
            if (draws != -down[g] || draws < floor(exact - 1e-6) || draws > floor(exact + 1e-6))
              r.Fail(ShowP(p) + "group " + std::to_string(g) + " of " + std::to_string(of[g].pos) + "+" + std::to_string(of[g].neg) + " rows is drawn " + std::to_string(draws) + " times instead of " + std::to_string(floor(exact)));
            key = mc::Mix(key, draws);
          }
          r.State(key);
        }
      }
  // 7. Sampling rates that are no rates.
  for (float rate : {0.0f, -1.0f, NAN, INFINITY, -INFINITY})
    for (int loss = 0; loss < 4; ++loss) {
      if (!r.Next([=] { return string(kLosses[loss]) + " rate " + std::to_string(rate); })) continue;
      Config c;
      c.set_loss_func(kLosses[loss]);
      c.set_pair_sampling_rate(rate);
      auto lf = gbdt::LossFuncFactory::CreateLossFunc(c);
      r.Check(!lf->Init(2, [](int) { return 1.0f; }, [](int i) { return i; }, nullptr).ok(), "a pair sampling rate of " + std::to_string(rate) + " is accepted");
    }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
