// C18: work division and subsampling for every small size, with a controlled random generator.
#include <random>

#include "common.h"
#include "src/data_store/column.h"
#include "src/gbdt_algo/tree_algo.h"
#include "src/loss_func/gradient_data.h"
#include "src/proto/config.pb.h"
#include "src/utils/subsampling.h"
#include "src/utils/utils.h"

using namespace ref;
using gbdt::Subsampling;
using std::string;
using std::vector;

namespace {

uint32_t UnRight(uint32_t y, int s) { uint32_t x = y; for (int i = 0; i < 32; ++i) x = y ^ (x >> s); return x; }
uint32_t UnLeft(uint32_t y, int s, uint32_t m) { uint32_t x = y; for (int i = 0; i < 32; ++i) x = y ^ ((x << s) & m); return x; }
uint32_t Untemper(uint32_t y) { return UnRight(UnLeft(UnLeft(UnRight(y, 18), 15, 0xefc60000u), 7, 0x9d2c5680u), 11); }
void SetOutputs(std::mt19937* g, const vector<uint32_t>& words) {
  std::stringstream s;
  for (int i = 0; i < 624; ++i) s << Untemper(words[i % words.size()]) << " ";
  s << 0;
  s >> *g;
}

void CheckDivide(mc::Runner& r, int n, int groups) {
  auto what = "dividing " + std::to_string(n) + " into " + std::to_string(groups) + ": ";
  auto pairs = Subsampling::DivideSamples(n, groups);
  r.Check((int)pairs.size() == groups, what + std::to_string(pairs.size()) + " slices");
  uint at = 0, least = n, most = 0;
  for (auto& p : pairs) {
    r.Check(p.first == at && p.second >= p.first && p.second <= (uint)n, what + "slice " + std::to_string(p.first) + ".." + std::to_string(p.second) + " after " + std::to_string(at));
    at = p.second;
    least = std::min(least, p.second - p.first);
    most = std::max(most, p.second - p.first);
  }
  r.Check(at == (uint)n, what + "covers only " + std::to_string(at));
  r.Check(most - least <= 1, what + "sizes from " + std::to_string(least) + " to " + std::to_string(most));
  // Slices of a vector, and of a slice of a vector.
  for (int off = 0; off < 2; ++off) {
    vector<uint> v;
    for (int i = 0; i < n + 2 * off; ++i) v.push_back(i * 3 + 1);
    VectorSlice<uint> whole(v, off, n);
    auto slices = Subsampling::DivideSamples(whole, groups);
    r.Check((int)slices.size() == groups, what + std::to_string(slices.size()) + " vector slices");
    vector<uint> all;
    least = n; most = 0;
    for (auto& s : slices) {
      for (int i = 0; i < s.size(); ++i) { r.Check(&s[i] == &v[off + all.size()], what + "a slice is elsewhere"); all.push_back(s[i]); }
      vector<uint> copy = VectorSliceToVector(s);
      r.Check((int)copy.size() == s.size() && std::equal(copy.begin(), copy.end(), s.begin()), what + "copy of a slice differs");
      least = std::min<uint>(least, s.size());
      most = std::max<uint>(most, s.size());
    }
    r.Check(all == vector<uint>(v.begin() + off, v.begin() + off + n), what + "vector slices do not cover the vector in order");
    r.Check(most - least <= 1, what + "vector slices differ in size");
  }
  r.Step(3);
  r.State("divide" + std::to_string(n) + "/" + std::to_string(groups));
}

const double kRates[] = {0, 1e-9, 0.1, 0.25, 0.3, 0.5, 0.7, 0.9, 0.999999, 1};

// The indices that the draws of the generator (as it is now) keep.
vector<uint> Expect(uint n, double rate) {
  std::mt19937 g = *Subsampling::get_generator();
  std::uniform_real_distribution<double> d(0.0, 1.0);
  vector<uint> v;
  for (uint i = 0; i < n; ++i) if (d(g) < rate) v.push_back(i);
  return v;
}

void Shape(mc::Runner& r, const vector<uint>& v, uint n, double rate, const string& what) {
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i] >= n) r.Fail(what + "index " + std::to_string(v[i]));
    if (i && v[i - 1] >= v[i]) r.Fail(what + "indices are not strictly increasing");
  }
  if (rate >= 1) r.Check(v.size() == n, what + "only " + std::to_string(v.size()) + " at rate one");
  if (rate <= 0) r.Check(v.empty(), what + "not empty at rate zero");
}

void Body(mc::Runner& r) {
  Init();
  int top = r.thorough ? 400 : 120;
  for (int n = 0; n <= top; ++n) {
    if (!r.Next([=] { return "dividing " + std::to_string(n); })) continue;
    for (int g = 1; g <= (r.thorough ? 100 : 40); ++g) CheckDivide(r, n, g);
    auto all = Subsampling::CreateAllSamples(n);
    r.Check((int)all.size() == n, "CreateAllSamples has another size");
    for (int i = 0; i < n; ++i) r.Check(all[i] == (uint)i, "CreateAllSamples is wrong");
  }
  for (int n : {1000, 65535, 65536, 100003, 1000000})
    for (int g : {1, 7, 80, 4096, 65536}) {
      if (!r.Next([=] { return "dividing " + std::to_string(n) + " into " + std::to_string(g); })) continue;
      CheckDivide(r, n, g);
    }
  // More rows than single precision or 16 bits can count.
  for (uint n : {65535u, 65536u, 65537u, 1000000u, 16777219u}) {
    if (!r.Next([=] { return "all of " + std::to_string(n); })) continue;
    auto all = Subsampling::CreateAllSamples(n);
    r.Check(all.size() == n, "CreateAllSamples has another size");
    for (uint i = 0; i < n; ++i) if (all[i] != i) r.Fail("CreateAllSamples has " + std::to_string(all[i]) + " at " + std::to_string(i));
    for (double rate : {1.0, 0.5, 0.001}) {
      Subsampling::Reseed(n);
      auto want = Expect(n, rate);
      auto got = Subsampling::UniformSubsample(n, rate);
      r.Step();
      Shape(r, got, n, rate, "large ");
      r.Check(got == want, "not the indices whose draws fall below the rate");
    }
    for (int g : {1, 3, 80}) {
      auto pairs = Subsampling::DivideSamples((int)n, g);
      uint at = 0;
      for (auto& p : pairs) {
        r.Check(p.first == at && p.second >= p.first && p.second - p.first - n / g <= 1, "slice " + std::to_string(p.first) + ".." + std::to_string(p.second));
        at = p.second;
      }
      r.Check(pairs.size() == (size_t)g && at == n, "the slices end at " + std::to_string(at));
      auto slices = Subsampling::DivideSamples(VectorSlice<uint>(all), g);
      r.Check(slices.size() == (size_t)g, "number of slices");
      size_t sum = 0;
      for (auto& s : slices) { r.Check(s.size() == 0 || &s[0] == &all[sum], "a slice is elsewhere"); sum += s.size(); }
      r.Check(sum == n, "the slices cover " + std::to_string(sum));
    }
    r.State("all" + std::to_string(n));
  }
  // Every pattern of small and large outputs of the generator.
  const uint32_t words[] = {0, 0xffffffffu, 0x40000000u, 0xb3333333u};
  for (int len = 1; len <= (r.thorough ? 9 : 7); ++len)
    Sequences(len <= 6 ? 4 : 2, len, [&](const vector<int>& v) {
      if (r.Done()) return;
      if (!r.Next([=] { return "generator outputs " + ShowV(v); })) return;
      vector<uint32_t> w;
      for (int k : v) { w.push_back(words[k]); w.push_back(words[k]); }  // whichever half of a draw counts
      for (uint n : {(uint)len, 1u, 9u})
        for (double rate : kRates) {
          SetOutputs(Subsampling::get_generator(), w);
          auto want = Expect(n, rate);
          auto got = Subsampling::UniformSubsample(n, rate);
          string what = std::to_string(n) + " at rate " + std::to_string(rate) + ": ";
          Shape(r, got, n, rate, what);
          r.Check(got == want, what + "not the indices whose draws fall below the rate");
          r.Step();
          string key;
          for (uint x : got) key += std::to_string(x) + ",";
          r.State(key + "/" + std::to_string(n));
        }
      // A lower rate keeps a subset.
      vector<uint> last;
      for (double rate : kRates) {
        SetOutputs(Subsampling::get_generator(), w);
        auto got = Subsampling::UniformSubsample(len, rate);
        r.Check(std::includes(got.begin(), got.end(), last.begin(), last.end()), "a higher rate drops an index");
        last = got;
      }
    });
  // Seeds and sequences of calls.
  for (int seed = 0; seed < (r.thorough ? 400 : 80); ++seed) {
    if (!r.Next([=] { return "seed " + std::to_string(seed); })) continue;
    vector<vector<uint>> first;
    for (int round = 0; round < 2; ++round) {
      Subsampling::Reseed(seed);
      std::mt19937 mine(seed);
      std::uniform_real_distribution<double> d(0.0, 1.0);
      int call = 0;
      for (uint n : {5u, 0u, 17u, 1u, 100u, 3u, 1000u})
        for (double rate : {0.3, 1.0, 0.0, 0.8}) {
          auto got = Subsampling::UniformSubsample(n, rate);
          string what = "seed " + std::to_string(seed) + " call " + std::to_string(call) + ": ";
          Shape(r, got, n, rate, what);
          vector<uint> want;
          for (uint i = 0; i < n; ++i) if (d(mine) < rate) want.push_back(i);
          r.Check(got == want, what + "not determined by the seed and the calls before");
          if (round) r.Check(first[call] == got, what + "differs when repeated");
          else first.push_back(got);
          ++call;
          r.Step();
        }
    }
    // Another seed, another sample.
    Subsampling::Reseed(seed + 1);
    r.Check(Subsampling::UniformSubsample(1000, 0.5) != (Subsampling::Reseed(seed), Subsampling::UniformSubsample(1000, 0.5)), "two seeds give the same sample");
  }
  // Trees: with gradients and hessians of one and a regularization of one, the score of a tree of one leaf is
  // m / (m + 1) for m sampled rows; a tree can only be split when the one feature that is worth it is sampled.
  const float rates[] = {1e-7f, 0.0005f, 0.004f, 0.02f, 0.1f, 0.5f, 0.9f, 0.98f, 0.999f, 1.0f};
  for (float rate : rates)
    for (int n : {1, 10, 100}) {
      if (!r.Next([=] { return "trees on " + std::to_string(n) + " rows sampled with rate " + std::to_string(rate); })) continue;
      FLAGS_num_threads = 1;
      vector<gbdt::GradientData> gd(n, gbdt::GradientData(1, 1));
      gbdt::Config c;
      c.set_num_leaves(1); c.set_l2_lambda(1); c.set_example_sampling_rate(rate); c.set_feature_sampling_rate(1);
      const int trees = 300;
      double sum = 0;
      Subsampling::Reseed(n);
      for (int k = 0; k < trees; ++k) {
        double s = fabs(gbdt::FitTreeToGradients([](int) { return 1.0f; }, gd, {}, c).score());
        double m = s / (1 - s);
        if (!(m > -0.01 && m < n + 0.01 && fabs(m - round(m)) < 0.01)) r.Fail("a score of " + std::to_string(s) + " is not that of sampled rows");
        sum += round(m);
        r.Step();
      }
      double want = (double)trees * n * rate, dev = sqrt(want * (1 - rate));
      if (fabs(sum - want) > 6 * dev + 2 * (rate < 1)) r.Fail(std::to_string(sum) + " rows are sampled by " + std::to_string(trees) + " trees instead of about " + std::to_string(want));
      r.State("rows " + std::to_string(rate) + " " + std::to_string(n));
    }
  for (float rate : rates)
    for (int n : {1, 2, 3, 8, 50}) {
      if (!r.Next([=] { return "trees with " + std::to_string(n) + " features sampled with rate " + std::to_string(rate); })) continue;
      FLAGS_num_threads = 1;
      vector<gbdt::GradientData> gd = {{1, 1}, {1, 1}, {-1, 1}, {-1, 1}};
      vector<std::unique_ptr<gbdt::Column>> cols;
      vector<const gbdt::Column*> features;
      for (int i = 0; i < n; ++i) {
        bool good = i == n / 2;
        cols.push_back(gbdt::Column::CreateBucketizedFloatColumn("f" + std::to_string(i), good ? vector<float>{1, 1, 2, 2} : vector<float>{5, 5, 5, 5}, 100));
        features.push_back(cols.back().get());
      }
      gbdt::Config c;
      c.set_num_leaves(2); c.set_example_sampling_rate(1); c.set_feature_sampling_rate(rate);
      const int trees = 300;
      int split = 0;
      Subsampling::Reseed(n);
      for (int k = 0; k < trees; ++k) {
        auto t = gbdt::FitTreeToGradients([](int) { return 1.0f; }, gd, features, c);
        if (t.has_left_child()) {
          ++split;
          if (t.split().feature() != "f" + std::to_string(n / 2)) r.Fail("split by " + t.split().feature());
        }
        r.Step();
      }
      double want = trees * (double)rate, dev = sqrt(want * (1 - rate));
      if (fabs(split - want) > 6 * dev + 2 * (rate < 1)) r.Fail(std::to_string(split) + " of " + std::to_string(trees) + " trees are split instead of about " + std::to_string(want));
      r.State("features " + std::to_string(rate) + " " + std::to_string(n));
    }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
