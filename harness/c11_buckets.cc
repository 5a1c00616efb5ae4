// C11: every small sequence of values, budget and division into chunks; boundaries of the encodings.
#include <float.h>

#include "common.h"

using namespace ref;
using std::string;
using std::vector;

namespace {

struct Case { int budget; vector<vector<float>> chunks; };

string ShowC(const Case& c) {
  std::ostringstream o;
  o << "budget " << c.budget << " chunks ";
  for (auto& k : c.chunks) {
    o << "[";
    for (size_t i = 0; i < k.size() && i < 40; ++i) o << k[i] << " ";
    if (k.size() > 40) o << "... " << k.size();
    o << "]";
  }
  return o.str();
}

void Check(mc::Runner& r, const Case& c, bool factory = false) {
  vector<float> all;
  for (auto& k : c.chunks) all.insert(all.end(), k.begin(), k.end());
  std::unique_ptr<Column> own;
  BucketizedFloatColumn* col;
  if (factory) {
    own = Column::CreateBucketizedFloatColumn("f", all, c.budget);
    col = static_cast<BucketizedFloatColumn*>(own.get());
  } else {
    col = new BucketizedFloatColumn("f", c.budget);
    own.reset(col);
    for (auto& k : c.chunks) { col->Add(&k); r.Check(col->status().ok(), ShowC(c) + ": Add failed"); r.Step(); }
    col->Finalize();
  }
  auto fail = [&](const string& m) { r.Fail(ShowC(c) + ": " + m); };
  if (!col->status().ok()) fail("not ok: " + col->status().ToString());
  if (col->type() != Column::kBucketizedFloatColumn || col->name() != "f") fail("wrong type or name");
  if (col->size() != all.size() || col->col().size() != all.size()) fail("has " + std::to_string(col->size()) + " rows");
  uint n = col->max_int();
  if ((int)n - 1 > 2 * c.budget + 2) fail("has " + std::to_string(n - 1) + " buckets");
  for (uint b = 1; b < n; ++b) {
    if (!(col->get_bucket_min(b) <= col->get_bucket_max(b))) fail("bucket " + std::to_string(b) + " has an empty range");
    if (b > 1 && !(col->get_bucket_max(b - 1) < col->get_bucket_min(b))) fail("buckets " + std::to_string(b - 1) + " and " + std::to_string(b) + " overlap or are out of order");
  }
  std::map<float, uint> bucket;
  uint64_t h = n;
  for (size_t i = 0; i < all.size(); ++i) {
    uint b = col->col()[i];
    h = mc::Mix(h, b);
    float v = all[i];
    auto at = [&] { return "row " + std::to_string(i) + " (" + std::to_string(v) + ") "; };
    if (b >= n) fail(at() + "is in bucket " + std::to_string(b) + " of " + std::to_string(n));
    if (col->col().missing(i) != std::isnan(v)) fail(at() + "missing is wrong");
    if (std::isnan(v)) continue;
    float lo = col->get_row_min(i), hi = col->get_row_max(i);
    if (lo != col->get_bucket_min(b) || hi != col->get_bucket_max(b)) fail(at() + "range of the row is not the range of its bucket");
    bool above = v > FLT_MAX && b == n - 1;
    if (!(lo <= v && v <= hi) && !(above && lo <= v)) fail(at() + "is in bucket " + std::to_string(b) + " with range " + std::to_string(lo) + ".." + std::to_string(hi));
    auto it = bucket.insert({v, b});
    if (it.first->second != b) fail(at() + "is not in the bucket of the same value before");
  }
  if ((int)all.size() <= c.budget) {
    std::set<uint> used;
    for (auto& p : bucket) if (!used.insert(p.second).second) fail("value " + std::to_string(p.first) + " shares a bucket");
  }
  if (!factory) {
    vector<float> more = {1};
    col->Add(&more);
    if (col->status().ok()) fail("adding to a completed column is not an error");
  }
  r.State(h);
}

void Body(mc::Runner& r) {
  Init();
  const vector<float> alpha = {1, 2, NAN, 0, -1.5f, INFINITY, FLT_MAX, -INFINITY, -0.0f, 1e-45f, -FLT_MAX, 1.0000001f};
  // 1. Every sequence, budget, division into chunks (cut after any row; empty chunks at the ends).
  int maxlen = r.thorough ? 6 : 5;
  for (int len = 0; len <= maxlen; ++len) {
    int symbols = len <= 3 ? 12 : len == 4 ? 9 : len == 5 ? (r.thorough ? 8 : 6) : 6;
    Sequences(symbols, len, [&](const vector<int>& v) {
      if (r.Done()) return;
      if (!r.Next([=] { return "values " + ShowV(v); })) return;
      for (int budget : {1, 2, 3, 5, 30000})
        for (int cut = 0; cut < (len < 5 ? 1 << std::max(0, len - 1) : 2); ++cut) {
          Case c;
          c.budget = budget;
          if (cut & 1) c.chunks.push_back({});
          c.chunks.push_back({});
          for (int i = 0; i < len; ++i) {
            c.chunks.back().push_back(alpha[v[i]]);
            if (i + 1 < len && (cut >> i & 1)) c.chunks.push_back({});
          }
          if (cut & 2) c.chunks.push_back({});
          Check(r, c, false);
          if (cut == 0) Check(r, c, true);
        }
    });
  }
  // 2. Every histogram: how often each of up to 6 values occurs.
  const int counts[] = {0, 1, 2, 3, 7, 20};
  Sequences(6, 6, [&](const vector<int>& v) {
    if (r.Done()) return;
    if (!r.thorough && (v[0] + v[3] * 5 + v[5] * 3) % 3) return;
    if (!r.Next([=] { return "histogram " + ShowV(v); })) return;
    for (int budget = 1; budget <= 9; budget += r.thorough ? 1 : 2) {
      Case c;
      c.budget = budget;
      c.chunks.push_back({});
      for (int i = 0; i < 6; ++i) for (int k = 0; k < counts[v[i]]; ++k) c.chunks[0].push_back(i == 5 ? NAN : (i * 5 % 7) - 2.5f);
      Check(r, c);
    }
  });
  // 3. Rows appended after the buckets were built (more than 100 rows per bucket before).
  for (int budget : {1, 2, 3})
    for (int pattern = 0; pattern < 8; ++pattern)
      for (int extra = -1; extra < 4; ++extra)
        for (int len = 1; len <= (r.thorough ? 3 : 2 - (pattern % 3 == 1)); ++len)
          Sequences(12, len, [&](const vector<int>& v) {
            if (r.Done()) return;
            if (!r.Next([=] { return "budget " + std::to_string(budget) + " first rows " + std::to_string(pattern) + "+" + std::to_string(extra) + " then " + ShowV(v); })) return;
            for (int cut = 0; cut < 4; ++cut) {
              Case c;
              c.budget = budget;
              c.chunks.push_back({});
              for (int i = 0; i < 100 * budget + extra; ++i) {
                float x;
                switch (pattern) {
                  case 0: x = i; break;
                  case 1: x = i % 2 ? NAN : 1; break;
                  case 2: x = NAN; break;
                  case 3: x = 1; break;
                  case 4: x = -i / 3.0f; break;
                  case 5: x = i % 5 == 0 ? INFINITY : i % 7; break;
                  case 6: x = i % 3 ? FLT_MAX : -FLT_MAX; break;
                  default: x = i % 50 ? i % 4 : -INFINITY;
                }
                c.chunks.back().push_back(x);
                if ((cut & 1) && i % 40 == 39) c.chunks.push_back({});
              }
              c.chunks.push_back({});
              for (int k : v) { c.chunks.back().push_back(alpha[k]); if (cut & 2) c.chunks.push_back({}); }
              for (int k : v) c.chunks.back().push_back(alpha[(k * 5 + 3) % 12]);
              Check(r, c);
            }
          });
  // 4. Numbers of distinct values around the limits of the 8 and 16 bit encodings and of the budget.
  vector<int> ns;
  for (int base : {100, 255, 256, 30000, 60000, 65535, 65536, 131072}) for (int k = -4; k <= 4; ++k) ns.push_back(base + k);
  for (int n : ns)
    for (int budget : {255, 256, 257, 1000, 30000, 65535, 65536, 70000})
      for (int order = 0; order < 4; ++order) {
        if (!r.thorough && n > 300 && (order == 3 || budget == 256 || budget == 65535 || (n + order) % 3)) continue;
        if (!r.Next([=] { return std::to_string(n) + " distinct values, budget " + std::to_string(budget) + " order " + std::to_string(order); })) continue;
        Case c;
        c.budget = budget;
        c.chunks.push_back({});
        for (int i = 0; i < n; ++i) {
          float x = order == 0 ? i : order == 1 ? -i * 0.5f : order == 2 ? (float)((long)i * 7919 % n) : i * 1e30f;
          c.chunks.back().push_back(x);
          if (order == 2 && i % 4 == 0) { c.chunks.back().push_back(x); c.chunks.back().push_back(NAN); }
          if (order == 1 && i % 1000 == 0) c.chunks.push_back({});
        }
        Check(r, c);
      }
  // Many rows of few values.
  for (int rows : {66000, 140000, 270000})
    for (int budget : {1, 2, 3, 4, 5, 300})
      for (int pattern = 0; pattern < 5; ++pattern) {
        if (!r.Next([=] { return std::to_string(rows) + " rows of few values, budget " + std::to_string(budget) + " pattern " + std::to_string(pattern); })) continue;
        Case c;
        c.budget = budget;
        c.chunks.push_back({});
        for (int i = 0; i < rows; ++i)
          c.chunks[0].push_back(pattern == 0 ? (i % 1000 ? 7 : i) : pattern == 1 ? i % 2 : pattern == 2 ? (i < rows * 2 / 3 ? 3 : i) : pattern == 3 ? i % 3 * (i % 500 ? 1 : i) : (i % 4 ? NAN : i % 8));
        Check(r, c);
      }
  // 5. Buckets built from one half of the values, 8 and 16 bit, then others appended.
  for (int budget : {100, 250, 254, 255, 256, 300, 650})
    for (int step : {1, 3}) {
      if (!r.Next([=] { return "append to budget " + std::to_string(budget) + " step " + std::to_string(step); })) continue;
      Case c;
      c.budget = budget;
      c.chunks.push_back({});
      for (int i = 0; i < 101 * budget; ++i) c.chunks[0].push_back(i * step % 100003);
      c.chunks.push_back({});
      for (int i = -50; i < 3000; ++i) c.chunks[1].push_back(i * 41 + 0.5f);
      Check(r, c);
    }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
