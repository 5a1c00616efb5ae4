// Shared by the sequential harnesses: small data sets, reference evaluation, rendering of forests.
#ifndef COMMON_H_
#define COMMON_H_
#include <gflags/gflags.h>
#include <glog/logging.h>
#include <math.h>
#include <string.h>

#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include <google/protobuf/stubs/logging.h>

#include "mc.h"
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"

DECLARE_int32(num_threads);

namespace ref {

using gbdt::BucketizedFloatColumn;
using gbdt::Column;
using gbdt::Config;
using gbdt::DataStore;
using gbdt::Forest;
using gbdt::StringColumn;
using gbdt::TreeNode;

const char kMissing[] = "__missing__";

// A data set as a user sees it.
struct Data {
  int n = 0;
  std::map<std::string, std::vector<float>> floats;          // bucketized features, NaN: missing
  std::map<std::string, std::vector<std::string>> strings;   // kMissing: missing
  std::map<std::string, std::vector<float>> raws;

  std::unique_ptr<DataStore> Store() const {
    std::unique_ptr<DataStore> ds(new DataStore());
    auto add = [&](std::unique_ptr<Column> c) {
      if (!ds->Add(std::move(c)).ok()) { fprintf(stderr, "harness: Add failed\n"); abort(); }
    };
    for (auto& p : floats) add(Column::CreateBucketizedFloatColumn(p.first, p.second));
    for (auto& p : strings) add(Column::CreateStringColumn(p.first, p.second));
    for (auto& p : raws) add(Column::CreateRawFloatColumn(p.first, std::vector<float>(p.second)));
    return ds;
  }
  Data Rows(const std::vector<int>& rows) const {
    Data d;
    d.n = rows.size();
    for (auto& p : floats) { auto& v = d.floats[p.first]; for (int i : rows) v.push_back(p.second[i]); }
    for (auto& p : strings) { auto& v = d.strings[p.first]; for (int i : rows) v.push_back(p.second[i]); }
    for (auto& p : raws) { auto& v = d.raws[p.first]; for (int i : rows) v.push_back(p.second[i]); }
    return d;
  }
  std::string Show() const {
    std::ostringstream o;
    for (auto& p : floats) { o << p.first << "=["; for (float x : p.second) o << x << " "; o << "] "; }
    for (auto& p : strings) { o << p.first << "=["; for (auto& x : p.second) o << x << " "; o << "] "; }
    for (auto& p : raws) { o << p.first << "=["; for (float x : p.second) o << x << " "; o << "] "; }
    return o.str();
  }
};

inline bool GoesLeft(const TreeNode& t, const Data& d, int row) {
  const auto& s = t.split();
  if (s.has_float_split()) {
    float v = d.floats.at(s.feature())[row];
    if (std::isnan(v)) return !s.float_split().missing_to_right_child();
    return v < s.float_split().threshold();
  }
  const std::string& v = d.strings.at(s.feature())[row];
  for (auto& c : s.cat_split().category()) if (c == v) return true;
  return false;
}

inline double TreeScore(const TreeNode& t, const Data& d, int row) {
  const TreeNode* n = &t;
  while (n->has_left_child() || n->has_right_child())
    n = GoesLeft(*n, d, row) ? &n->left_child() : &n->right_child();
  return n->score();
}

inline double Score(const Forest& f, const Data& d, int row, int trees = -1) {
  double s = 0;
  for (int i = 0; i < f.tree_size() && (trees < 0 || i < trees); ++i) s += TreeScore(f.tree(i), d, row);
  return s;
}

inline std::string Hex(const void* p, size_t n) {
  std::string o;
  char b[4];
  for (size_t i = 0; i < n; ++i) { snprintf(b, sizeof b, "%02x", ((const unsigned char*)p)[i]); o += b; }
  return o;
}

// Every field that describes the model (not the meta info), to the last bit; categories as a set.
inline std::string Bits(const TreeNode& t) {
  std::string o = "(";
  float s = t.score();
  o += Hex(&s, 4);
  if (t.has_split()) {
    double g = t.split().gain();
    o += "|" + t.split().feature() + "|" + Hex(&g, 8);
    if (t.split().has_float_split()) {
      float v = t.split().float_split().threshold();
      o += "<" + Hex(&v, 4) + (t.split().float_split().missing_to_right_child() ? "R" : "L");
    }
    if (t.split().has_cat_split()) {
      o += "{";
      std::multiset<std::string> c(t.split().cat_split().category().begin(), t.split().cat_split().category().end());
      for (auto& x : c) o += x + ",";
      o += "}";
      for (auto x : t.split().cat_split().internal_categorical_index()) o += "#" + std::to_string(x);
    }
  }
  if (t.has_left_child()) o += "L" + Bits(t.left_child());
  if (t.has_right_child()) o += "R" + Bits(t.right_child());
  return o + ")";
}
inline std::string Bits(const Forest& f) {
  std::string o;
  for (auto& t : f.tree()) o += Bits(t);
  return o;
}

inline std::string Show(const TreeNode& t) {
  std::ostringstream o;
  if (t.has_left_child()) {
    o << "[" << t.split().feature();
    if (t.split().has_float_split())
      o << "<" << t.split().float_split().threshold() << (t.split().float_split().missing_to_right_child() ? " R" : " L");
    else {
      o << " in {";
      for (auto& c : t.split().cat_split().category()) o << c << ",";
      o << "}";
    }
    o << " gain " << t.split().gain() << " score " << t.score() << "? " << Show(t.left_child()) << ":"
      << Show(t.right_child()) << "]";
  } else {
    o << t.score();
  }
  return o.str();
}
inline std::string Show(const Forest& f) {
  std::string o;
  for (auto& t : f.tree()) o += Show(t) + "; ";
  return o;
}

inline bool Near(double a, double b, double tol = 1e-6) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

// Builders of trees.
inline TreeNode Leaf(float s) { TreeNode t; t.set_score(s); return t; }
inline TreeNode Node(const TreeNode& split_only, const TreeNode& l, const TreeNode& r) {
  TreeNode t = split_only;
  *t.mutable_left_child() = l;
  *t.mutable_right_child() = r;
  return t;
}
inline TreeNode FloatSplit(const std::string& f, float thr, bool right, double gain = 1) {
  TreeNode t;
  t.mutable_split()->set_feature(f);
  t.mutable_split()->set_gain(gain);
  t.mutable_split()->mutable_float_split()->set_threshold(thr);
  t.mutable_split()->mutable_float_split()->set_missing_to_right_child(right);
  return t;
}
inline TreeNode CatSplit(const std::string& f, const std::vector<std::string>& cats, double gain = 1) {
  TreeNode t;
  t.mutable_split()->set_feature(f);
  t.mutable_split()->set_gain(gain);
  t.mutable_split()->mutable_cat_split();
  for (auto& c : cats) t.mutable_split()->mutable_cat_split()->add_category(c);
  return t;
}

// All multisets of size k over 0..n-1, in non-decreasing order.
template <class F> void Multisets(int n, int k, F f) {
  std::vector<int> v(k, 0);
  while (true) {
    f(v);
    int i = k - 1;
    while (i >= 0 && v[i] == n - 1) --i;
    if (i < 0) return;
    int x = v[i] + 1;
    for (int j = i; j < k; ++j) v[j] = x;
  }
}
// All sequences of length k over 0..n-1.
template <class F> void Sequences(int n, int k, F f) {
  std::vector<int> v(k, 0);
  while (true) {
    f(v);
    int i = k - 1;
    while (i >= 0 && v[i] == n - 1) v[i--] = 0;
    if (i < 0) return;
    ++v[i];
  }
}
inline std::string ShowV(const std::vector<int>& v) {
  std::string o;
  for (int x : v) o += std::to_string(x) + " ";
  return o;
}

inline void Init() {
  FLAGS_minloglevel = 4;
  FLAGS_logtostderr = true;
  google::protobuf::SetLogHandler(nullptr);
}

}  // namespace ref
#endif
