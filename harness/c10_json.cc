// C10: forests and configurations through JSON and back; texts that are not JSON of the expected form.
#include <google/protobuf/message.h>
#include <google/protobuf/util/message_differencer.h>

#include "common.h"
#include "src/utils/json_utils.h"

using namespace ref;
using google::protobuf::Message;
using std::string;
using std::vector;

namespace {

bool Same(float a, float b) { return (std::isnan(a) && std::isnan(b)) || a == b; }  // JSON has no sign of zero
bool Same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

// All fields, written out by hand (not with reflection), so that nothing is compared through the code under test.
bool Same(const TreeNode& a, const TreeNode& b) {
  if (!Same(a.score(), b.score()) || a.has_split() != b.has_split() || a.has_left_child() != b.has_left_child() ||
      a.has_right_child() != b.has_right_child()) return false;
  if (a.has_split()) {
    const auto &s = a.split(), &t = b.split();
    if (s.feature() != t.feature() || !Same(s.gain(), t.gain()) || s.has_float_split() != t.has_float_split() || s.has_cat_split() != t.has_cat_split())
      return false;
    if (!Same(s.float_split().threshold(), t.float_split().threshold()) ||
        s.float_split().missing_to_right_child() != t.float_split().missing_to_right_child()) return false;
    if (s.cat_split().category_size() != t.cat_split().category_size()) return false;
    for (int i = 0; i < s.cat_split().category_size(); ++i) if (s.cat_split().category(i) != t.cat_split().category(i)) return false;
  }
  return (!a.has_left_child() || Same(a.left_child(), b.left_child())) && (!a.has_right_child() || Same(a.right_child(), b.right_child()));
}
bool Same(const Forest& a, const Forest& b) {
  if (a.tree_size() != b.tree_size() || a.meta_info() != b.meta_info()) return false;
  for (int i = 0; i < a.tree_size(); ++i) if (!Same(a.tree(i), b.tree(i))) return false;
  return true;
}

bool Utf8(const string& s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
    if (n < 0 || i + n >= s.size() + (n == 0)) return false;
    unsigned v = n == 0 ? c : c & (0x3f >> n);
    for (int k = 1; k <= n; ++k) {
      unsigned char x = s[i + k];
      if ((x & 0xc0) != 0x80) return false;
      v = v << 6 | (x & 0x3f);
    }
    if ((n == 2 && v < 0x800) || (n == 3 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000)) return false;
    i += n + 1;
  }
  return true;
}
string Encode(unsigned c) {
  string s;
  if (c < 0x80) s += c;
  else if (c < 0x800) { s += 0xc0 | c >> 6; s += 0x80 | (c & 0x3f); }
  else if (c < 0x10000) { s += 0xe0 | c >> 12; s += 0x80 | (c >> 6 & 0x3f); s += 0x80 | (c & 0x3f); }
  else { s += 0xf0 | c >> 18; s += 0x80 | (c >> 12 & 0x3f); s += 0x80 | (c >> 6 & 0x3f); s += 0x80 | (c & 0x3f); }
  return s;
}

// Round trip. representable: whether JSON can hold the message (otherwise an error is required);
// -1: either an error or the same message.
void Trip(mc::Runner& r, const Forest& f, int representable) {
  string json;
  auto st = JsonUtils::ToJson(f, &json);
  r.Step();
  if (st.ok()) {
    Forest g;
    g.add_tree()->set_score(7);  // is to be replaced
    g.set_meta_info("x");
    auto st2 = JsonUtils::FromJson(json, &g);
    if (representable != 0 && st2.ok()) {
      r.Check(Same(f, g), "changed by the round trip: " + f.ShortDebugString().substr(0, 1500) + " -> " + g.ShortDebugString().substr(0, 1500));
      r.State(mc::Hash(json));
      return;
    }
    r.Check(representable != 1 || st2.ok(), "its own JSON is rejected (" + st2.ToString() + "): " + json.substr(0, 1500));
    r.Check(representable != 0 || !st2.ok(), "was silently altered: " + f.ShortDebugString().substr(0, 1500) + " -> " + g.ShortDebugString().substr(0, 1500));
    r.Check(false, "conversion to JSON succeeded but gave a text that is rejected: " + json.substr(0, 1500));
  } else {
    r.Check(representable != 1, "cannot be converted to JSON: " + st.ToString() + ": " + f.ShortDebugString().substr(0, 1500));
    r.Count("not representable, reported");
  }
}

void TripConfig(mc::Runner& r, const Config& c, bool representable = true) {
  string json;
  auto st = JsonUtils::ToJson(c, &json);
  r.Step();
  r.Check(st.ok() == representable, "config " + c.ShortDebugString() + ": conversion to JSON " + st.ToString());
  if (!st.ok()) return;
  Config d;
  d.set_num_trees(99);
  d.add_float_feature("zz");
  auto st2 = JsonUtils::FromJson(json, &d);
  r.Check(st2.ok(), "config " + json + " is rejected: " + st2.ToString());
  auto bits = [](float x) { return x == 0 ? 0.0f : x; };
  bool same = c.num_trees() == d.num_trees() && c.num_leaves() == d.num_leaves() && Same(c.shrinkage(), d.shrinkage()) && Same(c.min_gain(), d.min_gain()) &&
              Same(c.l2_lambda(), d.l2_lambda()) && Same(c.min_hessian(), d.min_hessian()) && Same(c.example_sampling_rate(), d.example_sampling_rate()) &&
              Same(c.feature_sampling_rate(), d.feature_sampling_rate()) && c.eval_interval() == d.eval_interval() && c.loss_func() == d.loss_func() &&
              Same(c.pair_sampling_rate(), d.pair_sampling_rate()) && c.pair_weight_by_delta_target() == d.pair_weight_by_delta_target() &&
              Same(bits(c.lambdamart_dcg_base()), bits(d.lambdamart_dcg_base())) && c.equal_group_weight() == d.equal_group_weight() &&
              c.weight_column() == d.weight_column() && c.target_column() == d.target_column() && c.binarize_target() == d.binarize_target() &&
              c.group_column() == d.group_column();
  auto rep = [](const google::protobuf::RepeatedPtrField<string>& a, const google::protobuf::RepeatedPtrField<string>& b) {
    if (a.size() != b.size()) return false;
    for (int i = 0; i < a.size(); ++i) if (a.Get(i) != b.Get(i)) return false;
    return true;
  };
  same = same && rep(c.float_feature(), d.float_feature()) && rep(c.categorical_feature(), d.categorical_feature()) &&
         rep(c.additional_float_column(), d.additional_float_column()) && rep(c.additional_string_column(), d.additional_string_column());
  r.Check(same, "config changed by the round trip: " + c.ShortDebugString() + " -> " + d.ShortDebugString());
  r.State(mc::Hash(json) + 1);
}

float F(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
double D(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }

void AddFloat(Forest* f, float x, double y) {
  auto* n = f->add_tree();
  n->set_score(x);
  n->mutable_split()->set_feature("f");
  n->mutable_split()->set_gain(y);
  n->mutable_split()->mutable_float_split()->set_threshold(x);
  n->mutable_split()->mutable_float_split()->set_missing_to_right_child(f->tree_size() & 1);
  n->mutable_left_child()->set_score(-x);
  n->mutable_right_child()->set_score(x);
}

Forest Sample1() {
  Forest f;
  f.add_tree()->set_score(0.25f);
  AddFloat(&f, 1.5f, 2.25);
  auto* n = f.add_tree();
  n->mutable_split()->set_feature("c");
  n->mutable_split()->set_gain(0.1);
  n->mutable_split()->mutable_cat_split()->add_category("a\"b");
  n->mutable_split()->mutable_cat_split()->add_category("\xc3\xa9");
  n->mutable_left_child()->set_score(-1e-7f);
  n->mutable_right_child()->set_score(3e30f);
  f.set_meta_info("m {x}");
  return f;
}

void Shapes(mc::Runner& r, int depth) {
  // All node shapes: kind of split, children, recursively; as the only tree and followed by another tree.
  std::function<void(int, std::function<void(const TreeNode&)>)> gen = [&](int d, std::function<void(const TreeNode&)> cb) {
    for (int kind = 0; kind < 5; ++kind) {
      TreeNode n;
      if (kind) n.mutable_split()->set_feature(kind == 2 ? "" : "f");
      if (kind == 2) n.mutable_split()->mutable_float_split();
      if (kind == 3) { n.mutable_split()->mutable_float_split()->set_missing_to_right_child(true); n.mutable_split()->mutable_float_split()->set_threshold(0.5f); }
      if (kind == 4) { n.mutable_split()->mutable_cat_split()->add_category(""); n.mutable_split()->mutable_cat_split()->add_category("x"); }
      n.set_score(d + kind);
      cb(n);
      if (d == 0 || kind == 1 || kind == 2) continue;
      gen(d - 1, [&](const TreeNode& l) {
        TreeNode m = n;
        *m.mutable_left_child() = l;
        gen(0, [&](const TreeNode& q) { TreeNode o = m; *o.mutable_right_child() = q; cb(o); });
        TreeNode o = n;
        o.mutable_left_child()->set_score(4);
        *o.mutable_right_child() = l;
        cb(o);
      });
    }
  };
  gen(depth, [&](const TreeNode& n) {
    if (r.Done()) return;
    if (!r.Next([&] { return "tree " + n.ShortDebugString(); })) return;
    Forest f;
    *f.add_tree() = n;
    Trip(r, f, 1);
    f.add_tree()->set_score(2);
    Trip(r, f, 1);
  });
}

void Texts(mc::Runner& r) {
  string valid[3];
  JsonUtils::ToJson(Sample1(), &valid[0]);
  Config c;
  c.set_num_trees(3); c.set_shrinkage(0.5f); c.set_loss_func("mse"); c.add_float_feature("a"); c.add_float_feature("b"); c.set_binarize_target(true);
  JsonUtils::ToJson(c, &valid[1]);
  valid[2] = "{\"tree\": [{\"score\": 1}, {\"score\": -2.5e3, \"leftChild\": {\"score\": 1}}], \"metaInfo\": \"a\\u00e9\\n\"}";
  auto load = [&](int which, const string& t) {
    if (which == 1) { Config x; return JsonUtils::FromJson(t, &x).ok(); }
    Forest x;
    return JsonUtils::FromJson(t, &x).ok();
  };
  for (int k = 0; k < 3; ++k) {
    if (!r.Next([&] { return "text " + std::to_string(k) + " truncations and additions"; })) continue;
    const string& v = valid[k];
    r.Check(load(k, v), "valid JSON is rejected: " + v);
    r.Check(load(k, " \n\t" + v + " \r\n"), "white space around valid JSON is rejected");
    for (size_t i = 0; i < v.size(); ++i) {
      r.Check(!load(k, v.substr(0, i)), "accepted though truncated: " + v.substr(0, i));
      // Every closing bracket or quote that is lost or added.
      if (strchr("{}[]\"", v[i])) {
        string t = v;
        t.erase(i, 1);
        bool escaped = i > 0 && v[i - 1] == '\\';
        bool in_string = false;
        for (size_t j = 0; j < i; ++j) { if (v[j] == '\\') { ++j; continue; } if (v[j] == '"') in_string = !in_string; }
        if (!escaped && (v[i] == '"' || !in_string)) {
          // Some texts without their brackets are again of the expected form: an empty list and a list of one message.
          bool lenient = v[i] != '{' && v[i] != '}';
          if (!lenient) r.Check(!load(k, t), "accepted: " + t);
        }
      }
      r.Step();
    }
    for (const char* g : {"}", "]", "x", "1", ",", "{}", "\"\"", "null", "\xff", "//", ":"}) {
      r.Check(!load(k, v + g), string("accepted though followed by ") + g);
      r.Check(!load(k, v + " " + g), string("accepted though followed by ") + g);
      r.Check(!load(k, string(g) + v), string("accepted though preceded by ") + g);
    }
    r.Check(!load(k, v + string(1, 0)) , "accepted though followed by NUL");
    r.State("text" + std::to_string(k));
  }
  struct B { int which; const char* text; };
  const B bad[] = {{0, ""}, {0, " "}, {0, "null"}, {0, "[]"}, {0, "1"}, {0, "\"x\""}, {0, "true"}, {0, "{\"foo\":1}"}, {0, "{\"tree\":5}"}, {0, "{\"tree\":\"x\"}"},
      {0, "{\"tree\":[5]}"}, {0, "{\"tree\":[{\"score\":\"x\"}]}"}, {0, "{\"tree\":[{\"score\":true}]}"}, {0, "{\"tree\":[{\"score\":[]}, 3]}"},
      {0, "{\"tree\":[{\"score\":{}}]}"}, {0, "{\"tree\":[{\"score\":1e39}]}"}, {0, "{\"tree\":[{\"score\":1e400}]}"}, {0, "{\"tree\":[{\"scores\":1}]}"},
      {0, "{\"tree\":[{\"split\":5}]}"}, {0, "{\"tree\":[{\"split\":{\"feature\":7}}]}"}, {0, "{\"tree\":[{\"split\":{\"gain\":\"1e400\"}}]}"},
      {0, "{\"tree\":[{\"split\":{\"floatSplit\":{\"threshold\":\"abc\"}}}]}"}, {0, "{\"tree\":[{\"split\":{\"floatSplit\":{\"missingToRightChild\":3}}}]}"},
      {0, "{\"tree\":[{\"split\":{\"catSplit\":{\"category\":[1]}}}]}"}, {0, "{\"metaInfo\":5}"}, {0, "{\"metaInfo\":{}}"}, {0, "tree { score: 1 }"},
      {0, "{\"tree\":[{\"score\":1} {\"score\":2}]}"}, {0, "{\"tree\" [{\"score\":1}]}"}, {0, "{\"metaInfo\":\"\\ud800\"}"},
      {1, "{\"numTrees\":1.5}"}, {1, "{\"numTrees\":\"x\"}"}, {1, "{\"numTrees\":3000000000}"}, {1, "{\"numTrees\":true}"}, {1, "{\"num_tree\":1}"},
      {1, "{\"lossFunc\":3}"}, {1, "{\"binarizeTarget\":\"maybe\"}"}, {1, "{\"floatFeature\":[1]}"}, {1, "{\"floatFeature\":{\"a\":1}}"}, {1, "num_trees: 3"},
      {1, "{\"shrinkage\":\"fast\"}"}, {1, "{\"shrinkage\":{}}"}, {1, "{\"numTrees\":1"}, {1, "{\"numTrees\":}"}};
  for (auto& b : bad) {
    if (!r.Next([&] { return string("text ") + b.text; })) continue;
    r.Check(!load(b.which, b.text), string("accepted: ") + b.text);
    r.State(b.text);
    r.Step();
  }
}

void Body(mc::Runner& r) {
  Init();
  // Strings: every code point (the surrogates are not representable), every pair of bytes, pairs of awkward characters.
  auto strings = [&](const vector<string>& v, int representable) {
    Forest f;
    auto* s = f.add_tree()->mutable_split();
    s->set_feature(v[0]);
    for (auto& x : v) s->mutable_cat_split()->add_category(x);
    f.set_meta_info(v.back());
    Trip(r, f, representable);
  };
  for (unsigned b = 0; b < 0x110000; b += 0x800) {
    if (!r.Next([=] { return "code points from " + std::to_string(b); })) continue;
    if (b == 0xd800) { for (unsigned c = b; c < b + 0x800; c += 37) strings({Encode(c)}, 0); continue; }
    vector<string> v;
    for (unsigned c = b; c < b + 0x800; ++c) v.push_back(Encode(c));
    strings(v, 1);
  }
  for (int a = 0; a < 256; ++a) {
    if (!r.Next([=] { return "byte pairs from " + std::to_string(a); })) continue;
    string s(1, (char)a);
    strings({s}, Utf8(s));
    for (int b = 0; b < 256; b += r.thorough || a < 128 ? 1 : 3) { string t = s + (char)b; strings({t}, Utf8(t)); }
  }
  const vector<string> odd = {"a", "\"", "\\", "/", "\n", string(1, 0), "\xc3\xa9", "\xf0\x9f\x98\x80", "\xe2\x80\xa8", "\x7f", "<", " ", "\t", "{", "u0041", "\xff",
                              "\xed\xa0\x80", "\xc0\x80", "__missing__", "\xef\xbb\xbf"};
  for (size_t a = 0; a < odd.size(); ++a) {
    if (!r.Next([=] { return "strings starting with odd string " + std::to_string(a); })) continue;
    for (auto& b : odd) {
      strings({odd[a] + b}, Utf8(odd[a] + b));
      // One string that is not representable among others.
      strings({"x", odd[a], b}, Utf8(odd[a]) && Utf8(b));
      Config c;
      c.set_loss_func(odd[a]); c.set_weight_column(b); c.add_float_feature(odd[a] + b); c.add_float_feature(b);
      TripConfig(r, c, Utf8(odd[a]) && Utf8(b) && Utf8(odd[a] + b));
      if (r.thorough) for (auto& e : odd) strings({odd[a] + b + e}, Utf8(odd[a] + b + e));
    }
  }
  // Numbers.
  for (int e = 0; e < 256; ++e)
    for (int half = 0; half < (r.thorough ? 1024 : 1); ++half) {
      if (r.Done()) break;
      if (!r.Next([=] { return "floats with exponent " + std::to_string(e) + " part " + std::to_string(half); })) continue;
      Forest f;
      vector<uint32_t> m;
      for (int i = 0; i < 23; ++i) { m.push_back(1u << i); m.push_back((1u << i) - 1); m.push_back((0x7fffffu << i) & 0x7fffff); }
      uint32_t x = 12345 + e * 977 + half * 31337;
      for (int i = 0; i < 60; ++i) { x = x * 1664525 + 1013904223; m.push_back(x >> 9); }
      for (uint32_t k : m)
        for (int sign = 0; sign < 2; ++sign) {
          float v = F((uint32_t)sign << 31 | (uint32_t)e << 23 | k);
          uint64_t de = ((uint64_t)e * 8 + (k & 7) + half) % 2048;
          AddFloat(&f, v, D((uint64_t)sign << 63 | de << 52 | ((uint64_t)k * 0x9E3779B97F4A7ull & 0xfffffffffffffull)));
        }
      Trip(r, f, 1);
      r.Count("numbers", m.size() * 2);
    }
  // Configurations: every field alone and every pair of fields.
  vector<std::function<void(Config*, int)>> set = {
      [](Config* c, int k) { int v[] = {1, -1, 2147483647, (int)-2147483648}; c->set_num_trees(v[k]); },
      [](Config* c, int k) { int v[] = {1, -1, 2147483647, 7}; c->set_num_leaves(v[k]); },
      [](Config* c, int k) { float v[] = {0.1f, -1, NAN, INFINITY}; c->set_shrinkage(v[k]); },
      [](Config* c, int k) { double v[] = {0.1, -1, NAN, -INFINITY}; c->set_min_gain(v[k]); },
      [](Config* c, int k) { double v[] = {0.1, 1e-300, 5e-324, 1.7976931348623157e308}; c->set_l2_lambda(v[k]); },
      [](Config* c, int k) { double v[] = {0.1, 1.0 / 3, 100, 1e17}; c->set_min_hessian(v[k]); },
      [](Config* c, int k) { float v[] = {0.1f, 1, 1e-45f, 3.4028235e38f}; c->set_example_sampling_rate(v[k]); },
      [](Config* c, int k) { float v[] = {0.7f, 1, NAN, 2}; c->set_feature_sampling_rate(v[k]); },
      [](Config* c, int k) { int v[] = {1, -1, 10, 100000}; c->set_eval_interval(v[k]); },
      [](Config* c, int k) { const char* v[] = {"mse", "x y", "\xc3\xa9", "\""}; c->set_loss_func(v[k]); },
      [](Config* c, int k) { float v[] = {0.1f, 1, 16777216, 123456.789f}; c->set_pair_sampling_rate(v[k]); },
      [](Config* c, int k) { c->set_pair_weight_by_delta_target(k & 1); },
      [](Config* c, int k) { float v[] = {0.1f, 1, 2, 2.7182817f}; c->set_lambdamart_dcg_base(v[k]); },
      [](Config* c, int k) { c->set_equal_group_weight(k & 1); },
      [](Config* c, int k) { const char* v[] = {"a", "b", "", "a\tb"}; c->add_float_feature(v[k]); c->add_float_feature(v[3 - k]); },
      [](Config* c, int k) { const char* v[] = {"a", "b", "", "a\nb"}; c->add_categorical_feature(v[k]); },
      [](Config* c, int k) { const char* v[] = {"w", "b", "\\", "a/b"}; c->set_weight_column(v[k]); },
      [](Config* c, int k) { const char* v[] = {"t", "b", "\\u0041", "a'b"}; c->set_target_column(v[k]); },
      [](Config* c, int k) { c->set_binarize_target(k & 1); },
      [](Config* c, int k) { const char* v[] = {"g", "b", "1", "true"}; c->set_group_column(v[k]); },
      [](Config* c, int k) { const char* v[] = {"p", "q", "null", "[]"}; for (int i = 0; i <= k; ++i) c->add_additional_float_column(v[i]); },
      [](Config* c, int k) { const char* v[] = {"p", "q", "null", "{}"}; for (int i = 0; i <= k; ++i) c->add_additional_string_column(v[i]); }};
  for (size_t a = 0; a < set.size(); ++a)
    for (size_t b = a; b < set.size(); ++b) {
      if (!r.Next([=] { return "config fields " + std::to_string(a) + "," + std::to_string(b); })) continue;
      for (int k = 0; k < 4; ++k)
        for (int l = 0; l < 4; ++l) { Config c; set[a](&c, k); if (a != b) set[b](&c, l); TripConfig(r, c); }
    }
  Shapes(r, r.thorough ? 3 : 2);
  // Depth: chains up to far beyond what the JSON parser takes; an error or the same forest.
  for (int d : {1, 5, 20, 30, 31, 32, 33, 34, 40, 45, 48, 49, 50, 51, 60, 64, 95, 96, 97, 98, 99, 100, 101, 120, 150, 300, 1000, 5000}) {
    if (!r.Next([=] { return "chain of depth " + std::to_string(d); })) continue;
    Forest f;
    TreeNode* n = f.add_tree();
    for (int i = 0; i < d; ++i) { n->mutable_split()->set_feature("f"); n->mutable_right_child()->set_score(i); n = n->mutable_left_child(); }
    n->set_score(1);
    string json;
    auto st = JsonUtils::ToJson(f, &json);
    Forest g;
    if (!st.ok()) { r.Check(d > 45, "cannot be converted: " + st.ToString()); r.Count("too deep, reported"); continue; }
    st = JsonUtils::FromJson(json, &g);
    if (!st.ok()) { r.Check(d > 45, "its own JSON is rejected: " + st.ToString()); r.Count("too deep, reported"); continue; }
    r.Check(Same(f, g), "changed");
    r.State("chain" + std::to_string(d));
  }
  // Forests of many trees.
  for (int n : {0, 1, 2, 3, 10, 100, 1000, 20000}) {
    if (!r.Next([=] { return "forest of " + std::to_string(n); })) continue;
    Forest f;
    for (int i = 0; i < n; ++i) AddFloat(&f, i / 7.0f, i / 3.0);
    Trip(r, f, 1);
  }
  // Large messages with an odd string somewhere, and large settings.
  for (int n : {10, 40, 100, 1000, 10000, r.thorough ? 100000 : 30000})
    for (size_t a = 0; a < odd.size(); ++a) {
      if (n > 10000 && a % 5 != 0 && !r.thorough) continue;
      for (int at = 0; at < 3; ++at) {
        const int where = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
        for (int kind = 0; kind < 4; ++kind) {
          if (!r.Next([=] { return "odd string " + std::to_string(a) + " at " + std::to_string(where) + " of " + std::to_string(n) + ", kind " + std::to_string(kind); })) continue;
          Forest f;
          Config c;
          auto text = [&](int i, const string& s) { return i == where ? odd[a] : s + std::to_string(i); };
          if (kind == 0)
            for (int i = 0; i < n; ++i) {
              if (i % 3) f.add_tree()->set_score(i % 2);
              else AddFloat(&f, i % 4, i % 5);
              if (i != where) continue;
              auto* s = f.mutable_tree(i)->mutable_split();
              if (a % 2) s->set_feature(odd[a]);
              else { s->set_feature("c"); s->mutable_cat_split()->add_category(odd[a]); }
            }
          else
            f.add_tree()->mutable_split()->mutable_cat_split();
          if (kind == 1)
            for (int i = 0; i < n; ++i) (i % 2 ? c.add_float_feature() : c.add_categorical_feature())->assign(text(i, "feature "));
          if (kind == 2)
            for (int i = 0; i < n; ++i) f.mutable_tree(0)->mutable_split()->mutable_cat_split()->add_category(text(i, "category "));
          if (kind == 3) {
            string big;
            for (int i = 0; i < n; ++i) big += i == where ? odd[a] : "\xc3\xa9x";
            f.set_meta_info(big);
          }
          if (kind == 1) TripConfig(r, c, Utf8(odd[a]));
          else Trip(r, f, Utf8(odd[a]));
        }
      }
    }
  // One message of more than a few megabytes, one string of that size.
  for (int kind = 0; kind < 3; ++kind)
    for (int mb : {1, 2, 5}) {
      if (!r.Next([=] { return std::to_string(mb) + " MB, kind " + std::to_string(kind); })) continue;
      Forest f;
      if (kind == 0) f.set_meta_info(string(mb * 1100000, 'm') + "end");
      if (kind == 1) { auto* c = f.add_tree()->mutable_split()->mutable_cat_split(); for (int i = 0; i < mb * 60000; ++i) c->add_category("category " + std::to_string(i)); }
      if (kind == 2) for (int i = 0; i < mb * 10000; ++i) AddFloat(&f, i / 7.0f, i / 3.0);
      Trip(r, f, 1);
    }
  Texts(r);
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
