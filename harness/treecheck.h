// Checks a fitted tree against what best-first Newton boosting defines, without fixing how ties are broken.
#ifndef TREECHECK_H_
#define TREECHECK_H_
#include "common.h"

namespace ref {

struct GH { double g = 0, h = 0; };
inline double Energy(GH s, double l) { return s.h + l == 0 ? 0 : s.g * s.g / (s.h + l); }
inline GH Minus(GH a, GH b) { a.g -= b.g; a.h -= b.h; return a; }

class TreeChecker {
 public:
  // gh: weighted gradients and hessians per row.
  TreeChecker(const Data& data, const std::vector<std::string>& features, const std::vector<GH>& gh, const Config& config,
              double shrinkage, bool all_features = true)
      : d_(data), features_(features), gh_(gh), c_(config), shrinkage_(shrinkage), all_(all_features) {}

  // Of gains. Much smaller than the default only for exactly summable data.
  void set_tolerance(double t) { tol_ = t; }

  // Empty if the tree is right, else what is wrong.
  std::string Check(const TreeNode& tree, const std::vector<int>& rows) {
    err_.clear();
    std::vector<Item> frontier = {{&tree, rows}};
    VisitNode(frontier[0]);
    while (err_.empty() && (int)frontier.size() < c_.num_leaves()) {
      int best = -1;
      for (size_t i = 0; i < frontier.size(); ++i)
        if (frontier[i].node->has_left_child() &&
            (best < 0 || frontier[i].node->split().gain() > frontier[best].node->split().gain()))
          best = i;
      if (best < 0) {
        for (auto& it : frontier)
          if (all_ && it.lo > Floor() + 1e-5) Err("growing stopped though a leaf has a split with gain " + std::to_string(it.lo));
        break;
      }
      double g = frontier[best].node->split().gain();
      for (auto& it : frontier)
        if (all_ && !it.node->has_left_child() && it.lo > std::max(g, Floor() + 1e-5) + tol_ / 10 * (1 + std::fabs(g)))
          Err("a leaf with possible gain " + std::to_string(it.lo) + " was not split before one with gain " + std::to_string(g));
      Item it = frontier[best];
      frontier.erase(frontier.begin() + best);
      Item l{&it.node->left_child(), {}}, r{&it.node->right_child(), {}};
      for (int i : it.rows) (GoesLeft(*it.node, d_, i) ? l : r).rows.push_back(i);
      VisitNode(l);
      VisitNode(r);
      frontier.push_back(l);
      frontier.push_back(r);
    }
    if (err_.empty())
      for (auto& it : frontier)
        if (it.node->has_left_child()) Err("more leaves than the budget of " + std::to_string(c_.num_leaves()));
    return err_;
  }

 private:
  struct Item {
    const TreeNode* node;
    std::vector<int> rows;
    double lo = -1, hi = -1;  // the best possible gain is between these (they differ only for ties)
  };

  double Floor() const { return std::max(c_.min_gain(), 1e-6); }
  void Err(const std::string& s) { if (err_.empty()) err_ = s; }
  GH Sum(const std::vector<int>& rows) const {
    GH s;
    for (int i : rows) { s.g += gh_[i].g; s.h += gh_[i].h; }
    return s;
  }
  double Gain(GH l, GH tot) const {
    GH r = Minus(tot, l);
    if (!(std::min(l.h, r.h) > c_.min_hessian() + 1e-12)) return -1;
    return Energy(l, c_.l2_lambda()) + Energy(r, c_.l2_lambda()) - Energy(tot, c_.l2_lambda());
  }
  void BestFloat(const std::string& f, const std::vector<int>& rows, GH tot, double* best) const {
    const auto& v = d_.floats.at(f);
    std::map<float, GH> sums;
    GH miss;
    for (int i : rows) {
      GH& s = std::isnan(v[i]) ? miss : sums[v[i]];
      s.g += gh_[i].g; s.h += gh_[i].h;
    }
    GH left;
    *best = std::max(*best, Gain(miss, tot));
    for (auto& p : sums) {
      left.g += p.second.g; left.h += p.second.h;
      GH lm = left;
      lm.g += miss.g; lm.h += miss.h;
      *best = std::max(*best, std::max(Gain(left, tot), Gain(lm, tot)));
    }
  }
  void BestCat(const std::string& f, const std::vector<int>& rows, GH tot, double* lo, double* hi) const {
    const auto& v = d_.strings.at(f);
    std::map<std::string, GH> sums;
    for (int i : rows) { auto& s = sums[v[i]]; s.g += gh_[i].g; s.h += gh_[i].h; }
    std::vector<std::pair<double, GH>> s;
    for (auto& p : sums) {
      if (p.second.g == 0 && p.second.h == 0) continue;
      double hs = p.second.h + c_.l2_lambda();
      s.push_back({hs == 0 ? 0 : p.second.g / hs, p.second});
    }
    std::sort(s.begin(), s.end(), [](const std::pair<double, GH>& a, const std::pair<double, GH>& b) { return a.first < b.first; });
    std::vector<int> perm;
    bool ties = false;
    for (size_t i = 0; i < s.size(); ++i) { perm.push_back(i); if (i && s[i].first - s[i - 1].first <= 1e-9) ties = true; }
    double l = INFINITY, h = -1;
    if (ties && s.size() > 8) {
      // Too many orders: categories with equal scores count as one; every order has those splits.
      double best = -1;
      GH left;
      for (size_t i = 0; i + 1 < s.size(); ++i) {
        left.g += s[i].second.g; left.h += s[i].second.h;
        if (s[i + 1].first - s[i].first > 1e-9) best = std::max(best, Gain(left, tot));
      }
      *lo = std::max(*lo, best);
      *hi = INFINITY;
      return;
    }
    do {
      bool ok = true;
      for (size_t i = 1; i < perm.size(); ++i) if (s[perm[i]].first < s[perm[i - 1]].first - 1e-9) ok = false;
      if (!ok) continue;
      double best = -1;
      GH left;
      for (size_t i = 0; i + 1 < perm.size(); ++i) {
        left.g += s[perm[i]].second.g; left.h += s[perm[i]].second.h;
        best = std::max(best, Gain(left, tot));
      }
      l = std::min(l, best);
      h = std::max(h, best);
    } while (ties && std::next_permutation(perm.begin(), perm.end()));
    *lo = std::max(*lo, l);
    *hi = std::max(*hi, h);
  }

  void VisitNode(Item& it) {
    GH tot = Sum(it.rows);
    double hs = tot.h + c_.l2_lambda();
    double want = (hs == 0 ? 0 : tot.g / hs) * shrinkage_;
    if (!Near(it.node->score(), want, 3e-6))
      Err("a node with " + std::to_string(it.rows.size()) + " rows has score " + std::to_string(it.node->score()) +
          " instead of " + std::to_string(want));
    if (it.node->has_left_child() != it.node->has_right_child()) Err("a node has one child");
    it.lo = it.hi = -1;
    for (auto& f : features_) {
      if (d_.floats.count(f)) { double b = -1; BestFloat(f, it.rows, tot, &b); it.lo = std::max(it.lo, b); it.hi = std::max(it.hi, b); }
      if (d_.strings.count(f)) BestCat(f, it.rows, tot, &it.lo, &it.hi);
    }
    if (!it.node->has_left_child()) return;
    const auto& sp = it.node->split();
    if (std::find(features_.begin(), features_.end(), sp.feature()) == features_.end()) { Err("unknown feature '" + sp.feature() + "'"); return; }
    if (sp.has_float_split() == sp.has_cat_split() || sp.has_float_split() != (d_.floats.count(sp.feature()) > 0)) {
      Err("split type does not fit feature " + sp.feature());
      return;
    }
    std::set<std::string> cats(sp.cat_split().category().begin(), sp.cat_split().category().end());
    if ((int)cats.size() != sp.cat_split().category_size()) Err("a category is listed twice");
    std::vector<int> left;
    for (int i : it.rows) if (GoesLeft(*it.node, d_, i)) left.push_back(i);
    GH l = Sum(left), r = Minus(tot, l);
    double real = Energy(l, c_.l2_lambda()) + Energy(r, c_.l2_lambda()) - Energy(tot, c_.l2_lambda());
    if (!Near(real, sp.gain(), tol_))
      Err("a split on " + sp.feature() + " claims gain " + std::to_string(sp.gain()) + " but gains " + std::to_string(real));
    if (!(std::min(l.h, r.h) > c_.min_hessian() - 1e-9)) Err("a side has no more than the minimum hessian");
    if (!(sp.gain() > Floor() - 1e-9)) Err("a split gains only " + std::to_string(sp.gain()));
    if (sp.gain() > it.hi + tol_ * (1 + it.hi)) Err("a split gains more than possible: " + std::to_string(sp.gain()));
    if (all_ && sp.gain() < it.lo - tol_ * (1 + it.lo))
      Err("a split on " + sp.feature() + " gains " + std::to_string(sp.gain()) + " though " + std::to_string(it.lo) + " is possible");
  }

  const Data& d_;
  std::vector<std::string> features_;
  std::vector<GH> gh_;
  Config c_;
  double shrinkage_;
  double tol_ = 1e-6;
  bool all_;
  std::string err_;
};

}  // namespace ref
#endif
