// C16: pointwise losses on every small combination of scores, targets and weights, against their analytic derivatives.
#include "common.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"

using namespace ref;
using gbdt::GradientData;
using std::string;
using std::vector;

namespace {

typedef long double L;
struct D3 { L d1, d2; bool kink; };  // first and second derivative; kink: the second one jumps here

D3 Deriv(const string& loss, L y, L f) {
  if (loss == "mse") return {-2 * (y - f), 2, false};
  if (loss == "logloss") {
    L m = y * f;
    L p = m >= 0 ? expl(-m) / (1 + expl(-m)) : 1 / (1 + expl(m));
    L e = expl(-fabsl(m));
    return {-y * p, e / ((1 + e) * (1 + e)), false};
  }
  L m = y * f;
  bool kink = fabsl(m) < 1e-3L || fabsl(m - 1) < 1e-3L;
  if (m >= 1) return {0, 0, kink};
  if (m >= 0) return {-(1 - m) * y, 1, kink};
  return {-y, 0, kink};
}

// Newton's iteration for the constant; false: does not converge within the documented number of steps.
bool Newton(const string& loss, const vector<double>& f, const vector<float>& y, const vector<float>& w, L* c) {
  *c = 0;
  for (int k = 0; k < 10; ++k) {
    L g = 0, h = 0;
    for (size_t i = 0; i < f.size(); ++i) {
      D3 d = Deriv(loss, y[i], f[i] + *c);
      if (d.kink) return false;  // a rounding error decides
      g -= w[i] * d.d1;
      h += w[i] * d.d2;
    }
    if (h != 0 && h < 1e-9L) return false;
    L delta = h == 0 ? 0 : g / h;
    *c += delta;
    if (!(fabsl(*c) < 1e12L)) return false;
    if (fabsl(delta) <= 0.9e-4L) return true;
    if (fabsl(delta) <= 1.1e-4L) return false;  // a rounding error decides
  }
  return false;
}

void Check(mc::Runner& r, const string& loss, const vector<double>& f, const vector<float>& y, const vector<float>& w, int threads) {
  FLAGS_num_threads = threads;
  Config config;
  config.set_loss_func(loss);
  auto lf = gbdt::LossFuncFactory::CreateLossFunc(config);
  auto what = [&] {
    std::ostringstream o;
    o << loss << " threads " << threads << " rows";
    for (size_t i = 0; i < f.size() && i < 16; ++i) o << " (f=" << f[i] << " y=" << y[i] << " w=" << w[i] << ")";
    return o.str() + ": ";
  };
  auto st = lf->Init(f.size(), [&](int i) { return w[i]; }, [&](int i) { return y[i]; }, nullptr);
  if (!(st.ok())) r.Fail(what() + "Init failed: " + st.ToString());
  double c = 12345;
  vector<GradientData> g;
  string progress;
  lf->ComputeFunctionalGradientsAndHessians(f, &c, &g, f.size() % 2 ? &progress : nullptr);
  r.Step();
  if (!(g.size() == f.size())) r.Fail(what() + std::to_string(g.size()) + " gradients");
  if (!std::isfinite(c)) { r.Count("constant diverges"); return; }
  L ref;
  bool converges = Newton(loss, f, y, w, &ref);
  uint64_t hash = mc::Hash(loss);
  // The common factor.
  L k = 0;
  for (size_t i = 0; i < f.size(); ++i) {
    if (!(std::isfinite(g[i].g) && std::isfinite(g[i].h))) r.Fail(what() + "row " + std::to_string(i) + " has gradient " + std::to_string(g[i].g) + " and hessian " + std::to_string(g[i].h));
    if (!(g[i].h >= 0)) r.Fail(what() + "row " + std::to_string(i) + " has a negative hessian");
    hash = mc::Mix(hash, (uint64_t)(int64_t)(std::max(-1e9, std::min(1e9, g[i].g * 64))));
  }
  r.State(hash);
  if (!converges) {
    for (double x : f) if (fabs(x) > 1e9) { r.Count("constant does not converge"); return; }
    // Still, the gradients are those at some common constant: the derivatives are monotone, so their sum tells which.
    static std::map<string, L> factors;
    L& q = factors[loss];
    if (q == 0) {
      auto one = gbdt::LossFuncFactory::CreateLossFunc(config);
      vector<GradientData> og;
      double oc;
      one->Init(2, [](int) { return 1.0f; }, [](int i) { return i ? 1.0f : -1.0f; }, nullptr);
      one->ComputeFunctionalGradientsAndHessians({0, 0}, &oc, &og, nullptr);
      q = -og[0].g / Deriv(loss, -1, 0).d1;
    }
    L want = 0, lo = -1e13L, hi = 1e13L;
    for (auto& x : g) want += x.g;
    auto total = [&](L at) { L t = 0; for (size_t i = 0; i < f.size(); ++i) t -= q * Deriv(loss, y[i], f[i] + at).d1; return t; };
    for (int it = 0; it < 200; ++it) { L mid = (lo + hi) / 2; if (total(mid) > want) lo = mid; else hi = mid; }
    for (size_t i = 0; i < f.size(); ++i) {
      L a = -q * Deriv(loss, y[i], f[i] + lo).d1, b = -q * Deriv(loss, y[i], f[i] + hi).d1;
      L tol = 1e-6L * std::max<L>(1, fabsl(a));
      if (!(g[i].g <= a + tol && g[i].g >= b - tol)) r.Fail(what() + "row " + std::to_string(i) + " has gradient " + std::to_string(g[i].g) + " instead of " + std::to_string((double)a) + " for any common constant");
    }
    r.Count("constant does not converge");
    return;
  }
  if (!(fabsl(c - ref) <= 3e-4L * std::max<L>(1, fabsl(ref) * 1e-3L))) r.Fail(what() + "the constant is " + std::to_string(c) + " instead of " + std::to_string((double)ref));
  for (size_t i = 0; i < f.size() && k == 0; ++i) {
    D3 d = Deriv(loss, y[i], f[i] + ref);
    if (d.d2 > 1e-2L && !d.kink) k = g[i].h / d.d2;
    else if (fabsl(d.d1) > 1e-1L) k = -g[i].g / d.d1;
  }
  if (k == 0) k = loss == "mse" ? 0.5L : 1;
  if (!(k > 0.01L && k < 100)) r.Fail(what() + "the gradients are " + std::to_string((double)k) + " times the derivatives");
  for (size_t i = 0; i < f.size(); ++i) {
    D3 d = Deriv(loss, y[i], f[i] + ref);
    L scale = std::max<L>(1, fabsl(y[i]) + fabsl(f[i] + ref));
    L gt = loss == "logloss" ? 4e-4L * fabsl(d.d1) + 1e-12L : 4e-4L + 1e-9L * scale, ht = loss == "logloss" ? 4e-4L * d.d2 + 1e-12L : 1e-9L;
    if (!(fabsl(g[i].g + k * d.d1) <= gt * std::max<L>(1, k))) r.Fail(what() + "row " + std::to_string(i) + " has gradient " + std::to_string(g[i].g) + " instead of " + std::to_string((double)(-k * d.d1)) +
            " (constant " + std::to_string(c) + ")");
    if (!(d.kink || fabsl(g[i].h - k * d.d2) <= ht * std::max<L>(1, k))) r.Fail(what() + "row " + std::to_string(i) + " has hessian " + std::to_string(g[i].h) + " instead of " + std::to_string((double)(k * d.d2)) +
            " (constant " + std::to_string(c) + ")");
  }
  // The weighted gradient sum vanishes.
  L sum = 0, hs = 0;
  for (size_t i = 0; i < f.size(); ++i) { D3 d = Deriv(loss, y[i], f[i] + (L)c); sum += w[i] * d.d1; hs += w[i] * std::max<L>(d.d2, loss == "logloss" ? 0 : 1) ; }
  bool flat = false;  // no curvature at all: the iteration stops where it is
  { L h = 0; for (size_t i = 0; i < f.size(); ++i) h += w[i] * Deriv(loss, y[i], f[i] + ref).d2; flat = h == 0; }
  L mag = 0;
  for (size_t i = 0; i < f.size(); ++i) mag += w[i] * (fabsl(f[i]) + fabsl(y[i]));
  if (!(flat || fabsl(sum) <= 4e-4L * hs + 1e-7L * (loss == "mse" ? mag : 0))) r.Fail(what() + "the constant " + std::to_string(c) + " leaves the gradient sum " + std::to_string((double)sum));
  r.Count("constant converges");
}

void Body(mc::Runner& r) {
  Init();
  struct Grid { vector<double> f; vector<float> y, w; };
  auto run = [&](const string& loss, const Grid& g, int n) {
    int m = g.f.size() * g.y.size() * g.w.size();
    Multisets(m, n, [&](const vector<int>& v) {
      if (r.Done()) return;
      if (!r.Next([=] { return loss + " rows " + ShowV(v); })) return;
      vector<double> f;
      vector<float> y, w;
      int sum = 0;
      for (int x : v) {
        f.push_back(g.f[x % g.f.size()]);
        y.push_back(g.y[x / g.f.size() % g.y.size()]);
        w.push_back(g.w[x / g.f.size() / g.y.size()]);
        sum += x;
      }
      Check(r, loss, f, y, w, 1 + sum % 2);
    });
  };
  const vector<double> wide = {-800, -400, -40, -5, -1, -0.5, 0, 0.3, 1, 2, 20, 36.8, 750, 1e5, -1e8};
  const vector<double> mid = {-30, -2, -0.4, 0, 0.7, 3}, small = {-1.5, 0, 0.6};
  for (const char* loss : {"logloss", "huberized_hinge", "mse"}) {
    bool mse = loss[0] == 'm';
    vector<float> y = mse ? vector<float>{-1e6f, -3, 0, 0.5f, 1e5f} : vector<float>{-1, 1}, y2 = mse ? vector<float>{-3, 0.5f} : y;
    run(loss, {wide, y, {0, 1, 2.5f, 1e-3f, 100}}, 1);
    run(loss, {mse ? mid : wide, y, r.thorough ? vector<float>{0, 1, 2.5f, 1e-3f, 100} : vector<float>{0, 1, 2.5f}}, 2);
    run(loss, {mid, y2, r.thorough ? vector<float>{0, 1, 2.5f} : vector<float>{1, 2.5f}}, 3);
    run(loss, {small, y2, r.thorough ? vector<float>{0, 1, 3} : vector<float>{1}}, 4);
    if (r.thorough) run(loss, {small, y2, {1, 4}}, 5);
    // Any number of rows and threads: no row is left out.
    for (int n = 1; n <= (r.thorough ? 120 : 60); ++n)
      for (int threads : {1, 2, 3, 7}) {
        if (!r.Next([=] { return string(loss) + " " + std::to_string(n) + " rows, " + std::to_string(threads) + " threads"; })) continue;
        vector<double> f;
        vector<float> yy, w;
        for (int i = 0; i < n; ++i) { f.push_back((i * 37 % 23 - 11) / 7.0); yy.push_back(mse ? i * 13 % 17 / 3.0f : i * 5 % 7 < 4 ? 1 : -1); w.push_back(i * 11 % 5 / 2.0f + 0.25f); }
        Check(r, loss, f, yy, w, threads);
      }
    // Many rows.
    for (int n : {1000, 70001, 140003, 330000})
      for (int threads : {1, 4}) {
        if (!r.Next([=] { return string(loss) + " " + std::to_string(n) + " rows, " + std::to_string(threads) + " threads"; })) continue;
        vector<double> f;
        vector<float> yy, w;
        for (int i = 0; i < n; ++i) { f.push_back((i * 37 % 23 - 11) / 7.0); yy.push_back(mse ? i * 13 % 17 / 3.0f : i * 5 % 7 < 4 ? 1 : -1); w.push_back(i * 11 % 5 / 2.0f + 0.25f); }
        Check(r, loss, f, yy, w, threads);
      }
    // Any magnitude of the score: finite.
    for (int e = -40; e <= 300; ++e) {
      if (!r.Next([=] { return string(loss) + " scores of magnitude 1e" + std::to_string(e); })) continue;
      for (double a : {1.0, 3.7, 7.4}) for (int s = -1; s <= 1; s += 2) for (float t : {-1.0f, 1.0f}) {
        if (mse && e > 30) continue;
        Check(r, loss, {s * a * pow(10.0, e)}, {t}, {1}, 1);
        Check(r, loss, {s * a * pow(10.0, e), 0.5}, {t, -t}, {1, 2}, 1);
      }
    }
    // Fine steps through the region where the exponential over- or underflows.
    for (int i = -760; i <= 760; ++i) {
      if (!r.Next([=] { return string(loss) + " score " + std::to_string(i); })) continue;
      for (double o : {0.0, 0.25}) { Check(r, loss, {i + o}, {1}, {1}, 1); Check(r, loss, {i + o}, {-1}, {1}, 1); Check(r, loss, {i + o, i + o}, {1, -1}, {1, 1}, 1); }
    }
    // Targets.
    for (int n = 1; n <= 6; ++n)
      for (int pos = 0; pos < n; ++pos)
        for (float t : {0.0f, 0.5f, 2.0f, -2.0f, NAN, INFINITY, 0.99999994f, -1.0000001f, 1.0f, -1.0f, -0.0f, 255.0f}) {
          if (!r.Next([=] { return string(loss) + " target " + std::to_string(t) + " at " + std::to_string(pos) + " of " + std::to_string(n); })) continue;
          Config config;
          config.set_loss_func(loss);
          auto lf = gbdt::LossFuncFactory::CreateLossFunc(config);
          bool ok = lf->Init(n, [](int) { return 1.0f; }, [&](int i) { return i == pos ? t : i % 2 ? 1.0f : -1.0f; }, nullptr).ok();
          bool valid = t == 1 || t == -1;
          r.Step();
          if (!mse) r.Check(ok == valid, string(loss) + (ok ? " accepts" : " rejects") + " the target " + std::to_string(t));
        }
  }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
