// C28: what training reports (loss, its reduction, one log line per tree, the settings kept in the model, durations).
#include "boostcheck.h"
#include <google/protobuf/descriptor.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "src/utils/stopwatch.h"

using namespace ref;
using gbdt::GradientData;
using std::string;
using std::vector;

// The time the training thread believes to have passed on top of the real one.
static thread_local bool late = false;
static double extra_seconds = 0;
extern "C" int clock_gettime(clockid_t clock, struct timespec* ts) noexcept {
  int e = syscall(SYS_clock_gettime, clock, ts);
  if (e == 0 && late && (clock == CLOCK_REALTIME || clock == CLOCK_MONOTONIC)) ts->tv_sec += (time_t)extra_seconds;
  return e;
}

namespace {

double Now() {
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

double LossOf(const string& loss, double y, double f) {
  double m = y * f;
  if (loss == "mse") return (y - f) * (y - f);
  if (loss == "logloss") return m > 0 ? log1p(exp(-m)) : -m + log1p(exp(m));
  return m >= 1 ? 0 : m >= 0 ? 0.5 * (1 - m) * (1 - m) : 0.5 - m;
}

// The loss of a pair with the given difference of targets and scores.
double PairLossOf(const string& loss, double dt, double d) {
  if (loss == "auc") return LossOf("huberized_hinge", 1, d);
  if (loss == "gbrank") return dt > d ? (dt - d) * (dt - d) : 0;
  return LossOf("logloss", 1, d);
}

// "…loss=L,reduced=R%…"
bool Parse(const string& s, double* loss, double* reduced) {
  size_t a = s.find("loss="), b = s.find("reduced=");
  if (a == string::npos || b == string::npos) return false;
  char *e1, *e2;
  *loss = strtod(s.c_str() + a + 5, &e1);
  *reduced = strtod(s.c_str() + b + 8, &e2);
  return e1 != s.c_str() + a + 5 && *e1 == ',' && e2 != s.c_str() + b + 8 && *e2 == '%';
}

// Empty: the message is right.
string Judge(const string& msg, double loss, double first, double tol) {
  double l, q;
  if (!Parse(msg, &l, &q)) return "the progress '" + msg + "' has no loss and reduction";
  if (!(fabs(l - loss) <= 1e-5 * fabs(loss) + tol)) return "the progress '" + msg + "' reports another loss than " + std::to_string(loss);
  if (first < 1e-5) return "";  // mostly rounding errors
  double want = (first - loss) / first * 100;
  double t = 0.006 + 1e-9 * fabs(want) + tol / first * 100 * (1 + loss / first);
  if (!(fabs(q - want) <= t)) return "the progress '" + msg + "' reports another reduction than " + std::to_string(want) + "%";
  return "";
}

double Mean(const string& loss, const vector<double>& f, double c, const vector<float>& y, const vector<float>& w) {
  double s = 0, t = 0;
  for (size_t i = 0; i < f.size(); ++i) { s += w[i] * LossOf(loss, y[i], f[i] + c); t += w[i]; }
  return s / t;
}

// Whether Newton's iteration ends at the constant, which makes the loss stationary there.
bool Stationary(const string& loss, const vector<double>& f, double c, const vector<float>& y, const vector<float>& w) {
  if (!std::isfinite(c)) return false;
  double a = Mean(loss, f, c - 2e-4, y, w), b = Mean(loss, f, c + 2e-4, y, w), m = Mean(loss, f, c, y, w);
  return m <= a + 1e-12 && m <= b + 1e-12;
}

// Two or three calls with growing scores.
void Pointwise(mc::Runner& r, const string& loss, const vector<double>& f0, const vector<float>& y, const vector<float>& w, int threads) {
  FLAGS_num_threads = threads;
  double ws = 0;
  for (float x : w) ws += x;
  if (ws == 0) return;
  Config config;
  config.set_loss_func(loss);
  auto lf = gbdt::LossFuncFactory::CreateLossFunc(config);
  auto st = lf->Init(f0.size(), [&](int i) { return w[i]; }, [&](int i) { return y[i]; }, nullptr);
  r.Check(st.ok(), "Init failed: " + st.ToString());
  double first = -1;
  vector<double> f = f0;
  for (int call = 0; call < 3; ++call) {
    double c = 0;
    vector<GradientData> g;
    string msg;
    // Whether progress is asked for changes nothing else, and a call without it is not the first reported loss.
    lf->ComputeFunctionalGradientsAndHessians(f, &c, &g, &msg);
    r.Step();
    if (!Stationary(loss, f, c, y, w)) { r.Count("constant does not converge"); return; }
    double want = Mean(loss, f, c, y, w);
    if (first < 0) first = want;
    auto what = [&] {
      std::ostringstream o;
      o << loss << " threads " << threads << " call " << call << " rows";
      for (size_t i = 0; i < f.size() && i < 12; ++i) o << " (f=" << f[i] << " y=" << y[i] << " w=" << w[i] << ")";
      return o.str() + ": ";
    };
    string e = Judge(msg, want, first, 1e-7);
    if (!e.empty()) r.Fail(what() + e);
    r.State(msg);
    r.Count("loss reported");
    for (size_t i = 0; i < f.size(); ++i) f[i] += c + 0.25 * y[i] * ((i + call) % 3);
  }
}

struct G { int a, b; double dt, df; float wa, wb; };  // a rows above b rows

void Pairs(mc::Runner& r, const string& loss, const vector<G>& groups, float rate, bool delta, bool equal, int threads, int loners) {
  FLAGS_num_threads = threads;
  vector<float> y, w;
  vector<double> f;
  vector<string> group;
  long total = 0, largest = 1;
  for (size_t k = 0; k < groups.size(); ++k) {
    const G& g = groups[k];
    for (int i = 0; i < g.a + g.b; ++i) {
      y.push_back(i < g.a ? g.dt + k : k);
      w.push_back(i < g.a ? g.wa : g.wb);
      f.push_back(i < g.a ? g.df - 0.5 * k : -0.5 * (double)k);
      group.push_back("g" + std::to_string(k));
    }
    long n = g.dt > 0 ? (long)g.a * g.b : 0;
    total += n;
    largest = std::max(largest, n);
  }
  for (int i = 0; i < loners; ++i) { y.push_back(7); w.push_back(3); f.push_back(5); group.push_back(kMissing); }
  // Rows of different groups mixed.
  vector<int> order;
  for (size_t i = 0; i < y.size(); ++i) order.push_back(i);
  for (size_t i = 1; i < order.size(); ++i) std::swap(order[i], order[(i * 5 + 2) % (i + 1)]);
  auto mix = [&](auto& v) { auto o = v; for (size_t i = 0; i < v.size(); ++i) v[i] = o[order[i]]; };
  mix(y); mix(w); mix(f); mix(group);
  auto col = Column::CreateStringColumn("group", group);
  Config config;
  config.set_loss_func(loss);
  config.set_pair_sampling_rate(rate);
  config.set_pair_weight_by_delta_target(delta);
  config.set_equal_group_weight(equal);
  auto lf = gbdt::LossFuncFactory::CreateLossFunc(config);
  auto st = lf->Init(y.size(), [&](int i) { return w[i]; }, [&](int i) { return y[i]; }, static_cast<StringColumn*>(col.get()));
  r.Check(st.ok(), "Init failed: " + st.ToString());
  double p = total ? (double)rate * y.size() / total / 2 : 0;
  double first = -1;
  for (int call = 0; call < 3; ++call) {
    double grow = 1 + 0.5 * call;
    double sum = 0, weight = 0;
    for (const G& g : groups) {
      if (!(g.dt > 0)) continue;
      double n = g.a * g.b, draws = n * p;
      if (fabs(draws - nearbyint(draws)) < 1e-6) return;  // a rounding error decides
      double each = (double)g.wa * g.wb * (equal ? largest / n : 1) * (loss == "lambdamart" || delta ? g.dt : 1);
      sum += floor(draws) * each * PairLossOf(loss, g.dt, g.df * grow);
      weight += floor(draws) * each;
    }
    vector<double> s;
    for (double x : f) s.push_back(x * grow);
    double c = 0;
    vector<GradientData> gd;
    string msg;
    lf->ComputeFunctionalGradientsAndHessians(s, &c, &gd, &msg);
    r.Step();
    double want = weight == 0 ? 0 : sum / weight;
    if (first < 0) first = want;
    string e = Judge(msg, want, first, 1e-9);
    if (!e.empty()) {
      std::ostringstream o;
      o << loss << " rate " << rate << (delta ? " by delta target" : "") << (equal ? " equal groups" : "") << " threads " << threads << " call " << call << " groups";
      for (auto& g : groups) o << " (" << g.a << " rows above " << g.b << " by " << g.dt << ", scores by " << g.df * grow << ", weights " << g.wa << " " << g.wb << ")";
      r.Fail(o.str() + ": " + e);
    }
    r.State(msg);
    r.Count(weight == 0 ? "no pair drawn" : "pair loss reported");
  }
}

struct Sink : google::LogSink {
  std::mutex m;
  vector<string> lines;
  void send(google::LogSeverity, const char*, const char*, int, const struct ::tm*, const char* message, size_t len) override {
    std::lock_guard<std::mutex> l(m);
    lines.emplace_back(message, len);
  }
};

void CheckLog(mc::Runner& r, const Generic& g, const Config& c, bool binary, bool weighted, const Forest* base) {
  const auto& y = binary ? g.yb : g.y;
  vector<float> w = weighted ? g.w : vector<float>(g.d.n, 1);
  Sink sink;
  FLAGS_minloglevel = 0;
  google::AddLogSink(&sink);
  Forest forest;
  auto st = Train(g.d, y, w, c, g.features, base, &forest);
  google::RemoveLogSink(&sink);
  FLAGS_minloglevel = 4;
  r.Check(st.ok(), "training failed: " + st.ToString());
  // The lines "i: …loss=…".
  vector<string> found;
  for (auto& l : sink.lines) {
    if (l.find("loss=") == string::npos) continue;
    string head = std::to_string(found.size()) + ": ";
    r.Check(l.compare(0, head.size(), head) == 0, "log line '" + l + "' does not start with '" + head + "'");
    found.push_back(l);
  }
  r.Check((int)found.size() == c.num_trees(), std::to_string(found.size()) + " losses are logged for " + std::to_string(c.num_trees()) + " trees");
  // The same scores, stage by stage.
  auto lf = gbdt::LossFuncFactory::CreateLossFunc(c);
  r.Check(lf->Init(g.d.n, [&](int i) { return w[i]; }, [&](int i) { return y[i]; }, nullptr).ok(), "Init failed");
  vector<double> f(g.d.n, 0);
  int nbase = 0;
  if (base) for (auto& t : base->tree()) {
    for (int i = 0; i < g.d.n; ++i) f[i] += TreeScore(t, g.d, i);
    if (t.has_left_child()) ++nbase;
  }
  double first = -1;
  for (int t = 0; t < c.num_trees(); ++t) {
    double k = 0;
    vector<GradientData> gd;
    lf->ComputeFunctionalGradientsAndHessians(f, &k, &gd, nullptr);
    if (!Stationary(c.loss_func(), f, k, y, w)) { r.Count("constant does not converge"); return; }
    double want = Mean(c.loss_func(), f, k, y, w);
    if (first < 0) first = want;
    string e = Judge(found[t], want, first, 2e-5 * (1 + want));
    r.Check(e.empty(), "before tree " + std::to_string(t) + " of " + c.loss_func() + ": " + e);
    for (int i = 0; i < g.d.n; ++i) f[i] += TreeScore(forest.tree(1 + nbase + t), g.d, i) + k;
  }
  r.Step(c.num_trees());
  r.Count("logged trainings");
  // The settings in the meta info.
  const auto* d = c.GetDescriptor();
  const auto* refl = c.GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    const auto* fd = d->field(i);
    if (fd->is_repeated()) continue;
    string value;
    switch (fd->cpp_type()) {
      case google::protobuf::FieldDescriptor::CPPTYPE_INT32: if (refl->GetInt32(c, fd)) value = std::to_string(refl->GetInt32(c, fd)); break;
      case google::protobuf::FieldDescriptor::CPPTYPE_BOOL: if (refl->GetBool(c, fd)) value = "true"; break;
      case google::protobuf::FieldDescriptor::CPPTYPE_STRING: if (!refl->GetString(c, fd).empty()) value = "'" + refl->GetString(c, fd) + "'"; break;
      case google::protobuf::FieldDescriptor::CPPTYPE_FLOAT: { std::ostringstream o; o << refl->GetFloat(c, fd); if (refl->GetFloat(c, fd) != 0) value = o.str(); break; }
      case google::protobuf::FieldDescriptor::CPPTYPE_DOUBLE: { std::ostringstream o; o << refl->GetDouble(c, fd); if (refl->GetDouble(c, fd) != 0) value = o.str(); break; }
      default: break;
    }
    if (value.empty()) continue;
    r.Check(forest.meta_info().find(string(fd->name()) + ": " + value) != string::npos, "the model's meta info does not name " + string(fd->name()) + ": " + value + " but is " + forest.meta_info());
    r.Count("settings in meta info");
  }
}

// The milliseconds a duration shows, or -1.
double ReadDuration(const string& s) {
  if (s.size() > 2 && s.substr(s.size() - 2) == "ms" && s.find_first_not_of("0123456789") == s.size() - 2) return atof(s.c_str());
  double total = 0;
  const char* p = s.c_str();
  double last = 1e300;
  while (*p) {
    char* e;
    double v = strtod(p, &e);
    if (e == p || !*e || v < 0) return -1;
    double unit = *e == 'd' ? 86400e3 : *e == 'h' ? 3600e3 : *e == 'm' ? 60e3 : *e == 's' ? 1e3 : -1;
    if (unit < 0 || unit >= last) return -1;
    last = unit;
    total += v * unit;
    p = e + 1;
  }
  return total;
}

// A loss function whose iterations take the given number of seconds on the training's clock.
struct Slow : gbdt::LossFunc {
  std::unique_ptr<gbdt::LossFunc> real;
  const vector<double>& seconds;
  size_t call = 0;
  Slow(const Config& c, const vector<double>& s) : real(gbdt::LossFuncFactory::CreateLossFunc(c)), seconds(s) {}
  Status Init(int n, FloatVector w, FloatVector y, const StringColumn* g) override { return real->Init(n, w, y, g); }
  void ComputeFunctionalGradientsAndHessians(const vector<double>& f, double* c, vector<GradientData>* g, string* progress) override {
    real->ComputeFunctionalGradientsAndHessians(f, c, g, progress);
    extra_seconds += seconds[call++];
  }
};

// The duration after the text, up to the character that ends it; -1 without one.
double After(const string& s, const string& text, const char* end) {
  size_t at = s.find(text);
  if (at == string::npos) return -1;
  at += text.size();
  string d = s.substr(at, s.find(end, at) - at);
  return d.empty() ? 0 : ReadDuration(d);
}

void CheckTimes(mc::Runner& r, const Generic& g, const string& loss, const vector<double>& seconds, const Forest* base) {
  Config c = TrainConfig(loss, seconds.size(), 3, 0.25f, 0.5);
  bool binary = loss != "mse" && loss != "gbrank";
  Sink sink;
  FLAGS_minloglevel = 0;
  google::AddLogSink(&sink);
  Forest forest;
  auto ds = g.d.Store();
  Slow slow(c, seconds);
  const auto& y = binary ? g.yb : g.y;
  extra_seconds = 0;
  late = true;
  double begin = Now();
  auto st = gbdt::TrainGBDT(ds.get(), std::unordered_set<string>(g.features.begin(), g.features.end()), [](int) { return 1.0f; },
                            [&](int i) { return y[i]; }, &slow, c, base, &forest);
  late = false;
  double real = Now() - begin + 1;  // the time that really passed, at most
  google::RemoveLogSink(&sink);
  FLAGS_minloglevel = 4;
  r.Check(st.ok(), "training failed: " + st.ToString());
  size_t at = 0;
  double total = 0;
  int loads = 0, bases = 0, finished = 0;
  for (auto& l : sink.lines) {
    unsigned a, b;
    if (sscanf(l.c_str(), "Loaded %u features, each with %u rows", &a, &b) == 2) {
      ++loads;
      if (loads == 1) r.Check(a == g.features.size(), "the log says '" + l + "' of " + std::to_string(g.features.size()) + " features");
      r.Check((int)b == g.d.n, "the log says '" + l + "' of " + std::to_string(g.d.n) + " rows");
    }
    if (sscanf(l.c_str(), "Finished initializing forest with %u trees", &a) == 1) {
      ++bases;
      r.Check(base && (int)a == base->tree_size(), "the log says '" + l + "' of a base forest of " + std::to_string(base ? base->tree_size() : 0));
    }
    if (l.find("Finished training in ") != string::npos) {
      ++finished;
      double want = 0;
      for (double s : seconds) want += s;
      double got = After(l, "Finished training in ", ". ") / 1e3;
      if (!l.empty() && l.back() == '.') got = After(l.substr(0, l.size() - 1), "Finished training in ", "!") / 1e3;
      r.Check(got >= want - 1 && got <= want + real + 1, "the log says '" + l + "' after " + std::to_string(want) + " s");
    }
    if (l.find("loss=") == string::npos || at >= seconds.size()) continue;
    if (at > 0) {
      double iter = After(l, "iter=", ",") / 1e3, etf = After(l, "etf=", ",") / 1e3, left = seconds.size() - at;
      r.Check(iter >= seconds[at - 1] - 1 && iter <= seconds[at - 1] + real + 1, "the log says '" + l + "' after an iteration of " + std::to_string(seconds[at - 1]) + " s");
      r.Check(etf >= (seconds[at - 1] - 1) * left - 1 && etf <= (seconds[at - 1] + real + 1) * left + 1,
              "the log says '" + l + "' after an iteration of " + std::to_string(seconds[at - 1]) + " s with " + std::to_string(left) + " trees left");
    }
    total += seconds[at++];
    r.State(l.substr(0, l.find("loss=")));
  }
  r.Check(at == seconds.size(), std::to_string(at) + " losses are logged for " + std::to_string(seconds.size()) + " trees");
  r.Check(finished == 1, "the end of the training is logged " + std::to_string(finished) + " times");
  r.Check(loads >= 1 && bases == (base ? 1 : 0), "the log does not say how many features were loaded, or of a base forest that there is none");
  double meta = After(forest.meta_info(), " for ", " ") / 1e3;
  r.Check(meta >= total - 1 && meta <= total + real + 1, "the model's meta info says '" + forest.meta_info() + "' after " + std::to_string(total) + " s");
  r.Step(seconds.size());
  r.Count("timed trainings");
}

void Duration(mc::Runner& r, double ms) {
  string s = StopWatch::MSecsToFormattedString(ms);
  r.Step();
  r.State(s);
  double got = ReadDuration(s);
  double tol = ms < 1000 ? 1 : 50 + 1e-6 * ms * 1e-3;
  if (!(got >= 0 && fabs(got - ms) <= tol) || s.empty()) r.Fail("the duration of " + std::to_string(ms) + " ms is shown as '" + s + "'");
}

void Body(mc::Runner& r) {
  Init();
  FLAGS_logtostderr = false;
  FLAGS_stderrthreshold = 4;
  for (int s = 0; s < 4; ++s) google::SetLogDestination(s, "");
  // 1. Pointwise losses.
  for (const char* loss : {"mse", "logloss", "huberized_hinge"}) {
    bool mse = loss[0] == 'm';
    vector<float> y = mse ? vector<float>{-3, 0, 0.5f} : vector<float>{-1, 1}, w = {0, 1, 2.5f};
    vector<double> f = {-2, 0, 0.3, 1.5};
    int m = f.size() * y.size() * w.size();
    for (int n = 1; n <= (r.thorough ? 4 : 3); ++n)
      Multisets(m, n, [&](const vector<int>& v) {
        if (r.Done()) return;
        if (!r.Next([=] { return string(loss) + " rows " + ShowV(v); })) return;
        vector<double> ff;
        vector<float> yy, ww;
        int sum = 0;
        for (int x : v) { ff.push_back(f[x % f.size()]); yy.push_back(y[x / f.size() % y.size()]); ww.push_back(w[x / f.size() / y.size()]); sum += x; }
        Pointwise(r, loss, ff, yy, ww, 1 + sum % 3);
      });
    for (int n = 1; n <= 60; ++n)
      for (int threads : {1, 2, 3, 7}) {
        if (!r.Next([=] { return string(loss) + " " + std::to_string(n) + " rows, " + std::to_string(threads) + " threads"; })) continue;
        vector<double> ff;
        vector<float> yy, ww;
        for (int i = 0; i < n; ++i) { ff.push_back((i * 37 % 23 - 11) / 7.0); yy.push_back(mse ? i * 13 % 17 / 3.0f : i * 5 % 7 < 4 ? 1 : -1); ww.push_back(i * 11 % 5 / 2.0f + (threads == 2 ? 0 : 0.25f)); }
        Pointwise(r, loss, ff, yy, ww, threads);
      }
  }
  // Weights of very different magnitude, and many rows.
  for (const char* loss : {"mse", "logloss", "huberized_hinge"}) {
    bool mse = loss[0] == 'm';
    for (int threads : {1, 3})
      for (int kind = 0; kind < 5; ++kind)
        for (int n : {2, 40, 1001, 5000}) {
          if (!r.Next([=] { return string(loss) + " " + std::to_string(n) + " rows with weights of kind " + std::to_string(kind) + ", " + std::to_string(threads) + " threads"; })) continue;
          vector<double> ff;
          vector<float> yy, ww;
          for (int i = 0; i < n; ++i) {
            ff.push_back((i * 37 % 23 - 11) / 7.0);
            yy.push_back(mse ? i * 13 % 17 / 3.0f : i * 5 % 7 < 4 ? 1 : -1);
            ww.push_back(kind == 0 ? 0.1f : kind == 1 ? (i == 0 ? 1e8f : 1e4f) : kind == 2 ? 1e-6f : kind == 3 ? (i == n - 1 ? 1e9f : 1e5f + i) : 16777217.0f * (1 + i % 3));
          }
          Pointwise(r, loss, ff, yy, ww, threads);
        }
  }
  // 2. Pairwise losses, all pairs of a group alike.
  const vector<G> kinds = {{1, 1, 1, 0, 1, 1}, {1, 1, 2, 0.7, 1, 2}, {2, 1, 1, -1.5, 0.5f, 1}, {2, 3, 3, 0.25, 1, 1}, {1, 1, 0, 1, 1, 1}, {1, 2, 0.5, 2, 2, 0.25f}, {3, 3, 1, 0.5, 1, 0}};
  for (const char* loss : {"pairwise_logloss", "auc", "gbrank", "lambdamart"})
    for (int n = 1; n <= (r.thorough ? 4 : 3); ++n)
      Multisets(kinds.size(), n, [&](const vector<int>& v) {
        for (int opt = 0; opt < 12; ++opt) {
          if (r.Done()) return;
          vector<G> gs;
          bool ok = true;
          for (int x : v) { gs.push_back(kinds[x]); if (loss[0] == 'l' && kinds[x].a * kinds[x].b > 1) ok = false; }
          if (!ok) return;  // the rank discounts of the pairs differ
          if (!r.Next([=] { return string(loss) + " groups " + ShowV(v) + "setting " + std::to_string(opt); })) continue;
          Pairs(r, loss, gs, opt % 3 == 0 ? 0.37f : opt % 3 == 1 ? 3.3f : 41.7f, opt / 3 & 1, opt / 6, 1 + (opt + n) % 3, opt % 2);
        }
      });
  // A loss function object that is initialized again reports like a new one.
  for (const char* loss : {"mse", "logloss", "huberized_hinge", "pairwise_logloss", "auc", "gbrank", "lambdamart"})
    for (int first = 0; first < 4; ++first)
      for (int second = 0; second < 4; ++second)
        for (int threads : {1, 3}) {
          if (!r.Next([=] { return string(loss) + " object for data set " + std::to_string(first) + ", then for " + std::to_string(second) + ", threads " + std::to_string(threads); })) continue;
          FLAGS_num_threads = threads;
          bool binary = loss[0] == 'h' || !strcmp(loss, "logloss");
          Config c = TrainConfig(loss, 2, 4, 0.3f, 0.3);
          auto progress = [&](int which, gbdt::LossFunc* lf) {
            Generic g(which + 150, 8 + which * 5);
            const auto& y = binary ? g.yb : g.y;
            auto ds = g.d.Store();
            gbdt::Subsampling::Reseed(17);
            r.Check(lf->Init(g.d.n, [&](int i) { return g.w[i]; }, [&](int i) { return y[i]; }, which % 2 ? ds->GetStringColumn("group") : nullptr).ok(), "Init failed");
            string all;
            for (int t = 0; t < 3; ++t) {
              vector<double> f;
              for (int i = 0; i < g.d.n; ++i) f.push_back(t * y[i] * 0.25);
              double k;
              vector<GradientData> gd;
              string p;
              lf->ComputeFunctionalGradientsAndHessians(f, &k, &gd, &p);
              all += p + "; ";
              r.Step();
            }
            return all;
          };
          auto object = gbdt::LossFuncFactory::CreateLossFunc(c), fresh = gbdt::LossFuncFactory::CreateLossFunc(c);
          progress(first, object.get());
          string got = progress(second, object.get()), want = progress(second, fresh.get());
          r.Check(got == want, "the progress is " + got + " instead of " + want);
          r.State(got);
        }
  // 3. The log of whole trainings and the settings in the model.
  for (int seed = 0; seed < (r.thorough ? 24 : 6); ++seed)
    for (const char* loss : {"mse", "logloss", "huberized_hinge"})
      for (int mode = 0; mode < 4; ++mode)
        for (int trees : {1, 3, 11}) {
          if (!r.Next([=] { return string(loss) + " training " + std::to_string(seed) + " mode " + std::to_string(mode) + " trees " + std::to_string(trees); })) continue;
          Generic g(seed, 12 + seed);
          bool binary = loss[0] != 'm';
          FLAGS_num_threads = 1 + seed % 3;
          Config c = TrainConfig(loss, trees, 3, 0.25f, 0.5);
          if (mode & 1) { c.set_min_gain(0.125); c.set_min_hessian(0.75); c.set_eval_interval(3); c.set_target_column("y"); c.set_binarize_target(true); c.set_weight_column("the weight"); c.add_float_feature("f"); }
          if (mode == 3) { c.set_equal_group_weight(true); c.set_pair_weight_by_delta_target(true); c.set_lambdamart_dcg_base(2.5f); c.add_additional_float_column("z"); }
          Forest base;
          if (mode & 2) {
            Config b = TrainConfig(loss, 2, 2, 0.5f, 1);
            r.Check(Train(g.d, binary ? g.yb : g.y, {}, b, g.features, nullptr, &base).ok(), "training the base failed");
          }
          CheckLog(r, g, c, binary, mode & 1, mode & 2 ? &base : nullptr);
        }
  // Trainings of many trees.
  for (int trees : {300, 1100, r.thorough ? 12000 : 2100}) {
    if (!r.Next([=] { return "training of " + std::to_string(trees) + " trees"; })) continue;
    Generic g(3, 14);
    FLAGS_num_threads = 1;
    Config c = TrainConfig("mse", trees, 2, 0.002f, 0.5);
    CheckLog(r, g, c, false, true, nullptr);
  }
  // The times in the log: every sequence of iterations that take these seconds.
  {
    const vector<double> kinds = {0, 40, 3600, 90000, 1e6};
    for (const char* loss : {"mse", "logloss", "auc"})
      for (int n = 1; n <= (r.thorough ? 5 : 3); ++n)
        for (int code = 0, all = pow(kinds.size(), n) + 0.5; code < all; ++code) {
          vector<int> v;
          for (int i = 0, x = code; i < n; ++i, x /= kinds.size()) v.push_back(x % kinds.size());
          if (r.Done() || (loss[0] != 'm' && n > 2)) break;
          if (!r.Next([=] { return string(loss) + " iterations of lengths " + ShowV(v); })) continue;
          vector<double> s;
          int sum = 0;
          for (int x : v) { s.push_back(kinds[x]); sum += x; }
          Generic g(2, 11 + sum);
          FLAGS_num_threads = 1 + sum % 3;
          Forest base;
          if (sum % 2) {
            Config b = TrainConfig("mse", 1 + n, 2, 0.5f, 1);
            r.Check(Train(g.d, g.y, {}, b, g.features, nullptr, &base).ok(), "training the base failed");
          }
          CheckTimes(r, g, loss, s, sum % 2 ? &base : nullptr);
        }
    for (int n : {20, 100}) {
      if (!r.Next([=] { return std::to_string(n) + " iterations of growing lengths"; })) continue;
      vector<double> s;
      for (int i = 0; i < n; ++i) s.push_back(60 * (i + 1));
      CheckTimes(r, Generic(2, 20), "mse", s, nullptr);
    }
  }
  // Settings of any length.
  for (int len : {1, 20, 60, 100, 250, 400, 600, 1100, 5000, 70000})
    for (int columns = 1; columns < 8; ++columns) {
      if (r.Done()) return;
      if (!r.Next([=] { return "settings with names of " + std::to_string(len) + " bytes, columns " + std::to_string(columns); })) continue;
      Generic g(1, 12);
      FLAGS_num_threads = 2;
      Config c = TrainConfig("mse", 2, 3, 0.25f, 0.5);
      c.set_min_gain(0.125);
      if (columns & 1) c.set_weight_column(string(len, 'w'));
      if (columns & 2) c.set_target_column("t" + string(len, 'x'));
      if (columns & 4) { c.set_lambdamart_dcg_base(2.5f); for (int i = 0; i < len / 10; ++i) c.add_float_feature("f"); }
      CheckLog(r, g, c, false, true, nullptr);
    }
  // 4. Durations.
  for (int i = 0; i < 400; ++i) {
    if (!r.Next([=] { return "durations " + std::to_string(i); })) continue;
    if (i < 60) for (int k = 0; k < 2000; ++k) Duration(r, i * 2000 + k);  // the first two minutes
    else if (i < 160) for (int k = -150; k <= 150; ++k) Duration(r, (i - 59) * 60e3 + k);  // around every minute
    else if (i < 260) for (int k = -150; k <= 150; ++k) Duration(r, (i - 159) * 3600e3 + k * 10);
    else for (int k = -150; k <= 150; ++k) Duration(r, (i - 259) * 86400e3 + k * 333.3);
  }
  if (r.Next([] { return string("fractions of a millisecond"); })) for (double x : {0.0, 0.25, 0.999, 1.5, 999.0, 999.4, 999.999, 1000.0, 1000.04, 1049.9, 1050.1}) Duration(r, x);
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
