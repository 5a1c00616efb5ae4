// C19: every file operation of loading and writing fails in turn (alone, and in pairs); each run is in a process of
// its own and either reports an error or ends with exactly the result of the run without faults.
#include "faultio.h"

#include "common.h"
#include "src/data_store/flatfiles_data_store.h"
#include "src/data_store/tsv_data_store.h"
#include "src/data_store/tsv_block.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/gbdt_algo/utils.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/json_utils.h"
#include "src/utils/subsampling.h"
#include "src/utils/utils.h"

extern "C" int GbdtMain(int, char**);  // main of src/main.cc

using namespace ref;
using faultio::Event;
using faultio::Fault;
using std::string;
using std::vector;

namespace {

string g_dir;  // ends without slash

void Put(const string& file, const string& text) {
  std::ofstream o(g_dir + "/" + file);
  o << text;
  o.close();
  if (!o) { fprintf(stderr, "harness: cannot write %s\n", file.c_str()); abort(); }
}
string Get(const string& file) {
  std::ifstream in(g_dir + "/" + file);
  if (!in) return "<no file>";
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}

string ShowCol(const Column* c) {
  if (!c || !c->status().ok()) return "ERROR";
  std::ostringstream o;
  o << c->name() << " " << c->type() << " " << c->size() << ":";
  for (uint i = 0; i < c->size(); ++i)
    if (c->type() == Column::kRawFloatColumn) o << (*static_cast<const gbdt::RawFloatColumn*>(c))[i] << ",";
    else if (c->type() == Column::kStringColumn) o << static_cast<const StringColumn*>(c)->get_row_string(i) << ",";
    else { auto* b = static_cast<const BucketizedFloatColumn*>(c); o << b->get_row_max(i) << ","; }
  return o.str();
}

// What is done, and how its outcome is told: one line per part that is reported on its own; "ERROR" for a failed part.
struct Task {
  string name;
  vector<string> outputs;  // files that are written
  std::function<string()> run;
  bool pairs;
};

string Flat(const vector<string>& dirs, const vector<string>& cols) {
  vector<string> d;
  for (auto& x : dirs) d.push_back(g_dir + "/" + x);
  gbdt::FlatfilesDataStore ds(d);
  string o;
  for (auto& c : cols) o += ShowCol(ds.GetColumn(c)) + "\n";
  return o;
}
string Tsv(const vector<string>& files, const Config& c, int threads, const vector<string>& cols) {
  FLAGS_num_threads = threads;
  vector<string> f;
  for (auto& x : files) f.push_back(g_dir + "/" + x);
  gbdt::TSVDataStore ds(f, c);
  if (!ds.status().ok()) return "ERROR";
  string o;
  for (auto& x : cols) { string s = ShowCol(ds.GetColumn(x)); o += (s == "ERROR" ? "no column" : s) + " "; }
  return o;
}

string Cli(vector<string> args) {
  args.insert(args.begin(), "gbdt");
  args.push_back("--logtostderr");
  vector<char*> v;
  for (auto& a : args) v.push_back(&a[0]);
  v.push_back(nullptr);
  int n = args.size();
  char** p = v.data();
  return GbdtMain(n, p) == 0 ? "ok" : "ERROR";
}

vector<Task> Tasks(bool thorough) {
  // Files: longer than the buffers of the streams.
  const int n = 3000;
  string s = "# dtype=strings\n", f = "# dtype=raw_floats\n", b = "# dtype=bucketized_floats\n", wrong = "# dtype=strings\n";
  for (int i = 0; i < n; ++i) {
    s += "cat" + std::to_string(i % 13) + "\n";
    f += std::to_string((i * 7 % 31) / 4.0) + "\n";
    b += std::to_string(i % 17) + (i + 1 < n ? "\n" : "");
    wrong += "w" + std::to_string(i % 5) + "\n";
  }
  for (auto d : {"d1", "d2", "d3"}) mkdir((g_dir + "/" + d).c_str(), 0755);
  Put("d1/s", s); Put("d1/f", f); Put("d2/b", b); Put("d2/s", wrong); Put("d2/f", b);
  // Small ones with the same columns.
  Put("d3/x", "# dtype=bucketized_floats\n1\n2\n3\n4\n"); Put("d3/y", "# dtype=raw_floats\n1\n-1\n1\n1\n");
  Put("d3/c", "# dtype=strings\np\nq\n\nr\n"); Put("d3/w", "# dtype=raw_floats\n1\n1\n2\n1\n");
  string h = "x\ty\tc\tw", t1 = h + "\n", t2, t3 = "1.5\t1\tlast\t3";
  for (int i = 0; i < 1500; ++i) {
    t1 += std::to_string(i % 7) + "\t" + std::to_string(i % 3 - 1) + "\tc" + std::to_string(i % 5) + "\t1\n";
    t2 += std::to_string(i % 5) + ".5\t" + std::to_string(i % 4 - 1) + "\td" + std::to_string(i % 3) + "\t2\r\n";
  }
  Put("t1.tsv", t1); Put("t2.tsv", t2); Put("t3.tsv", t3); Put("t4.tsv", h + "\n" + t3);
  // A header longer than a buffer; cut anywhere, it has other columns.
  string wide, wrow;
  for (int i = 0; i < 1500; ++i) { wide += string(i ? "\t" : "") + (i == 3 ? "x" : "column" + std::to_string(i)); wrow += string(i ? "\t" : "") + std::to_string(i % 9); }
  Put("wide.tsv", wide + "\n" + wrow + "\n" + wrow + "\n");
  Config tc;
  tc.add_float_feature("x"); tc.add_categorical_feature("c"); tc.set_target_column("y"); tc.set_weight_column("w");
  Config wc;
  wc.add_float_feature("x"); wc.set_target_column("column1499");
  // The first 8191 bytes of the header end within the name of a column, and what is there is the name of another one.
  string cut, crow;
  for (int i = 0; cut.size() < 8000; ++i) { cut += "column" + std::to_string(i) + "\t"; crow += std::to_string(i % 9) + "\t"; }
  cut += string(8191 - 4 - cut.size(), 'z') + "\tcutoff\tx\tcut";
  crow += "5\t6\t7\t8";
  Put("cut.tsv", cut + "\n" + crow + "\n" + crow + "\n");
  Config cc;
  cc.add_float_feature("cut");
  Forest model;
  *model.add_tree() = Leaf(0.25f);
  for (int k = 0; k < 3; ++k) *model.add_tree() = Node(FloatSplit("x", 2.5f, k & 1), Leaf(-1), Node(CatSplit("c", {"p", "r"}), Leaf(k), Leaf(3)));
  string json;
  if (!JsonUtils::ToJson(model, &json).ok()) abort();
  Put("model.json", json);
  json.clear();
  Forest big = model;
  for (int k = 0; k < 60; ++k) *big.add_tree() = model.tree(1);
  if (!JsonUtils::ToJson(big, &json).ok()) abort();
  Put("big.json", json);
  Put("config.json", "{\"loss_func\":\"mse\",\"num_trees\":3,\"num_leaves\":3,\"float_feature\":[\"x\"],\"categorical_feature\":[\"c\"],\"target_column\":\"y\",\"weight_column\":\"w\",\"shrinkage\":0.5,"
      "\"min_hessian\":0,\"example_sampling_rate\":1,\"feature_sampling_rate\":1,\"eval_interval\":2}");
  Config cfg;
  if (!JsonUtils::FromJson(Get("config.json"), &cfg).ok()) abort();

  vector<Task> t;
  t.push_back({"flat files s f b", {}, [] { return Flat({"d1", "d2"}, {"s", "f", "b"}); }, true});
  t.push_back({"flat files of the second directory", {}, [] { return Flat({"d3", "d1", "d2"}, {"b", "f", "s"}); }, true});
  t.push_back({"flat files x c y, small", {}, [] { return Flat({"d3"}, {"x", "c", "y"}); }, true});
  for (int threads : {1, 3}) {
    t.push_back({"tsv blocks, " + std::to_string(threads) + " threads", {}, [=] { return Tsv({"t1.tsv", "t2.tsv", "t3.tsv"}, tc, threads, {"x", "c", "y", "w"}); }, true});
    t.push_back({"tsv with one block, " + std::to_string(threads) + " threads", {}, [=] { return Tsv({"t1.tsv"}, tc, threads, {"x", "c"}); }, true});
    t.push_back({"tsv with a long header, " + std::to_string(threads) + " threads", {}, [=] { return Tsv({"wide.tsv"}, wc, threads, {"x", "column1499"}); }, true});
  }
  t.push_back({"tsv with a header that is longer than a buffer", {}, [=] { return Tsv({"cut.tsv"}, cc, 1, {"cut"}); }, true});
  t.push_back({"tsv block", {}, [] {
    gbdt::TSVBlock b(g_dir + "/t2.tsv", {0, 1}, {2}, false);
    if (!b.status().ok()) return string("ERROR");
    std::ostringstream o;
    for (auto& c : b.float_columns()) for (float x : c) o << x << ",";
    for (auto& c : b.string_columns()) for (auto& x : c) o << x << ",";
    return o.str();
  }, true});
  t.push_back({"read a file", {}, [] { return ReadFileToStringOrDie(g_dir + "/t1.tsv"); }, true});
  t.push_back({"read a small file", {}, [] { return ReadFileToStringOrDie(g_dir + "/t3.tsv"); }, true});
  t.push_back({"load a model", {}, [] { return Bits(gbdt::LoadForestOrDie(g_dir + "/big.json")); }, true});
  for (int size : {0, 1, 100, 8191, 8192, 20000, 300000})
    for (int old : {0, 1}) {
      string text;
      for (int i = 0; i < size; ++i) text += (char)('a' + i * 7 % 26);
      t.push_back({"write a string of " + std::to_string(size) + " bytes" + (old ? " over a file" : ""), {"out.txt"}, [=] {
        if (old) { faultio::C().on = false; Put("out.txt", string(400000, 'z')); faultio::C().on = true; }
        WriteStringToFile(text, g_dir + "/out.txt");
        return string("ok");
      }, true});
    }
  for (int rows : {4, 3000})
    t.push_back({"scores of " + std::to_string(rows) + " rows", {"sc/forest.1.score", "sc/forest.3.score", "sc/forest.4.score"}, [=] {
      Data d;
      d.n = rows;
      for (int i = 0; i < rows; ++i) { d.floats["x"].push_back(i % 6); d.strings["c"].push_back(i % 3 ? "p" : "q"); }
      auto ds = d.Store();
      return gbdt::EvaluateForest(ds.get(), model, {4, 1, 3}, g_dir + "/sc").ok() ? string("ok") : string("ERROR");
    }, true});
  t.push_back({"scores from flat files", {"sc/forest.4.score"}, [=] {
    FLAGS_num_threads = 2;
    gbdt::FlatfilesDataStore ds(g_dir + "/d3");
    return gbdt::EvaluateForest(&ds, model, {4}, g_dir + "/sc").ok() ? string("ok") : string("ERROR");
  }, true});
  t.push_back({"scores in memory from flat files", {}, [=] {
    FLAGS_num_threads = 2;
    gbdt::FlatfilesDataStore ds(g_dir + "/d3");
    vector<double> sc;
    if (!gbdt::EvaluateForest(&ds, model, &sc).ok()) return string("ERROR");
    std::ostringstream o;
    for (double x : sc) o << x << " ";
    return o.str();
  }, true});
  t.push_back({"training from flat files", {}, [=] {
    FLAGS_num_threads = 2;
    gbdt::FlatfilesDataStore ds(g_dir + "/d3");
    auto lf = gbdt::LossFuncFactory::CreateLossFunc(cfg);
    Forest out;
    gbdt::Subsampling::Reseed(1);
    if (!gbdt::TrainGBDT(&ds, gbdt::GetFeaturesSetFromConfig(cfg), gbdt::GetSampleWeightsOrDie(cfg, &ds), gbdt::GetTargetsOrDie(cfg, &ds), lf.get(), cfg, &model, &out).ok()) return string("ERROR");
    return Bits(out);
  }, true});
  auto D = [](const string& x) { return g_dir + "/" + x; };
  t.push_back({"command line: train, flat files", {"o/m.json", "o/m.fimps"}, [=] {
    return Cli({"--mode=train", "--config_file=" + D("config.json"), "--flatfiles_dirs=" + D("d1") + "," + D("d3"), "--output_dir=" + D("o"), "--output_model_name=m", "--num_threads=2", "--base_model_file=" + D("model.json")});
  }, false});
  t.push_back({"command line: train, tsv", {"o/forest.json", "o/forest.fimps"}, [=] {
    return Cli({"--mode=train", "--config_file=" + D("config.json"), "--tsvs=" + D("t1.tsv") + "," + D("t2.tsv"), "--output_dir=" + D("o"), "--num_threads=2"});
  }, false});
  t.push_back({"command line: test, flat files", {"o/forest.2.score", "o/forest.4.score"}, [=] {
    return Cli({"--mode=test", "--config_file=" + D("config.json"), "--flatfiles_dirs=" + D("d3"), "--output_dir=" + D("o"), "--testing_model_file=" + D("model.json"), "--num_threads=2"});
  }, false});
  t.push_back({"command line: test, tsv", {"o/forest.2.score", "o/forest.4.score"}, [=] {
    return Cli({"--mode=test", "--config_file=" + D("config.json"), "--tsvs=" + D("t4.tsv") + "," + D("t2.tsv"), "--output_dir=" + D("o"), "--testing_model_file=" + D("model.json"), "--num_threads=1"});
  }, false});
  return t;
}

void Clear(const Task& t) {
  for (auto& o : t.outputs) unlink((g_dir + "/" + o).c_str());
  rmdir((g_dir + "/o").c_str());
  rmdir((g_dir + "/sc").c_str());
}

struct Outcome { faultio::Result r; vector<string> lines, files; };
Outcome Do(const Task& t, const vector<Fault>& faults) {
  Clear(t);
  Outcome o;
  o.r = faultio::Run(g_dir, faults, t.run);
  std::istringstream in(o.r.out);
  string l;
  while (std::getline(in, l)) o.lines.push_back(l);
  for (auto& f : t.outputs) {
    o.files.push_back(Get(f));
    // Models have the time of training in them.
    Forest m;
    if (f.size() > 5 && f.substr(f.size() - 5) == ".json" && JsonUtils::FromJson(o.files.back(), &m).ok()) o.files.back() = "model " + Bits(m);
  }
  return o;
}

string ShowFaults(const vector<Fault>& f) {
  string o;
  for (auto& x : f) o += "; " + string(faultio::kOp[x.op]) + " " + std::to_string(x.idx + 1) + " of " + x.path + " " + faultio::kKind[x.kind];
  return o;
}

vector<faultio::Kind> KindsOf(faultio::Op op, bool all) {
  using namespace faultio;
  if (op == READ) return all ? vector<Kind>{ONCE, STAY, INTR, ONE, HALF, PART} : vector<Kind>{ONCE, STAY};
  if (op == WRITE) return all ? vector<Kind>{ONCE, STAY, PART, INTR, ONE, HALF} : vector<Kind>{ONCE, PART};
  return op == CLOSE || op == MKDIR ? vector<Kind>{ONCE} : vector<Kind>{ONCE, STAY};
}

// Every operation of the run, in an order that does not depend on the schedule.
vector<Event> Sorted(vector<Event> e) {
  std::sort(e.begin(), e.end(), [](const Event& a, const Event& b) { return std::make_tuple(a.path, (int)a.op, a.idx) < std::make_tuple(b.path, (int)b.op, b.idx); });
  return e;
}

void CheckFaults(mc::Runner& r, const Task& t, const Outcome& base, const vector<Fault>& faults, Outcome* out) {
  Outcome o = Do(t, faults);
  r.Step(o.r.events.size());
  string what = t.name + ShowFaults(faults) + ": ";
  auto cut = [](const string& s) { return s.size() < 200 ? s : s.substr(0, 200) + "..."; };
  r.Check(!o.r.hang, what + "does not end");
  string outcome = "error exit";
  if (o.r.ended) {
    bool error = o.lines.empty();
    outcome = "same result";
    if (o.lines.size() != base.lines.size()) r.Fail(what + "reports " + cut(o.r.out) + " instead of " + cut(base.r.out));
    for (size_t i = 0; i < o.lines.size(); ++i)
      if (o.lines[i] == "ERROR") { error = true; outcome = "error"; }
      else if (o.lines[i] != base.lines[i]) r.Fail(what + "succeeds with " + cut(o.lines[i]) + " instead of " + cut(base.lines[i]));
    if (!error)
      for (size_t i = 0; i < o.files.size(); ++i)
        if (o.files[i] != base.files[i])
          r.Fail(what + "reports success, but " + t.outputs[i] + " has " + std::to_string(o.files[i].size()) + " bytes instead of " + std::to_string(base.files[i].size()) + ": " + cut(o.files[i]));
  } else {
    bool error_exit = WIFEXITED(o.r.status) || (WIFSIGNALED(o.r.status) && WTERMSIG(o.r.status) == SIGABRT);
    r.Check(error_exit, what + "crashes with signal " + std::to_string(WTERMSIG(o.r.status)));
  }
  r.Count(o.r.hit ? outcome.c_str() : "fault not reached");
  r.State(what + outcome);
  if (out) *out = o;
}

void Body(mc::Runner& r) {
  Init();
  g_dir = r.TempDir();
  auto tasks = Tasks(r.thorough);
  for (auto& t : tasks) {
    if (r.Done()) return;
    auto task = &t;
    // The run without faults.
    Outcome base = Do(t, {});
    if (r.Next([=] { return task->name + ", no faults"; })) {
      r.Check(base.r.ended && base.r.out.find("ERROR") == string::npos && !base.r.out.empty(), t.name + ": fails without faults: " + base.r.out.substr(0, 300) + " status " + std::to_string(base.r.status));
      for (size_t i = 0; i < base.files.size(); ++i) r.Check(base.files[i] != "<no file>", t.name + ": does not write " + t.outputs[i]);
      Outcome again = Do(t, {});
      r.Check(again.r.out == base.r.out && again.files == base.files, t.name + ": two runs differ");
      r.Count("file operations", base.r.events.size());
    }
    for (auto& e : Sorted(base.r.events))
      for (auto k : KindsOf(e.op, true)) {
        vector<Fault> f = {{e.path, e.op, e.idx, k}};
        if (!r.Next([=] { return task->name + ShowFaults(f); })) continue;
        Outcome o;
        CheckFaults(r, t, base, f, &o);
        if (!(t.pairs || r.thorough)) continue;
        // A second fault: anything that was done after the first one.
        bool after = false;
        for (auto& e2 : o.r.events) {
          if (!after) { after = e2.path == e.path && e2.op == e.op && e2.idx == e.idx; continue; }
          for (auto k2 : KindsOf(e2.op, r.thorough)) {
            vector<Fault> f2 = f;
            f2.push_back({e2.path, e2.op, e2.idx, k2});
            CheckFaults(r, t, base, f2, nullptr);
          }
        }
      }
  }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body, 120); }
