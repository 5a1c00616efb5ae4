// C26: the command-line program, with every combination of its options over small data, against the library; and with
// every omission and corruption of an input.
#include <dirent.h>
#include <sys/stat.h>

#include "boostcheck.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/utils.h"
#include "src/utils/json_utils.h"

extern "C" int GbdtMain(int, char**);  // main of src/main.cc

using namespace ref;
using std::map;
using std::string;
using std::vector;

namespace {

const int kN = 14;
const char* kHeader[] = {"f", "g", "s", "group", "y", "w", "unused"};

struct Row { float f, g; string s, group; float y, w; };
vector<Row> Rows() {
  vector<Row> rows;
  for (int i = 0; i < kN; ++i)
    rows.push_back({i * 5 % 13 / 2.0f, i % 4 == 1 ? NAN : i * 7 % 11 - 3.5f, string(1, "abcd"[i * 3 % 7 % 4]), string(1, "xyz"[i / 5]), i * 11 % 6 / 2.0f - 1,
                    0.5f + i % 3});
  return rows;
}
string Num(float x) {
  if (std::isnan(x)) return "nan";
  std::ostringstream o;
  o << x;
  return o.str();
}
Data AsData() {
  Data d;
  d.n = kN;
  for (auto& r : Rows()) {
    d.floats["f"].push_back(r.f);
    d.floats["g"].push_back(r.g);
    d.strings["s"].push_back(r.s);
    d.strings["group"].push_back(r.group);
    d.raws["y"].push_back(r.y);
    d.raws["w"].push_back(r.w);
  }
  return d;
}

void Put(const string& file, const string& text) {
  std::ofstream o(file, std::ios::binary);
  o << text;
  o.close();
  if (!o) { fprintf(stderr, "harness: cannot write %s\n", file.c_str()); abort(); }
}
bool Get(const string& file, string* text) {
  std::ifstream in(file, std::ios::binary);
  if (!in) return false;
  std::stringstream s;
  s << in.rdbuf();
  *text = s.str();
  return true;
}
void Sh(const string& cmd) { if (system(cmd.c_str())) { fprintf(stderr, "harness: %s\n", cmd.c_str()); abort(); } }
std::set<string> Ls(const string& dir) {
  std::set<string> out;
  DIR* p = opendir(dir.c_str());
  if (!p) return out;
  while (auto* e = readdir(p)) if (e->d_name[0] != '.') out.insert(e->d_name);
  closedir(p);
  return out;
}

// Files of data: name -> contents.
map<string, string> TsvFiles() {
  string all, first, second, row;
  int i = 0;
  auto rows = Rows();
  for (auto h : kHeader) row += string(row.empty() ? "" : "\t") + h;
  all = first = row + "\n";
  for (auto& r : rows) {
    row = Num(r.f) + "\t" + Num(r.g) + "\t" + r.s + "\t" + r.group + "\t" + Num(r.y) + "\t" + Num(r.w) + "\tq\n";
    all += row;
    (i++ < 5 ? first : second) += row;
  }
  return {{"all.tsv", all}, {"first.tsv", first}, {"second.tsv", second}};
}
map<string, string> FlatFiles() {
  map<string, string> m;
  m["d1/f"] = m["d2/g"] = "# dtype=bucketized_floats\n";
  m["d1/s"] = m["d2/group"] = "# dtype=strings\n";
  m["d2/y"] = m["d1/w"] = "# dtype=raw_floats\n";
  for (auto& r : Rows()) {
    m["d1/f"] += Num(r.f) + "\n";
    m["d2/g"] += (std::isnan(r.g) ? "" : Num(r.g)) + "\n";
    m["d1/s"] += r.s + "\n";
    m["d2/group"] += r.group + "\n";
    m["d2/y"] += Num(r.y) + "\n";
    m["d1/w"] += Num(r.w) + "\n";
  }
  return m;
}

struct Outcome { bool ok; string text; };
// Runs the program in a process of its own. Ends the case if it crashes.
Outcome Run(mc::Runner& r, const string& dir, vector<string> args) {
  args.insert(args.begin(), "gbdt");
  string shown;
  for (auto& a : args) shown += a + " ";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open((dir + "/stderr").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0 || dup2(fd, 2) < 0 || dup2(fd, 1) < 0) _exit(99);
    alarm(60);
    FLAGS_minloglevel = 0;
    if (chdir(dir.c_str())) _exit(99);
    vector<char*> v;
    for (auto& a : args) v.push_back(&a[0]);
    v.push_back(nullptr);
    exit(GbdtMain(args.size(), v.data()));
  }
  int st = 0;
  waitpid(pid, &st, 0);
  r.Step();
  string err;
  Get(dir + "/stderr", &err);
  if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT)
    r.Fail("the program ends with signal " + std::to_string(WTERMSIG(st)) + ": " + shown + "\n" + err.substr(0, 1500));
  // Aborting is how failed checks end; anything else that aborts has crashed.
  if (WIFSIGNALED(st) && err.find("Check failed") == string::npos && err.find("\nF") == string::npos && err.compare(0, 1, "F") != 0)
    r.Fail("the program aborts: " + shown + "\n" + err.substr(0, 1500));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { fprintf(stderr, "harness: child\n"); abort(); }
  return {WIFEXITED(st) && WEXITSTATUS(st) == 0, shown + "\n" + err.substr(0, 1500)};
}

string Json(const google::protobuf::Message& m) {
  string s;
  if (!JsonUtils::ToJson(m, &s).ok()) abort();
  return s;
}

Config MakeConfig(const string& loss) {
  Config c = TrainConfig(loss, 3, 4, 0.5, 0.5);
  c.add_float_feature("f");
  c.add_float_feature("g");
  c.add_categorical_feature("s");
  c.set_target_column("y");
  return c;
}

Forest BaseForest() {
  Forest f;
  *f.add_tree() = Leaf(0.25);
  *f.add_tree() = Node(FloatSplit("f", 3, true, 2), Leaf(0.5), Node(CatSplit("s", {"a", "zz"}, 1), Leaf(-0.5), Leaf(0.125)));
  *f.add_tree() = Node(FloatSplit("g", 1, false, 0.5), Leaf(-0.25), Leaf(0.75));
  return f;
}

const char* kSources[] = {"tsv", "tsv blocks", "flat files"};
vector<string> SourceArgs(int source) {
  if (source == 0) return {"--tsvs=all.tsv"};
  if (source == 1) return {"--tsvs=first.tsv,second.tsv"};
  return {"--flatfiles_dirs=d1,d2"};
}
void PutData(const string& dir) {
  Sh("rm -rf '" + dir + "' && mkdir -p '" + dir + "/d1' '" + dir + "/d2'");
  for (auto& p : TsvFiles()) Put(dir + "/" + p.first, p.second);
  for (auto& p : FlatFiles()) Put(dir + "/" + p.first, p.second);
}

// The data in blocks of about the same size, the names of which are separated by commas.
void PutBlocks(const string& dir, const string& tsvs) {
  vector<string> names, lines;
  std::istringstream in(tsvs), all(TsvFiles()["all.tsv"]);
  for (string t; std::getline(in, t, ',');) names.push_back(t);
  for (string t; std::getline(all, t);) lines.push_back(t + "\n");
  int k = names.size();
  for (int b = 0; b < k; ++b) {
    string text = b ? "" : lines[0];
    for (int i = kN * b / k; i < kN * (b + 1) / k; ++i) text += lines[1 + i];
    Put(dir + "/" + names[b], text);
  }
}

const int kNoSeed = -12345678;

// What the library trains.
bool Library(const Config& c, int threads, int seed, const Forest* base, Forest* out) {
  Data d = AsData();
  auto ds = d.Store();
  FLAGS_num_threads = threads;
  gbdt::Subsampling::Reseed(seed);
  auto loss = gbdt::LossFuncFactory::CreateLossFunc(c);
  return gbdt::TrainGBDT(ds.get(), gbdt::GetFeaturesSetFromConfig(c), [&](int i) { return c.weight_column().empty() ? 1.0f : d.raws["w"][i]; },
                         [&](int i) { return c.binarize_target() ? (d.raws["y"][i] > 0 ? 1.0f : -1.0f) : d.raws["y"][i]; }, loss.get(), c, base, out).ok();
}

void CheckImportance(mc::Runner& r, const string& text, const Forest& f) {
  auto want = gbdt::ComputeFeatureImportance(f);
  std::istringstream in(text);
  string line;
  map<string, double> got;
  double last = INFINITY;
  while (std::getline(in, line)) {
    size_t t = line.find('\t');
    if (t == string::npos) r.Fail("line of the importance file: " + line);
    double v = atof(line.c_str() + t + 1);
    if (got.count(line.substr(0, t)) || v > last) r.Fail("importance file: " + text);
    got[line.substr(0, t)] = last = v;
  }
  if (got.size() != want.size()) r.Fail("importance file: " + text);
  for (auto& p : want) if (!got.count(p.first) || !(fabs(got[p.first] - p.second) <= 1e-5 * p.second)) r.Fail("importance file: " + text);
}

void TrainCase(mc::Runner& r, int source, const Config& c, const string& name, int seed, int threads, bool base, bool dir_exists, string out_dir = "out", string tsvs = "", const Forest* base_model = nullptr) {
  string dir = r.TempDir() + "/c";
  PutData(dir);
  if (!tsvs.empty()) PutBlocks(dir, tsvs);
  if (out_dir[0] == '/') out_dir = dir + out_dir;
  Put(dir + "/config.json", Json(c));
  vector<string> args = {"--config_file=config.json", "--output_dir=" + out_dir, "--logtostderr"};
  if (tsvs.empty()) for (auto& a : SourceArgs(source)) args.push_back(a);
  else args.push_back("--tsvs=" + tsvs);
  if (!name.empty()) args.push_back("--output_model_name=" + name);
  if (seed != kNoSeed) args.push_back("--seed=" + std::to_string(seed));
  if (threads) args.push_back("--num_threads=" + std::to_string(threads));
  Forest b = base_model ? *base_model : BaseForest();
  if (base) { Put(dir + "/base.json", Json(b)); args.push_back("--base_model_file=base.json"); }
  if (dir_exists) { Sh("mkdir '" + dir + "/out'"); Put(dir + "/out/" + (name.empty() ? "forest" : name) + ".json", "old"); args.push_back("--mode=train"); }
  Forest want, got;
  if (!Library(c, threads ? threads : 16, seed != kNoSeed ? seed : 1234567, base ? &b : nullptr, &want)) abort();
  auto o = Run(r, dir, args);
  if (!o.ok) r.Fail("training fails: " + o.text);
  string n = name.empty() ? "forest" : name, text;
  if (Ls(dir + "/out") != std::set<string>{n + ".json", n + ".fimps"}) r.Fail("other files are written: " + o.text);
  Get(dir + "/out/" + n + ".json", &text);
  if (!JsonUtils::FromJson(text, &got).ok()) r.Fail("the model file is not a model: " + text);
  if (Bits(got) != Bits(want)) r.Fail("the model is\n " + Show(got) + "\n instead of\n " + Show(want) + "\n" + o.text);
  r.State(Bits(got) + kSources[source]);
  Get(dir + "/out/" + n + ".fimps", &text);
  CheckImportance(r, text, want);
}

void CheckScores(mc::Runner& r, const string& dir, const Forest& f, const std::set<int>& points, const string& what) {
  std::set<string> want;
  for (int p : points) want.insert("forest." + std::to_string(p) + ".score");
  if (Ls(dir) != want) {
    string have;
    for (auto& x : Ls(dir)) have += x + " ";
    r.Fail("score files: " + have + what);
  }
  Data d = AsData();
  for (int p : points) {
    string text, line;
    Get(dir + "/forest." + std::to_string(p) + ".score", &text);
    std::istringstream in(text);
    int i = 0;
    for (; std::getline(in, line); ++i)
      if (i >= d.n || !Near(atof(line.c_str()), Score(f, d, i, p), 2e-5)) r.Fail("checkpoint " + std::to_string(p) + ", row " + std::to_string(i) + " scores " + line + " " + what);
    if (i != d.n) r.Fail("checkpoint " + std::to_string(p) + " has " + std::to_string(i) + " scores " + what);
  }
}

// Something that is wrong with the inputs of a run that otherwise works.
struct Wrong {
  string name;
  std::function<void(Config*)> conf;
  std::function<void(vector<string>*)> args;
  std::function<void(const string& dir)> file;
  int modes;     // 1: training, 2: testing
  int sources;   // bits
};

void Drop(vector<string>* args, const string& prefix) {
  args->erase(std::remove_if(args->begin(), args->end(), [&](const string& a) { return a.compare(0, prefix.size(), prefix) == 0; }), args->end());
}

vector<Wrong> Wrongs() {
  vector<Wrong> w;
  using A = vector<string>*;
  auto args = [&](const string& name, int modes, std::function<void(A)> f) { w.push_back({name, nullptr, f, nullptr, modes, 7}); };
  auto conf = [&](const string& name, int modes, std::function<void(Config*)> f, int sources = 7) { w.push_back({name, f, nullptr, nullptr, modes, sources}); };
  auto file = [&](const string& name, int modes, int sources, std::function<void(const string&)> f) { w.push_back({name, nullptr, nullptr, f, modes, sources}); };
  args("no config file", 3, [](A a) { Drop(a, "--config_file"); });
  args("no output directory", 3, [](A a) { Drop(a, "--output_dir"); });
  args("no data", 3, [](A a) { Drop(a, "--tsvs"); Drop(a, "--flatfiles_dirs"); });
  args("no model", 2, [](A a) { Drop(a, "--testing_model_file"); });
  for (string m : {"", "Train", "tests", "training"}) args("mode '" + m + "'", 3, [m](A a) { Drop(a, "--mode"); a->push_back("--mode=" + m); });
  for (string f : {"--nosuchflag=1", "--num_threads=0", "--num_threads=-1", "--num_threads=x", "--seed=x", "--num_threads="})
    args("flag " + f, 3, [f](A a) { Drop(a, f.substr(0, f.find('=') + 1)); a->push_back(f); });
  args("config file not there", 3, [](A a) { Drop(a, "--config_file"); a->push_back("--config_file=nowhere.json"); });
  args("config file in a directory that is not there", 3, [](A a) { Drop(a, "--config_file"); a->push_back("--config_file=nowhere/config.json"); });
  args("config file is a directory", 3, [](A a) { Drop(a, "--config_file"); a->push_back("--config_file=d1"); });
  args("base model not there", 1, [](A a) { Drop(a, "--base_model"); a->push_back("--base_model_file=nowhere.json"); });
  args("base model is a directory", 1, [](A a) { Drop(a, "--base_model"); a->push_back("--base_model_file=d1"); });
  args("model not there", 2, [](A a) { Drop(a, "--testing_model"); a->push_back("--testing_model_file=nowhere.json"); });
  args("model is a directory", 2, [](A a) { Drop(a, "--testing_model"); a->push_back("--testing_model_file=d1"); });
  args("output directory in a directory that is not there", 3, [](A a) { Drop(a, "--output_dir"); a->push_back("--output_dir=nowhere/out"); });
  args("output directory is a file", 3, [](A a) { Drop(a, "--output_dir"); a->push_back("--output_dir=all.tsv"); });
  args("model name in a directory that is not there", 1, [](A a) { a->push_back("--output_model_name=nowhere/forest"); });
  // Settings.
  conf("no trees", 1, [](Config* c) { c->set_num_trees(0); });
  conf("no leaves", 1, [](Config* c) { c->set_num_leaves(0); });
  conf("no example sampling rate", 1, [](Config* c) { c->clear_example_sampling_rate(); });
  conf("feature sampling rate 2", 1, [](Config* c) { c->set_feature_sampling_rate(2); });
  conf("unknown loss", 1, [](Config* c) { c->set_loss_func("no such loss"); });
  conf("no loss", 1, [](Config* c) { c->clear_loss_func(); });
  conf("targets are not binary", 1, [](Config* c) { c->set_loss_func("logloss"); c->set_binarize_target(false); });
  conf("no pair sampling rate", 1, [](Config* c) { c->set_loss_func("auc"); c->clear_pair_sampling_rate(); });
  conf("no target column", 1, [](Config* c) { c->clear_target_column(); });
  conf("target column not there", 1, [](Config* c) { c->set_target_column("nowhere"); });
  conf("target column is no raw column", 1, [](Config* c) { c->set_target_column("f"); });
  conf("weight column not there", 1, [](Config* c) { c->set_weight_column("nowhere"); });
  conf("weight column is no raw column", 1, [](Config* c) { c->set_weight_column("s"); }, 7);
  conf("group column not there", 1, [](Config* c) { c->set_group_column("nowhere"); });
  conf("group column is no string column", 1, [](Config* c) { c->set_group_column("g"); });
  conf("float feature not there", 1, [](Config* c) { c->add_float_feature("nowhere"); });
  conf("categorical feature not there", 1, [](Config* c) { c->add_categorical_feature("nowhere"); });
  conf("column not there", 3, [](Config* c) { c->add_additional_float_column("nowhere"); }, 3);
  conf("string column not there", 3, [](Config* c) { c->add_additional_string_column("nowhere"); }, 3);
  conf("feature of the model is not loaded", 2, [](Config* c) { c->clear_float_feature(); c->add_float_feature("f"); }, 3);
  conf("feature of the model has another type", 2, [](Config* c) { c->clear_float_feature(); c->add_float_feature("f"); c->add_categorical_feature("g"); }, 3);
  // Files.
  for (string f : {"config.json", "model.json", "base.json"}) {
    int m = f == "config.json" ? 3 : f == "base.json" ? 1 : 2;
    file(f + " is empty", m, 7, [f](const string& d) { Put(d + "/" + f, ""); });
    for (string bad : {"{", "[]", "1", "{\"tree\": 1}", "{\"num_trees\": \"many\", \"tree\": [1]}", "nothing", "{}x", "\0", "{\"tree\": [{\"score\": \"x\"}], \"loss_func\": 1e5x}"})
      file(f + " is " + bad, m, 1, [f, bad](const string& d) { Put(d + "/" + f, bad); });
  }
  for (string f : {"all.tsv", "first.tsv", "second.tsv"}) {
    int s = f == "all.tsv" ? 1 : 2;
    file(f + " is not there", 3, s, [f](const string& d) { unlink((d + "/" + f).c_str()); });
    file(f + " is a directory", 3, s, [f](const string& d) { unlink((d + "/" + f).c_str()); mkdir((d + "/" + f).c_str(), 0755); });
    file(f + " has a short row", 3, s, [f](const string& d) { auto m = TsvFiles(); Put(d + "/" + f, m[f] + "1\t2\n"); });
    file(f + " has a word for a number", 3, s, [f](const string& d) { auto m = TsvFiles(); Put(d + "/" + f, m[f] + "1\tx\ta\tx\t1\t1\tq\n"); });
    file(f + " has a short row in the middle", 3, s, [f](const string& d) { auto m = TsvFiles(); string t = m[f]; size_t at = t.find('\n', t.size() / 2); Put(d + "/" + f, t.substr(0, at + 1) + "4" + t.substr(at)); });
    if (f != "second.tsv") {
      file(f + " is empty", 3, s, [f](const string& d) { Put(d + "/" + f, ""); });
      for (string col : {"f", "s", "y"}) file(f + " has no column " + col, 3, s, [f, col](const string& d) {
        auto m = TsvFiles();
        string t = m[f];
        size_t at = ("\t" + t).find("\t" + col + "\t");
        Put(d + "/" + f, t.substr(0, at) + "another" + t.substr(at + col.size()));
      });
    }
  }
  args("no name of a tsv", 3, [](A a) { Drop(a, "--tsvs"); Drop(a, "--flatfiles_dirs"); a->push_back("--tsvs="); });
  args("an empty name of a tsv", 3, [](A a) { Drop(a, "--tsvs"); Drop(a, "--flatfiles_dirs"); a->push_back("--tsvs=,all.tsv"); });
  args("tsv not there", 3, [](A a) { Drop(a, "--tsvs"); Drop(a, "--flatfiles_dirs"); a->push_back("--tsvs=nowhere.tsv"); });
  args("directory not there", 3, [](A a) { Drop(a, "--tsvs"); Drop(a, "--flatfiles_dirs"); a->push_back("--flatfiles_dirs=nowhere"); });
  for (string f : {"d1/f", "d2/g", "d1/s", "d2/y"}) {
    int m = f == "d2/y" ? 1 : 3;
    file(f + " is not there", m, 4, [f](const string& d) { unlink((d + "/" + f).c_str()); });
    file(f + " is empty", m, 4, [f](const string& d) { Put(d + "/" + f, ""); });
    file(f + " has no type", m, 4, [f](const string& d) { auto t = FlatFiles(); string x = t[f]; Put(d + "/" + f, x.substr(x.find('\n') + 1)); });
    file(f + " has an unknown type", m, 4, [f](const string& d) { auto t = FlatFiles(); string x = t[f]; Put(d + "/" + f, "# dtype=ints" + x.substr(x.find('\n'))); });
    file(f + " has a row more", m, 4, [f](const string& d) { auto t = FlatFiles(); Put(d + "/" + f, t[f] + "1\n"); });
    file(f + " has a row less", m, 4, [f](const string& d) { auto t = FlatFiles(); string x = t[f]; Put(d + "/" + f, x.substr(0, x.rfind('\n', x.size() - 2) + 1)); });
    file(f + " is a directory", m, 4, [f](const string& d) { unlink((d + "/" + f).c_str()); mkdir((d + "/" + f).c_str(), 0755); });
    if (f != "d2/y") file(f + " has another type", 2, 4, [f](const string& d) { auto t = FlatFiles(); string x = t[f]; Put(d + "/" + f, (f == "d1/s" ? "# dtype=raw_floats" : "# dtype=strings") + x.substr(x.find('\n'))); });
  }
  return w;
}

void WrongCase(mc::Runner& r, int source, int mode, bool base, bool old, const Wrong& w, const Wrong* w2) {
  string dir = r.TempDir() + "/c";
  PutData(dir);
  Config c = MakeConfig("mse");
  Put(dir + "/model.json", Json(BaseForest()));
  Put(dir + "/base.json", Json(BaseForest()));
  vector<string> args = {"--config_file=config.json", "--output_dir=out", "--logtostderr", mode == 1 ? "--mode=train" : "--mode=test", "--num_threads=2"};
  for (auto& a : SourceArgs(source)) args.push_back(a);
  if (mode == 2) args.push_back("--testing_model_file=model.json");
  if (base) args.push_back("--base_model_file=base.json");
  if (old) { Sh("mkdir '" + dir + "/out'"); Put(dir + "/out/forest.json", "old"); Put(dir + "/out/forest.fimps", "old"); }
  for (auto* x : {&w, w2}) if (x && x->conf) x->conf(&c);
  Put(dir + "/config.json", Json(c));
  for (auto* x : {&w, w2}) if (x && x->file) x->file(dir);
  for (auto* x : {&w, w2}) if (x && x->args) x->args(&args);
  auto o = Run(r, dir, args);
  r.State(w.name + (w2 ? w2->name : "") + std::to_string(source * 8 + mode * 2 + old));
  if (o.ok) r.Fail("the program succeeds: " + o.text);
  auto files = Ls(dir + "/out");
  if (old) {
    string t;
    if (files != std::set<string>{"forest.json", "forest.fimps"} || !Get(dir + "/out/forest.json", &t) || t != "old" || !Get(dir + "/out/forest.fimps", &t) || t != "old")
      r.Fail("the old model is changed: " + o.text);
  } else if (!files.empty()) {
    r.Fail(*files.begin() + " is written: " + o.text);
  }
}

void Body(mc::Runner& r) {
  Init();
  // 1. Training.
  for (int source = 0; source < 3; ++source)
    for (const char* loss : {"mse", "logloss", "huberized_hinge", "pairwise_logloss", "lambdamart"})
      for (int bits = 0; bits < 16; ++bits)
        for (int how = 0; how < (r.thorough ? 12 : 3); ++how) {
          if (r.Done()) return;
          bool pairs = loss[0] == 'p' || loss[1] == 'a', binary = !pairs && loss[0] != 'm';
          bool weight = bits & 1, binarize = bits & 2, base = bits & 4, sample = bits & 8;
          if (binary && !binarize) continue;
          int h = how + bits;
          int seed = h % 3 == 0 ? kNoSeed : h % 3, threads = h % 4 == 0 ? 0 : h % 4, named = h / 2 % 2, exists = h / 3 % 2;
          if (!r.Next([=] {
                return string("train ") + loss + " on " + kSources[source] + (weight ? " weights" : "") + (binarize ? " binarized" : "") + (base ? " base" : "") +
                       (sample ? " sampling" : "") + " seed " + (seed == kNoSeed ? "none" : std::to_string(seed)) + " threads " + std::to_string(threads) + (named ? " named" : "") + (exists ? " again" : "");
              })) continue;
          Config c = MakeConfig(loss);
          if (weight) c.set_weight_column("w");
          c.set_binarize_target(binarize);
          if (sample) { c.set_example_sampling_rate(0.6); c.set_feature_sampling_rate(0.7); }
          if (pairs && how != 1) c.set_group_column("group");
          if (how == 2) { c.add_additional_float_column("w"); c.add_additional_string_column("group"); c.set_eval_interval(1); }
          TrainCase(r, source, c, named ? "my.model" : "", seed, threads, base, exists);
        }
  // 2. Testing.
  Forest trained;
  {
    Config c = MakeConfig("mse");
    c.set_num_trees(6);
    Library(c, 2, 3, nullptr, &trained);
  }
  Forest constant, none;
  *constant.add_tree() = Leaf(1.5);
  const Forest* models[] = {&trained, &constant, &none};
  Forest base = BaseForest();
  for (int source = 0; source < 3; ++source)
    for (int m = 0; m < 4; ++m)
      for (int interval : {0, 1, 2, 3, 4, 7, 8, 100, -1})
        for (int threads : {0, 1, 3})
          for (int exists = 0; exists < 2; ++exists) {
            if (r.Done()) return;
            if (!r.Next([=] { return "test model " + std::to_string(m) + " on " + kSources[source] + " interval " + std::to_string(interval) + " threads " + std::to_string(threads) + (exists ? " again" : ""); })) continue;
            const Forest& f = m == 3 ? base : *models[m];
            string dir = r.TempDir() + "/c";
            PutData(dir);
            Config c = MakeConfig("mse");
            c.set_eval_interval(interval);
            if (threads == 1) c.clear_target_column();
            Put(dir + "/config.json", Json(c));
            Put(dir + "/model.json", Json(f));
            vector<string> args = {"--mode=test", "--config_file=config.json", "--output_dir=out", "--logtostderr", "--testing_model_file=model.json"};
            for (auto& a : SourceArgs(source)) args.push_back(a);
            if (threads) args.push_back("--num_threads=" + std::to_string(threads));
            if (exists) { Sh("mkdir '" + dir + "/out'"); Put(dir + "/out/forest." + std::to_string(f.tree_size()) + ".score", "old"); }
            // A model without trees: nothing tells how many rows there are.
            if (m == 2 && source == 2) continue;
            auto o = Run(r, dir, args);
            if (m == 2) continue;
            // Data stores of flat files know their rows once a column is loaded.
            if (m == 1 && source == 2) continue;
            if (!o.ok) r.Fail("testing fails: " + o.text);
            std::set<int> points;
            for (int p = f.tree_size(); p > 0; p -= interval) { points.insert(p); if (interval <= 0) break; }
            CheckScores(r, dir + "/out", f, points, o.text);
            r.State(Bits(f) + std::to_string(interval) + kSources[source]);
          }
  // 3. One thing is wrong (thorough: or two).
  auto wrongs = Wrongs();
  for (int source = 0; source < 3; ++source)
    for (int mode = 1; mode <= 2; ++mode)
      for (size_t k = 0; k < wrongs.size(); ++k) {
        const auto& w = wrongs[k];
        if (!(w.modes & mode) || !(w.sources & (1 << source))) continue;
        for (int old = 0; old < 2; ++old) {
          if (r.Done()) return;
          bool base = mode == 1 && (w.name.find("base") != string::npos || (k + source) % 2);
          if (!r.Next([=] { return string(mode == 1 ? "train" : "test") + " on " + kSources[source] + (old ? " again: " : ": ") + wrongs[k].name; })) continue;
          WrongCase(r, source, mode, base, old, w, nullptr);
        }
      }
  if (r.thorough)
    for (int source = 0; source < 3; ++source)
      for (int mode = 1; mode <= 2; ++mode)
        for (size_t k = 0; k < wrongs.size(); ++k)
          for (size_t l = k + 1; l < wrongs.size(); ++l) {
            if (r.Done()) return;
            const auto &w = wrongs[k], &w2 = wrongs[l];
            if (!(w.modes & w2.modes & mode) || !(w.sources & w2.sources & (1 << source))) continue;
            if (w.file && w2.file && w.name.substr(0, w.name.find(' ')) == w2.name.substr(0, w2.name.find(' '))) continue;
            if (!r.Next([=] { return string(mode == 1 ? "train" : "test") + " on " + kSources[source] + ": " + wrongs[k].name + ", " + wrongs[l].name; })) continue;
            WrongCase(r, source, mode, mode == 1 && ((k + l) % 2 || (w.name + w2.name).find("base") != string::npos), (k + l) / 2 % 2, w, &w2);
          }
  // 4. Model and config files that are cut off anywhere.
  string model = Json(BaseForest()), config = Json(MakeConfig("mse"));
  for (int which = 0; which < 3; ++which) {
    const string& text = which == 1 ? config : model;
    size_t end = text.find_last_of('}');
    for (size_t cut = 1; cut <= end; ++cut) {
      if (r.Done()) return;
      if (!r.Next([=] { return string(which == 0 ? "model" : which == 1 ? "config" : "base model") + " cut off after " + std::to_string(cut) + " bytes"; })) continue;
      Wrong w{"cut " + std::to_string(cut), nullptr, nullptr, [&](const string& d) { Put(d + (which == 0 ? "/model.json" : which == 1 ? "/config.json" : "/base.json"), text.substr(0, cut)); }, 3, 7};
      WrongCase(r, cut % 3, which == 0 ? 2 : 1, which == 2, cut / 3 % 2, w, nullptr);
    }
  }
  // 5. The output directory, however it is written.
  for (const char* out : {"out/", "./out", "out//", "/out", "/out/", "d1/../out", "../c/out"})
    for (int mode = 1; mode <= 2; ++mode)
      for (int exists = 0; exists < 2; ++exists)
        for (int named = 0; named < 2; ++named) {
          if (r.Done()) return;
          if (!r.Next([=] { return string(mode == 1 ? "train" : "test") + " into " + out + (exists ? " again" : "") + (named ? " named" : ""); })) continue;
          Config c = MakeConfig("mse");
          if (mode == 1) { TrainCase(r, named, c, named ? "m" : "", kNoSeed, 2, named, exists, out); continue; }
          string dir = r.TempDir() + "/c";
          PutData(dir);
          Put(dir + "/config.json", Json(c));
          Put(dir + "/model.json", Json(BaseForest()));
          if (exists) Sh("mkdir '" + dir + "/out'");
          auto o = Run(r, dir, {"--mode=test", "--config_file=config.json", string("--output_dir=") + (out[0] == '/' ? dir : "") + out, "--logtostderr", "--tsvs=all.tsv",
                                string("--testing_model_file=") + (named ? "./" : "") + "model.json"});
          if (!o.ok) r.Fail("testing fails: " + o.text);
          CheckScores(r, dir + "/out", BaseForest(), {3}, o.text);
        }
  // 6. Sequences of runs into one directory: the model of one is the base or the tested model of the next.
  for (int n = 2; n <= (r.thorough ? 4 : 3); ++n)
    Sequences(7, n, [&](const vector<int>& ops) {
      if (r.Done()) return;
      const char* names[] = {"train", "train ranking", "train with the model as base", "test", "test with interval 2", "train on a column that is not there", "test on a tsv that is not there"};
      if (!r.Next([&] { string t = "runs"; for (int o : ops) t += string(", ") + names[o]; return t; })) return;
      string dir = r.TempDir() + "/c";
      PutData(dir);
      bool have = false;
      Forest model;
      map<string, std::pair<Forest, int>> score_files;
      for (int op : ops) {
        Config c = MakeConfig(op == 1 ? "lambdamart" : "mse");
        if (op == 1) c.set_group_column("group");
        if (op == 4) c.set_eval_interval(2);
        if (op == 5) c.set_target_column("nowhere");
        Put(dir + "/config.json", Json(c));
        bool test = op == 3 || op == 4 || op == 6;
        vector<string> args = {"--config_file=config.json", "--output_dir=out", "--logtostderr", "--num_threads=2", "--seed=5", test ? "--mode=test" : "--mode=train",
                               op == 6 ? "--tsvs=nowhere.tsv" : "--tsvs=first.tsv,second.tsv"};
        if (test) args.push_back("--testing_model_file=out/forest.json");
        if (op == 2) args.push_back("--base_model_file=out/forest.json");
        bool good = op < 5 && (have || op < 2);
        auto o = Run(r, dir, args);
        if (o.ok != good) r.Fail(string("a run ") + (good ? "fails: " : "succeeds: ") + o.text);
        if (good && !test) {
          Forest next;
          if (!Library(c, 2, 5, op == 2 ? &model : nullptr, &next)) abort();
          model = next;
          have = true;
        }
        if (good && test)
          for (int p = model.tree_size(); p > 0; p -= 2) { score_files["forest." + std::to_string(p) + ".score"] = {model, p}; if (op == 3) break; }
        std::set<string> want;
        if (have) want = {"forest.json", "forest.fimps"};
        for (auto& f : score_files) want.insert(f.first);
        if (Ls(dir + "/out") != want) r.Fail("other files are written: " + o.text);
        if (!have) continue;
        string text;
        Forest got;
        Get(dir + "/out/forest.json", &text);
        if (!JsonUtils::FromJson(text, &got).ok() || Bits(got) != Bits(model)) r.Fail("the model is\n " + text + "\n instead of\n " + Show(model) + "\n" + o.text);
        Get(dir + "/out/forest.fimps", &text);
        CheckImportance(r, text, model);
        Data d = AsData();
        for (auto& f : score_files) {
          Get(dir + "/out/" + f.first, &text);
          std::istringstream in(text);
          string line;
          int i = 0;
          for (; std::getline(in, line); ++i)
            if (i >= d.n || !Near(atof(line.c_str()), Score(f.second.first, d, i, f.second.second), 2e-5)) r.Fail(f.first + ", row " + std::to_string(i) + " scores " + line + " " + o.text);
          if (i != d.n) r.Fail(f.first + " has " + std::to_string(i) + " scores " + o.text);
        }
        r.State(Bits(model) + std::to_string(score_files.size()));
      }
    });
  // 7. Blocks of data in the order in which they are given, whatever their names are.
  {
    vector<string> names = {"a.tsv", "b.tsv", "c.tsv", "10.tsv"};
    std::sort(names.begin(), names.end());
    for (size_t k = 2; k <= names.size(); ++k) {
      vector<string> order(names.begin(), names.begin() + k);
      do {
        for (int mode = 1; mode <= 2; ++mode)
          for (int threads : {1, 3}) {
            if (r.Done()) return;
            string tsvs;
            for (auto& x : order) tsvs += (tsvs.empty() ? "" : ",") + x;
            if (!r.Next([=] { return string(mode == 1 ? "train" : "test") + " on blocks " + tsvs + ", threads " + std::to_string(threads); })) continue;
            Config c = MakeConfig("mse");
            if (mode == 1) {
              c.set_example_sampling_rate(0.6);  // What is drawn depends on the order of the rows.
              c.set_weight_column("w");
              TrainCase(r, 0, c, "", 3, threads, false, false, "out", tsvs);
              continue;
            }
            string dir = r.TempDir() + "/c";
            PutData(dir);
            PutBlocks(dir, tsvs);
            Put(dir + "/config.json", Json(c));
            Put(dir + "/model.json", Json(base));
            auto o = Run(r, dir, {"--mode=test", "--config_file=config.json", "--output_dir=out", "--logtostderr", "--tsvs=" + tsvs, "--testing_model_file=model.json",
                                  "--num_threads=" + std::to_string(threads)});
            if (!o.ok) r.Fail("testing fails: " + o.text);
            CheckScores(r, dir + "/out", base, {base.tree_size()}, o.text);
          }
      } while (std::next_permutation(order.begin(), order.end()));
    }
  }
  // Many blocks, most of them without a row.
  for (int blocks : {12, 65, 130, 1000})
    for (int mode = 1; mode <= 2; ++mode) {
      if (r.Done()) return;
      if (!r.Next([=] { return string(mode == 1 ? "train" : "test") + " on " + std::to_string(blocks) + " blocks"; })) continue;
      string tsvs;
      for (int b = 0; b < blocks; ++b) tsvs += (b ? "," : "") + std::to_string(blocks - b) + "_block.tsv";
      Config c = MakeConfig("mse");
      if (mode == 1) {
        TrainCase(r, 0, c, "", 3, 2, false, false, "out", tsvs);
        continue;
      }
      string dir = r.TempDir() + "/c";
      PutData(dir);
      PutBlocks(dir, tsvs);
      Put(dir + "/config.json", Json(c));
      Put(dir + "/model.json", Json(base));
      auto o = Run(r, dir, {"--mode=test", "--config_file=config.json", "--output_dir=out", "--logtostderr", "--tsvs=" + tsvs, "--testing_model_file=model.json", "--num_threads=3"});
      if (!o.ok) r.Fail("testing fails: " + o.text);
      CheckScores(r, dir + "/out", base, {base.tree_size()}, o.text);
    }
  // 8. Every seed is a seed.
  for (int seed : {0, -1, 1, 7, 1234567, INT32_MAX, INT32_MIN})
    for (const char* loss : {"mse", "pairwise_logloss"})
      for (int rates = 1; rates < 4; ++rates) {
        if (r.Done()) return;
        if (!r.Next([=] { return string("train ") + loss + " with the seed " + std::to_string(seed) + ", rates " + std::to_string(rates); })) continue;
        Config c = MakeConfig(loss);
        if (rates & 1) c.set_example_sampling_rate(0.5);
        if (rates & 2) c.set_feature_sampling_rate(0.5);
        c.set_num_trees(5);
        TrainCase(r, 0, c, "", seed, 2, false, false);
      }
  // 9. Importances that differ by orders of magnitude.
  for (double big : {1e-3, 1.0, 1e6})
    for (double small : {1e-30, 1e-12, 1e-7, 1e-4, 0.3}) {
      if (r.Done()) return;
      if (!r.Next([=] { return "importances of gains " + std::to_string(big) + " and " + Num(small) + " of that"; })) continue;
      Forest b;
      *b.add_tree() = Node(FloatSplit("f", 3, true, big), Leaf(0.5), Node(CatSplit("s", {"a"}, big * small), Leaf(-0.5), Leaf(0.125)));
      *b.add_tree() = Node(FloatSplit("g", 3, true, big * small * 0.5), Leaf(0.5), Leaf(0.25));
      Config c = MakeConfig("mse");
      c.set_num_trees(1);
      c.set_num_leaves(1);
      TrainCase(r, 0, c, "", kNoSeed, 2, true, false, "out", "", &b);
    }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body, 60); }
