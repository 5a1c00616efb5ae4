// C04: every interleaving (up to a bound) of loading TSV blocks in parallel.
#include <glog/logging.h>
#include <gflags/gflags.h>
#include <math.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <memory>

#include "mcrt.h"
#include "src/data_store/column.h"
#include "src/data_store/tsv_data_store.h"
#include "src/proto/config.pb.h"

DECLARE_int32(num_threads);

using namespace gbdt;
using std::string;
using std::vector;

namespace {

string g_dir;

string Path(const string& n) { return g_dir + "/" + n; }

const char kHeader[] = "f\tg\tr\ts\tt\n";
// The rows of the good blocks; block i is b<i>.tsv, with the header (h) or without.
const vector<vector<vector<string>>> kBlocks = {
    {{"1", "5", "0.5", "x", "p"}, {"nan", "4", "1.5", "y", "q"}},
    {{"3", "5", "2.5", "z", "p"}},
    {{"1", "?", "3.5", "x", "r"}, {"2", "4", "4.5", "__missing__", "p"}},
};

Config FullConfig() {
  Config c;
  c.add_float_feature("f");
  c.add_float_feature("g");
  c.set_target_column("r");
  c.add_additional_float_column("r");   // requested twice
  c.set_weight_column("r");
  c.add_categorical_feature("s");
  c.set_group_column("s");
  c.add_additional_string_column("t");
  return c;
}
Config SmallConfig() {
  Config c;
  c.add_float_feature("f");
  c.add_categorical_feature("s");
  return c;
}

string Text(int i, bool header) {
  string o = header ? kHeader : "";
  for (auto& row : kBlocks[i]) {
    for (size_t k = 0; k < row.size(); ++k) o += (k ? "\t" : "") + row[k];
    o += "\n";
  }
  return o;
}

void Setup() {
  g_dir = string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/tsv";
  mkdir(g_dir.c_str(), 0700);
  auto write = [](const string& n, const string& t) {
    // Atomically: every worker process runs Setup.
    string tmp = Path("tmp." + std::to_string(getpid()));
    { std::ofstream(tmp) << t; }
    rename(tmp.c_str(), Path(n).c_str());
  };
  for (int i = 0; i < 3; ++i) {
    write("h" + std::to_string(i), Text(i, true));
    write("b" + std::to_string(i), Text(i, false));
  }
  write("hfew", string(kHeader) + "1\t2\t3\n");
  write("bfew", "1\t2\t3\n");
  write("hbad", string(kHeader) + "1\tz\t3\tx\tp\n");
  write("bbad", "zz\t2\t3\tx\tp\n");
  FLAGS_minloglevel = 4;
  // Warm up everything that initializes itself once.
  FLAGS_num_threads = 1;
  TSVDataStore ds({Path("h0"), Path("b1"), Path("bbad")}, FullConfig());
}

string Cell(const Column* c, uint i) {
  if (c->type() == Column::kStringColumn) return static_cast<const StringColumn*>(c)->get_row_string(i);
  if (c->type() == Column::kRawFloatColumn) return std::to_string((*static_cast<const RawFloatColumn*>(c))[i]);
  const auto* b = static_cast<const BucketizedFloatColumn*>(c);
  return b->col().missing(i) ? "nan" : std::to_string(b->get_row_max(i));
}

string Contents(DataStore* ds, const vector<std::pair<string, Column::ColumnType>>& cols) {
  string out;
  mcrt::Assert(ds->num_cols() == cols.size(), "the data store has " + std::to_string(ds->num_cols()) + " columns");
  for (auto& p : cols) {
    const Column* c = ds->GetColumn(p.first);
    mcrt::Assert(c != nullptr, "column " + p.first + " is not there");
    mcrt::Assert(c->type() == p.second, "column " + p.first + " has a wrong type");
    out += p.first + "=";
    for (uint i = 0; i < c->size(); ++i) out += Cell(c, i) + ",";
  }
  return out;
}

string ExpectedCell(const string& s, int col) {
  if (col >= 3) return s;
  if (s == "nan" || s == "?") return "nan";
  return std::to_string(atof(s.c_str()));
}

std::string Run(const vector<string>& files, const vector<int>& blocks, bool full, int threads) {
  FLAGS_num_threads = threads;
  vector<string> paths;
  for (auto& f : files) paths.push_back(Path(f));
  Config config = full ? FullConfig() : SmallConfig();
  vector<std::pair<string, Column::ColumnType>> cols;
  vector<int> pos;
  if (full) {
    cols = {{"f", Column::kBucketizedFloatColumn}, {"g", Column::kBucketizedFloatColumn}, {"r", Column::kRawFloatColumn},
            {"s", Column::kStringColumn}, {"t", Column::kStringColumn}};
    pos = {0, 1, 2, 3, 4};
  } else {
    cols = {{"f", Column::kBucketizedFloatColumn}, {"s", Column::kStringColumn}};
    pos = {0, 3};
  }
  long before = mcrt::LiveBlocks();
  bool ok;
  string got;
  {
    TSVDataStore ds(paths, config);
    ok = ds.status().ok();
    if (ok) got = Contents(&ds, cols);
  }
  string text = ok ? got : "error";
  got.clear(); got.shrink_to_fit();
  long after = mcrt::LiveBlocks() - (text.capacity() > 15 ? 1 : 0);
  mcrt::Assert(after == before, "loading leaked " + std::to_string(after - before) + " heap blocks");
  if (blocks.empty()) {
    mcrt::Assert(!ok, "a bad block was accepted");
    return "error";
  }
  mcrt::Assert(ok, "good blocks were rejected");
  string want;
  for (size_t k = 0; k < cols.size(); ++k) {
    want += cols[k].first + "=";
    for (int b : blocks)
      for (auto& row : kBlocks[b]) want += ExpectedCell(row[pos[k]], pos[k]) + ",";
  }
  mcrt::Assert(text == want, "loaded " + text + " instead of " + want);
  return text;
}

mcrt::Scenario S(const string& name, vector<string> files, vector<int> blocks, bool full, int threads, int quick,
                 int thorough) {
  mcrt::Scenario s;
  s.name = name;
  s.setup = Setup;
  s.run = [=] { return Run(files, blocks, full, threads); };
  s.quick_bound = quick;
  s.thorough_bound = thorough;
  s.horizon = 5000;
  return s;
}

}  // namespace

int main(int argc, char** argv) {
  typedef vector<string> V;
  typedef vector<int> I;
  vector<mcrt::Scenario> v;
  v.push_back(S("one_block_1t", V{"h0"}, I{0}, true, 1, 2, 4));
  v.push_back(S("one_block_2t", V{"h0"}, I{0}, false, 2, 2, 3));
  v.push_back(S("two_blocks_1t", V{"h0", "b1"}, I{0, 1}, false, 1, 2, 4));
  v.push_back(S("two_blocks_2t", V{"h1", "b0"}, I{1, 0}, false, 2, 2, 3));
  v.push_back(S("two_blocks_full_2t", V{"h2", "b1"}, I{2, 1}, true, 2, 2, 3));
  v.push_back(S("three_blocks_2t", V{"h0", "b1", "b2"}, I{0, 1, 2}, false, 2, 1, 2));
  v.push_back(S("three_blocks_full_3t", V{"h2", "b0", "b1"}, I{2, 0, 1}, true, 3, 1, 2));
  v.push_back(S("same_block_twice_3t", V{"h0", "b0"}, I{0, 0}, false, 3, 1, 2));
  v.push_back(S("missing_first_2t", V{"none", "b1"}, I{}, false, 2, 2, 4));
  v.push_back(S("missing_middle_2t", V{"h0", "none", "b2"}, I{}, false, 2, 2, 3));
  v.push_back(S("missing_last_2t", V{"h0", "b1", "none"}, I{}, false, 2, 1, 2));
  v.push_back(S("few_first_2t", V{"hfew", "b1", "b2"}, I{}, false, 2, 2, 3));
  v.push_back(S("few_middle_2t", V{"h0", "bfew", "b2"}, I{}, false, 2, 2, 3));
  v.push_back(S("few_last_3t", V{"h0", "b1", "bfew"}, I{}, false, 3, 1, 2));
  v.push_back(S("bad_first_1t", V{"hbad", "b1", "b2"}, I{}, true, 1, 2, 4));
  v.push_back(S("bad_middle_2t", V{"h0", "bbad", "b2"}, I{}, false, 2, 2, 3));
  v.push_back(S("bad_last_2t", V{"h0", "b1", "bbad"}, I{}, false, 2, 1, 2));
  v.push_back(S("two_bad_2t", V{"h0", "bbad", "none"}, I{}, false, 2, 2, 3));
  // The schedule that switches at every point: more blocks and threads.
  auto rotating = [&](mcrt::Scenario s) { s.rotate = true; s.horizon = 40000; v.push_back(s); };
  rotating(S("rotating_3_2t", V{"h0", "b1", "b2"}, I{0, 1, 2}, false, 2, 2, 3));
  rotating(S("rotating_3_full_3t", V{"h2", "b0", "b1"}, I{2, 0, 1}, true, 3, 1, 2));
  rotating(S("rotating_bad_middle_3t", V{"h0", "bbad", "b2", "b1"}, I{}, false, 3, 1, 2));
  for (int threads : {2, 5, 9}) {
    V files;
    I blocks;
    for (int i = 0; i < 24; ++i) {
      int b = i * 7 % 3;
      files.push_back((i ? "b" : "h") + std::to_string(b));
      blocks.push_back(b);
    }
    V few(files.begin(), files.begin() + 8), bad = files;
    bad[15] = "bfew";
    rotating(S("rotating_8_" + std::to_string(threads) + "t", few, I(blocks.begin(), blocks.begin() + 8), true, threads, 1 - (threads > 2), 1));
    rotating(S("rotating_24_" + std::to_string(threads) + "t", files, blocks, false, threads, 0, 0));
    rotating(S("rotating_24_bad_" + std::to_string(threads) + "t", bad, I{}, false, threads, 0, 0));
  }
  return mcrt::Main(argc, argv, v);
}
