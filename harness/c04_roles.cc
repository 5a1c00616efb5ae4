// C04, sequential part: every assignment of roles to the columns of a TSV, every division into blocks.
#include <fstream>

#include "common.h"
#include "src/data_store/tsv_data_store.h"

using namespace ref;
using std::string;
using std::vector;

namespace {

const char* kCols[] = {"a", "b", "c"};
// Cells that are readable as floats (with markers) and as strings.
const vector<vector<string>> kRows = {{"1", "2.5", "-"}, {"nan", "2.5", "7"}, {"1", "?", "1e3"}, {"-4", "0", "7"}};

string Write(const string& dir, int i, const string& text) {
  string p = dir + "/b" + std::to_string(i);
  std::ofstream(p) << text;
  return p;
}
string Line(const vector<string>& row, const char* eol) {
  string o;
  for (size_t i = 0; i < row.size(); ++i) o += (i ? "\t" : "") + row[i];
  return o + eol;
}
float Value(const string& s) { return s == "nan" || s == "-" || s == "?" ? NAN : strtof(s.c_str(), nullptr); }

// type: 0 bucketized, 1 raw, 2 string
void Check(mc::Runner& r, const vector<string>& files, const Config& c, bool ok, const std::map<string, int>& types, const vector<vector<string>>& rows) {
  gbdt::TSVDataStore ds(files, c);
  r.Step();
  auto fail = [&](const string& m) { r.Fail(c.ShortDebugString() + ": " + m); };
  if (ds.status().ok() != ok) fail("status " + ds.status().ToString());
  if (!ok) { r.Count("rejected"); return; }
  if (ds.num_cols() != types.size()) fail(std::to_string(ds.num_cols()) + " columns instead of " + std::to_string(types.size()));
  string key;
  for (auto& p : types) {
    const Column* col = ds.GetColumn(p.first);
    if (!col) fail("column " + p.first + " is absent");
    const auto* f = ds.GetBucketizedFloatColumn(p.first);
    const auto* w = ds.GetRawFloatColumn(p.first);
    const auto* s = ds.GetStringColumn(p.first);
    if ((f != nullptr) != (p.second == 0) || (w != nullptr) != (p.second == 1) || (s != nullptr) != (p.second == 2)) fail("column " + p.first + " has a wrong type");
    if (col->size() != rows.size()) fail("column " + p.first + " has " + std::to_string(col->size()) + " rows");
    for (size_t i = 0; i < rows.size(); ++i) {
      const string& cell = rows[i][p.first[0] - 'a'];
      float v = Value(cell);
      bool same = s ? s->get_row_string(i) == cell : w ? (std::isnan(v) ? std::isnan((*w)[i]) : (*w)[i] == v)
                    : std::isnan(v) ? f->col().missing(i) : !f->col().missing(i) && f->get_row_max(i) == v;
      if (!same) fail("column " + p.first + " row " + std::to_string(i) + " is not '" + cell + "'");
    }
    key += p.first + std::to_string(p.second);
  }
  r.State(key + std::to_string(rows.size()) + c.SerializeAsString());
}

void Body(mc::Runner& r) {
  Init();
  string dir = r.TempDir();
  const char* names[] = {nullptr, "a", "b", "z"};
  // 1. Every assignment of the seven roles (one more of float feature) to no column, one of two columns, or an absent one.
  Sequences(4, 7, [&](const vector<int>& v) {
    if (r.Done()) return;
    if (!r.Next([=] { return "roles " + ShowV(v); })) return;
    Config c;
    bool ok = true;
    std::map<string, int> types;
    for (int role = 0; role < 7; ++role) {
      const char* n = names[v[role]];
      if (!n) continue;
      int type = 0;
      switch (role) {
        case 0: c.add_float_feature(n); break;
        case 1: c.add_categorical_feature(n); type = 2; break;
        case 2: c.add_additional_float_column(n); type = 1; break;
        case 3: c.add_additional_string_column(n); type = 2; break;
        case 4: c.set_target_column(n); type = 1; break;
        case 5: c.set_weight_column(n); type = 1; break;
        case 6: c.set_group_column(n); type = 2; break;
      }
      if (n[0] == 'z') ok = false;
      auto it = types.insert({n, type});
      if (it.first->second != type) ok = false;
    }
    FLAGS_num_threads = 1 + (v[0] + v[3] + v[6]) % 2;
    vector<string> files = {Write(dir, 0, "a\tb\tc\n" + Line(kRows[0], "\n") + Line(kRows[1], "\n")), Write(dir, 1, Line(kRows[2], "\n"))};
    Check(r, files, c, ok, types, {kRows[0], kRows[1], kRows[2]});
  });
  // 2. Lists of features of every length, order and repetition; all orders of the columns in the file.
  for (int nf = 0; nf <= 3; ++nf)
    for (int ns = 0; ns <= 2; ++ns)
      Sequences(3, nf + ns, [&](const vector<int>& v) {
        if (r.Done()) return;
        if (!r.Next([=] { return "features " + std::to_string(nf) + "+" + std::to_string(ns) + " " + ShowV(v); })) return;
        vector<int> order = {0, 1, 2};
        do {
          Config c;
          bool ok = true;
          std::map<string, int> types;
          for (int i = 0; i < nf + ns; ++i) {
            string n = kCols[v[i]];
            if (i < nf) c.add_float_feature(n); else c.add_categorical_feature(n);
            if (types.insert({n, i < nf ? 0 : 2}).first->second != (i < nf ? 0 : 2)) ok = false;
          }
          string text;
          for (int k = 0; k < 3; ++k) text += string(k ? "\t" : "") + kCols[order[k]];
          text += "\n";
          for (int i = 0; i < 3; ++i) { vector<string> row; for (int k : order) row.push_back(kRows[i][k]); text += Line(row, "\n"); }
          FLAGS_num_threads = 1 + v.size() % 3;
          Check(r, {Write(dir, 0, text)}, c, ok, types, {kRows[0], kRows[1], kRows[2]});
        } while (std::next_permutation(order.begin(), order.end()));
      });
  // 3. Every division of the rows into up to 4 blocks (also empty ones), with every kind of line end.
  for (int rows = 0; rows <= 4; ++rows)
    for (int blocks = 1; blocks <= 4; ++blocks)
      Sequences(blocks, rows, [&](const vector<int>& at) {
        if (r.Done() || !std::is_sorted(at.begin(), at.end())) return;
        if (!r.Next([=] { return std::to_string(blocks) + " blocks, rows in " + ShowV(at); })) return;
        for (int style = 0; style < 6; ++style)
          for (int threads : {1, 3}) {
            const char* eol = style % 2 ? "\r\n" : "\n";
            vector<string> text(blocks);
            text[0] = string("a\tb\tc") + eol;
            vector<vector<string>> want;
            for (int i = 0; i < rows; ++i) { text[at[i]] += Line(kRows[i], eol); want.push_back(kRows[i]); }
            vector<string> files;
            for (int b = 0; b < blocks; ++b) {
              if (style / 2 == 1 && !text[b].empty()) text[b].erase(text[b].size() - strlen(eol));
              if (style / 2 == 2) text[b] += eol;
              files.push_back(Write(dir, b, text[b]));
            }
            Config c;
            c.add_float_feature("a"); c.set_target_column("b"); c.set_group_column("c");
            FLAGS_num_threads = threads;
            Check(r, files, c, true, {{"a", 0}, {"b", 1}, {"c", 2}}, want);
          }
      });
  // 4. A bad row in any block at any place.
  for (int blocks = 1; blocks <= 4; ++blocks)
    for (int bad = 0; bad < blocks; ++bad)
      for (int place = 0; place < 3; ++place)
        for (int kind = 0; kind < 4; ++kind)
          for (int threads = 1; threads <= 3; ++threads) {
            if (!r.Next([=] { return "bad row " + std::to_string(kind) + " in block " + std::to_string(bad) + " of " + std::to_string(blocks) + " at " + std::to_string(place); })) continue;
            vector<string> files;
            for (int b = 0; b < blocks; ++b) {
              string text = b ? "" : "a\tb\tc\n";
              for (int i = 0; i < 3; ++i) {
                if (b == bad && i == place) text += kind == 0 ? "1\t2\n" : kind == 1 ? "x\t2\t3\n" : kind == 2 ? "1\t\t3\n" : "1\n";
                text += Line(kRows[i], "\n");
              }
              files.push_back(Write(dir, b, text));
            }
            Config c;
            c.add_float_feature("a"); c.set_target_column("b"); c.set_group_column("c");
            FLAGS_num_threads = threads;
            Check(r, files, c, false, {}, {});
          }
  // 5. Every list of categorical features, every group column, every additional column.
  for (int nc = 0; nc <= 3; ++nc)
    Sequences(3, nc, [&](const vector<int>& v) {
      for (int group = 0; group < 4; ++group)
        for (int extra = 0; extra < 4; ++extra) {
          if (r.Done()) return;
          if (!r.Next([=] { return "categorical " + ShowV(v) + "group " + std::to_string(group) + " additional " + std::to_string(extra); })) continue;
          Config c;
          std::map<string, int> types;
          for (int i : v) { c.add_categorical_feature(kCols[i]); types[kCols[i]] = 2; }
          if (group) { c.set_group_column(kCols[group - 1]); types[kCols[group - 1]] = 2; }
          if (extra) {
            for (int k = 0; k < 2; ++k) { const char* n = kCols[(extra - 1 + k) % 3]; c.add_additional_string_column(n); types[n] = 2; }
          }
          FLAGS_num_threads = 1 + (group + extra) % 3;
          Check(r, {Write(dir, 0, "a\tb\tc\n" + Line(kRows[0], "\n")), Write(dir, 1, Line(kRows[1], "\n"))}, c, true, types, {kRows[0], kRows[1]});
          // The same for floats.
          Config d;
          types.clear();
          for (int i : v) { d.add_additional_float_column(kCols[i]); types[kCols[i]] = 1; }
          if (group) { d.set_target_column(kCols[group - 1]); types[kCols[group - 1]] = 1; }
          if (extra) { d.set_weight_column(kCols[extra - 1]); types[kCols[extra - 1]] = 1; }
          Check(r, {Write(dir, 0, "a\tb\tc\n" + Line(kRows[0], "\n")), Write(dir, 1, Line(kRows[1], "\n"))}, d, true, types, {kRows[0], kRows[1]});
        }
    });
  // 6. White space around the names in the header.
  Sequences(4, 3, [&](const vector<int>& v) {
    if (r.Done()) return;
    if (!r.Next([=] { return "header spaces " + ShowV(v); })) return;
    for (const char* eol : {"\n", "\r\n"}) {
      string text;
      for (int k = 0; k < 3; ++k) text += string(k ? "\t" : "") + (v[k] & 1 ? " " : "") + kCols[k] + (v[k] & 2 ? "  " : "");
      text += eol;
      for (int i = 0; i < 3; ++i) text += Line(kRows[i], eol);
      Config c;
      c.add_float_feature("a"); c.set_target_column("b"); c.set_group_column("c");
      Check(r, {Write(dir, 0, text)}, c, true, {{"a", 0}, {"b", 1}, {"c", 2}}, {kRows[0], kRows[1], kRows[2]});
    }
  });
  // 7. Many blocks.
  for (int blocks : {5, 9, 10, 11, 16, 17, 33, 64, 100, 150, 300})
    for (int threads : {1, 2, 5}) {
      if (!r.Next([=] { return std::to_string(blocks) + " blocks, " + std::to_string(threads) + " threads"; })) continue;
      vector<string> files;
      vector<vector<string>> want;
      for (int b = 0; b < blocks; ++b) {
        string text = b ? "" : "a\tb\tc\n";
        for (int i = 0; i <= b % 3; ++i) { want.push_back({std::to_string(b), std::to_string(10 * b + i), "s" + std::to_string(b * 7 % 13)}); text += Line(want.back(), "\n"); }
        files.push_back(Write(dir, b, text));
      }
      Config c;
      c.add_float_feature("a"); c.set_target_column("b"); c.set_group_column("c");
      FLAGS_num_threads = threads;
      Check(r, files, c, true, {{"a", 0}, {"b", 1}, {"c", 2}}, want);
      // One of them bad.
      for (int bad : {blocks / 2, blocks - 1}) {
        string good = files[bad];
        files[bad] = Write(dir, 1000, "1\tx\ty\n");
        Check(r, files, c, false, {}, {});
        files[bad] = good;
      }
    }
  // 8. Blocks that are listed more than once; the first one's header is then a row like any other.
  for (int n = 1; n <= (r.thorough ? 5 : 4); ++n)
    Sequences(3, n, [&](const vector<int>& v) {
      if (r.Done()) return;
      if (!r.Next([=] { return "repeated blocks " + ShowV(v); })) return;
      const string lines[] = {Line(kRows[0], "\n"), Line(kRows[1], "\n") + Line(kRows[2], "\n"), Line(kRows[3], "\n")};
      const vector<vector<string>> rows[] = {{kRows[0]}, {kRows[1], kRows[2]}, {kRows[3]}};
      vector<string> files = {Write(dir, 0, "a\tb\tc\n" + lines[0])}, block;
      for (int b = 1; b < 3; ++b) block.push_back(Write(dir, b, lines[b]));
      vector<vector<string>> want = rows[0];
      bool header = false;
      for (int b : v) {
        files.push_back(b ? block[b - 1] : files[0]);
        if (b == 0) { header = true; want.push_back({"a", "b", "c"}); }
        want.insert(want.end(), rows[b].begin(), rows[b].end());
      }
      for (int kind = 0; kind < 2; ++kind) {
        Config c;
        std::map<string, int> types = {{"a", 2}, {"c", 2}};
        c.add_categorical_feature("a"); c.set_group_column("c");
        if (kind) { c.set_target_column("b"); types["b"] = 1; }
        FLAGS_num_threads = 1 + n % 3;
        Check(r, files, c, !(kind && header), types, want);
      }
    });
  // 9. Wide files: columns that are far to the right.
  for (int width : {4, 60, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 3000})
    for (int threads : {1, 3}) {
      if (!r.Next([=] { return std::to_string(width) + " columns, " + std::to_string(threads) + " threads"; })) continue;
      auto cell = [&](int row, int k) { return std::to_string(row * 7 + k); };
      auto line = [&](int row, int cells) {
        string o;
        for (int k = 0; k < cells; ++k) o += (k ? "\t" : "") + (row < 0 ? "n" + std::to_string(k) : cell(row, k));
        return o + "\n";
      };
      FLAGS_num_threads = threads;
      Config c;
      std::set<int> f = {0, 1, width / 2, width - 3};
      for (int k : f) c.add_float_feature("n" + std::to_string(k));
      c.add_categorical_feature("n" + std::to_string(width - 2 - (width == 4)));
      if (width == 4) c.clear_float_feature(), f = {0}, c.add_float_feature("n0");
      c.set_target_column("n" + std::to_string(width - 1));
      const string first = line(-1, width) + line(0, width) + line(1, width);
      gbdt::TSVDataStore ds({Write(dir, 0, first), Write(dir, 1, line(2, width))}, c);
      r.Step();
      if (!ds.status().ok()) r.Fail(ds.status().ToString());
      auto col = [&](int k) { return "n" + std::to_string(k); };
      for (int k : f) {
        const auto* b = ds.GetBucketizedFloatColumn(col(k));
        if (!b || b->size() != 3) r.Fail("column " + col(k) + " is absent or has a wrong size");
        for (int i = 0; i < 3; ++i) if (b->get_row_max(i) != i * 7 + k) r.Fail("column " + col(k) + " has a wrong value");
      }
      const auto* s = ds.GetStringColumn(c.categorical_feature(0));
      const auto* t = ds.GetRawFloatColumn(col(width - 1));
      if (!s || !t || s->size() != 3 || t->size() != 3) r.Fail("a column is absent or has a wrong size");
      for (int i = 0; i < 3; ++i)
        if ((*t)[i] != i * 7 + width - 1 || s->get_row_string(i) != cell(i, atoi(c.categorical_feature(0).c_str() + 1))) r.Fail("row " + std::to_string(i) + " has wrong values on the right");
      if (ds.num_cols() != f.size() + 2) r.Fail(std::to_string(ds.num_cols()) + " columns");
      r.State("wide" + std::to_string(width));
      // A row that has a cell less.
      gbdt::TSVDataStore bad({Write(dir, 2, first + line(2, width - 1))}, c);
      if (bad.status().ok()) r.Fail("a row that is one cell short is accepted");
      Config absent = c;
      absent.add_float_feature("n" + std::to_string(width));
      gbdt::TSVDataStore none({Write(dir, 3, first)}, absent);
      if (none.status().ok()) r.Fail("a column that is not in the header is accepted");
    }
  if (r.Next([] { return string("no blocks, absent blocks"); })) {
    Config c;
    Check(r, {}, c, false, {}, {});
    Check(r, {dir + "/none"}, c, false, {}, {});
    c.add_float_feature("a");
    string f = Write(dir, 0, "a\tb\tc\n1\t2\t3\n");
    Check(r, {f, dir + "/none"}, c, false, {}, {});
    Check(r, {dir + "/none", f}, c, false, {}, {});
    Check(r, {Write(dir, 1, "")}, c, false, {}, {});
  }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
