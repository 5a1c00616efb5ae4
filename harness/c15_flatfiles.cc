// C15: every small flat file, directory layout and sequence of requests, against a reference reader.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include "common.h"
#include "src/data_store/flatfiles_data_store.h"

using namespace ref;
using gbdt::FlatfilesDataStore;
using std::string;
using std::vector;

namespace {

string g_dir;

void Write(const string& path, const string& text) {
  int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd < 0) abort();
  size_t at = 0;
  while (at < text.size()) { ssize_t n = write(fd, text.data() + at, text.size() - at); if (n <= 0) abort(); at += n; }
  close(fd);
}

string Quote(const string& s) {
  string o;
  for (unsigned char c : s) { if (o.size() > 300) { o += "..."; break; } if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; }
  return "'" + o + "'";
}

bool Float(const string& s, float* v) {
  size_t i = 0;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
  if (s.substr(i) == "inf") { *v = s[0] == '-' ? -INFINITY : INFINITY; return true; }
  int digits = 0;
  while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++digits; }
  if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++digits; } }
  if (!digits) return false;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
    if (i >= s.size() || !isdigit((unsigned char)s[i])) return false;
    while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
  }
  if (i != s.size()) return false;
  *v = strtof(s.c_str(), nullptr);
  return true;
}

struct File { int type = -1; vector<string> lines; };  // type -1: not a flat file; 0 string, 1 bucketized, 2 raw

File Parse(const string& text) {
  File f;
  size_t at = 0;
  bool first = true;
  while (at < text.size()) {
    size_t e = text.find('\n', at);
    string line = text.substr(at, e == string::npos ? string::npos : e - at);
    at = e == string::npos ? text.size() : e + 1;
    if (!line.empty() && line.back() == '\r') line.pop_back();
    if (first) f.type = line == "# dtype=strings" ? 0 : line == "# dtype=bucketized_floats" ? 1 : line == "# dtype=raw_floats" ? 2 : -1;
    first = false;
    if (!line.empty() && line[0] == '#') continue;
    f.lines.push_back(line);
  }
  return f;
}

// col is what the store gives for the file f (already known to be expected).
string Compare(DataStore* ds, const string& name, const File& f) {
  const Column* c = ds->GetColumn(name);
  if (!c) return "'" + name + "' is absent";
  if (c->name() != name) return "'" + name + "' has the name '" + c->name() + "'";
  const auto* s = ds->GetStringColumn(name);
  const auto* b = ds->GetBucketizedFloatColumn(name);
  const auto* w = ds->GetRawFloatColumn(name);
  if ((s != nullptr) != (f.type == 0) || (b != nullptr) != (f.type == 1) || (w != nullptr) != (f.type == 2)) return "'" + name + "' has a wrong type";
  if (c->size() != f.lines.size()) return "'" + name + "' has " + std::to_string(c->size()) + " rows instead of " + std::to_string(f.lines.size());
  for (size_t i = 0; i < f.lines.size(); ++i) {
    float v = 0;
    bool num = Float(f.lines[i], &v);
    bool same = s ? s->get_row_string(i) == f.lines[i] : w ? (num ? (*w)[i] == v : std::isnan((*w)[i]))
                  : num ? !b->col().missing(i) && b->get_row_min(i) <= v && v <= b->get_row_max(i) : b->col().missing(i);
    if (!same) return "'" + name + "' row " + std::to_string(i) + " is not " + Quote(f.lines[i]);
  }
  return "";
}

void One(mc::Runner& r, const string& text) {
  Write(g_dir + "/c", text);
  FlatfilesDataStore ds(g_dir);
  File f = Parse(text);
  r.Step();
  if (f.type < 0) {
    r.Check(!ds.GetColumn("c"), Quote(text) + ": accepted");
    r.Check(ds.num_cols() == 0, Quote(text) + ": counted though rejected");
    r.Count("rejected");
    return;
  }
  string e = Compare(&ds, "c", f);
  r.Check(e.empty(), Quote(text) + ": " + e);
  uint64_t h = f.type;
  for (auto& l : f.lines) h = mc::Mix(h, mc::Hash(l));
  r.State(h);
}

const char* kHeaders[] = {"# dtype=strings", "# dtype=bucketized_floats", "# dtype=raw_floats"};

void Body(mc::Runner& r) {
  Init();
  g_dir = r.TempDir();
  // 1. Every sequence of tokens after each header and line end.
  const vector<string> tok = {"\n", "1", "x", "#", "\r\n", "nan", " ", "-2.5", "\t"};
  for (int len = 0; len <= (r.thorough ? 7 : 6); ++len) {
    int symbols = len <= 4 ? 9 : len == 5 ? 7 : len == 6 ? (r.thorough ? 7 : 5) : 5;
    Sequences(symbols, len, [&](const vector<int>& v) {
      if (r.Done()) return;
      string rest;
      for (int i : v) rest += tok[i];
      // Left open: numbers after white space.
      for (size_t i = 0; i + 1 < v.size(); ++i) if (v[i] == 6 || v[i] == 8) if (v[i + 1] == 1 || v[i + 1] >= 5) return;
      if (!r.Next([=] { return Quote(rest); })) return;
      for (int t = 0; t < 3; ++t) {
        One(r, string(kHeaders[t]) + ((v.size() + t) % 2 ? "\n" : "\r\n") + rest);
        if (len == 0) One(r, kHeaders[t]);
      }
    });
  }
  // 2. Headers: exactly the three declared types.
  vector<string> headers = {"", "#", "# dtype", "# dtype=", "# dtype=string", "# dtype=stringss", "# dtype=floats", "# dtype=raw_float", "# dtype=bucketized_float", "#dtype=strings", "# dtype = strings", " # dtype=strings",
                            "# DTYPE=strings", "# dtype=STRINGS", "dtype=strings", "# dtype=raw_floats,strings", "1", "x", "# comment"};
  for (auto& h : headers)
    for (auto& eol : {"\n", "\r\n", ""})
      for (auto& rest : {"", "1\n2\n", "# dtype=strings\nx\n", "\n"}) {
        string text = string(h) + eol + rest;
        if (!*eol && *rest) continue;
        if (!r.Next([=] { return "header " + Quote(text); })) continue;
        One(r, text);
      }
  for (auto& h : kHeaders)
    for (size_t i = 0; i < strlen(h); ++i) {
      if (!r.Next([=] { return string("header ") + h + " without character " + std::to_string(i); })) continue;
      string t = h;
      t.erase(i, 1);
      One(r, t + "\n1\n2\n");
      t = h;
      t[i] = t[i] == 'x' ? 'y' : 'x';
      One(r, t + "\n1\n2\n");
      t = h;
      t.insert(i, "_");
      One(r, t + "\n1\n2\n");
    }
  // 3. Every line text, as a string and as floats, in each of three rows.
  vector<string> lines = {"0", "-2.5", "+3", "1e5", "1E-5", "1e39", "1e-50", "0.1", "inf", "-inf", "", "x", "1x", "1,5", "1e", "--1", ".", "-", "?", "_", "1_0", "#", "#1", "1#", " #", "a b", "a\tb", "__missing__", "\xc3\xa9", string("\0", 1),
                          string("1\0", 2), "\xff", "1 ", "12345678901234567890", "\"q\"", "1.2.3",
                          "\xef\xbb\xbf", "\xef\xbb\xbf" "1", "\x1a", "0.333333333333333333333333333333333333", "0000000000000000000000000000000000000012.5", "1e00000000000000000000000000000000000003", string(100, '9'),
                          "0." + string(70, '0') + "1", "-" + string(40, '0') + "1." + string(300, '5'), string(40, '1') + "x", "nan", "NaN", "NAN", "*", "-1e39", "1e-40", "16777217", "5.", ".5", "-.5e1"};
  for (auto& l : lines)
    for (int pos = 0; pos < 3; ++pos)
      for (int style = 0; style < 4; ++style) {
        if (!r.Next([=] { return "line " + Quote(l) + " at " + std::to_string(pos) + " style " + std::to_string(style); })) continue;
        const char* eol = style & 2 ? "\r\n" : "\n";
        for (auto& h : kHeaders) {
          string t = string(h) + eol;
          for (int i = 0; i < 3; ++i) t += (i == pos ? l : std::to_string(i)) + (i == 2 && (style & 1) ? "" : eol);
          One(r, t);
        }
      }
  // 4. Line lengths around the sizes of the buffers; many lines.
  for (int base : {1, 512, 4096, 8191, 16383, 65536})
    for (int k = -3; k <= 3; ++k)
      for (int style = 0; style < 4; ++style) {
        if (base + k < 1) continue;
        if (!r.Next([=] { return "file of " + std::to_string(base + k) + " style " + std::to_string(style); })) continue;
        const char* eol = style & 2 ? "\r\n" : "\n";
        string tail = string(eol) + "5" + eol + eol + "6" + (style & 1 ? eol : "");
        for (auto& h : kHeaders) {
          One(r, string(h) + eol + string(base + k, 'z') + tail);
          One(r, string(h) + eol + "#" + string(base + k, 'z') + tail);
          string t = string(h) + eol;
          while ((int)t.size() < base + k) t += string("7") + eol;
          One(r, t);
          t.resize(std::max<int>(base + k, strlen(h) + 3));
          if (t.back() != '\r') One(r, t);
        }
      }
  for (int n : {65535, 65537, 200000})
    for (auto& h : kHeaders) {
      if (!r.Next([=] { return std::to_string(n) + " lines after " + h; })) continue;
      string t = string(h) + "\n";
      for (int i = 0; i < n; ++i) t += i % 9999 == 9998 ? "#\n" : i % 7 == 6 ? "x\n" : std::to_string(i % 1000) + "\n";
      t += "nan\n\n1\n";
      One(r, t);
    }
  // Long paths.
  for (int n : {100, 200, 250})
    for (int depth : {1, 3}) {
      if (!r.Next([=] { return std::to_string(depth) + " directories with names of " + std::to_string(n); })) continue;
      string d = g_dir;
      for (int k = 0; k < depth; ++k) { d += "/" + string(n, 'd'); mkdir(d.c_str(), 0700); }
      string name(n, 'c'), other = "short";
      string text = "# dtype=strings\na\nb\n", text2 = "# dtype=raw_floats\n1\n2\n";
      Write(d + "/" + name, text);
      Write(d + "/" + other, text2);
      FlatfilesDataStore ds({g_dir + "/none", d, g_dir});
      r.Step(2);
      string e = Compare(&ds, name, Parse(text));
      r.Check(e.empty(), e);
      e = Compare(&ds, other, Parse(text2));
      r.Check(e.empty(), e);
    }
  // 5. Two directories: each may have the file (good, of another type or length, or bad) or not.
  const vector<string> contents = {"", "# dtype=strings\na\nb\n", "# dtype=raw_floats\n1\n2\n", "# dtype=bucketized_floats\n3\n", "junk\n", "# dtype=strings\n"};
  Sequences(6, 4, [&](const vector<int>& v) {
    if (r.Done()) return;
    if (!r.Next([=] { return "directories " + ShowV(v); })) return;
    // Columns a and b in two directories; index 0: absent.
    string dirs[2] = {g_dir + "/d0", g_dir + "/d1"};
    for (auto& d : dirs) mkdir(d.c_str(), 0700);
    for (int k = 0; k < 4; ++k) {
      string p = dirs[k / 2] + "/" + "ab"[k % 2];
      unlink(p.c_str());
      if (v[k]) Write(p, contents[v[k]]);
    }
    for (int order = 0; order < 2; ++order)
      for (int first = 0; first < 3; ++first) {
        FlatfilesDataStore ds(order ? vector<string>{dirs[1], dirs[0]} : vector<string>{dirs[0], dirs[1]});
        // Requests: two columns and one that never exists, in every order, repeated.
        std::map<string, File> loaded;
        const char* names[3] = {"a", "b", "none"};
        for (int q = 0; q < 6; ++q) {
          int k = (first + (q < 3 ? q : 2 * q)) % 3;
          string name = names[k];
          int which = k == 2 ? 0 : v[(order ? 2 : 0) + k] ? v[(order ? 2 : 0) + k] : v[(order ? 0 : 2) + k];
          File f;
          if (which) f = Parse(contents[which]);
          bool expect = which && f.type >= 0 && (loaded.empty() || loaded.begin()->second.lines.size() == f.lines.size() || loaded.count(name));
          r.Step();
          if (expect) {
            string e = Compare(&ds, name, f);
            r.Check(e.empty(), e);
            loaded[name] = f;
          } else {
            r.Check(!ds.GetColumn(name), "'" + name + "' is there");
          }
          // The others are as before.
          for (auto& p : loaded) { string e = Compare(&ds, p.first, p.second); r.Check(e.empty(), "after asking for '" + name + "': " + e); }
          r.Check(ds.num_cols() == loaded.size(), "num_cols is " + std::to_string(ds.num_cols()));
          r.Check(ds.num_rows() == (loaded.empty() ? 0 : loaded.begin()->second.lines.size()), "num_rows is " + std::to_string(ds.num_rows()));
        }
        string key = "dirs";
        for (auto& p : loaded) key += p.first + std::to_string(p.second.type) + "/" + std::to_string(p.second.lines.size());
        r.State(key + ShowV(v));
      }
  });
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
