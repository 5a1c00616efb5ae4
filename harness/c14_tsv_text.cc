// C14: every small TSV text, against a reference reader.
#include <fcntl.h>
#include <fstream>
#include <unistd.h>

#include "common.h"
#include "src/data_store/tsv_block.h"

using namespace ref;
using std::string;
using std::vector;

namespace {

string g_path;

void Write(const string& text) {
  int fd = open(g_path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  size_t at = 0;
  while (at < text.size()) { ssize_t n = write(fd, text.data() + at, text.size() - at); if (n <= 0) abort(); at += n; }
  close(fd);
}

string Quote(const string& s) {
  string o;
  for (unsigned char c : s) { if (o.size() > 300) { o += "..."; break; } if (c == '\t') o += "\\t"; else if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; }
  return "'" + o + "'";
}

// What a cell means as a float: 0 error, 1 value, 2 missing.
int Meaning(const string& s, float* v) {
  for (const char* m : {"NAN", "nan", "NaN", "?", "_", "-", "*"}) if (s == m) return 2;
  // [sign] digits [. digits] [e [sign] digits], or inf.
  size_t i = 0;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
  if (s.substr(i) == "inf") { *v = s[0] == '-' ? -INFINITY : INFINITY; return 1; }
  int digits = 0;
  while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++digits; }
  if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++digits; } }
  if (!digits) return 0;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
    if (i >= s.size() || !isdigit((unsigned char)s[i])) return 0;
    while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
  }
  if (i != s.size()) return 0;
  *v = strtof(s.c_str(), nullptr);
  return 1;
}

struct Ref { bool ok = true; vector<vector<float>> f; vector<vector<string>> s; };

Ref Read(const string& text, const vector<int>& fi, const vector<int>& si, bool header) {
  Ref o;
  o.f.resize(fi.size());
  o.s.resize(si.size());
  size_t at = 0;
  bool first = true;
  while (at < text.size()) {
    size_t e = text.find('\n', at);
    string line = text.substr(at, e == string::npos ? string::npos : e - at);
    at = e == string::npos ? text.size() : e + 1;
    if (!line.empty() && line.back() == '\r') line.pop_back();
    bool skip = first && header;
    first = false;
    if (skip || line.empty()) continue;
    vector<string> cells(1);
    for (char c : line) { if (c == '\t') cells.emplace_back(); else cells.back() += c; }
    for (size_t k = 0; k < si.size(); ++k) {
      if (si[k] >= (int)cells.size()) { o.ok = false; return o; }
      o.s[k].push_back(cells[si[k]]);
    }
    for (size_t k = 0; k < fi.size(); ++k) {
      float v;
      int m = fi[k] >= (int)cells.size() ? 0 : Meaning(cells[fi[k]], &v);
      if (!m) { o.ok = false; return o; }
      o.f[k].push_back(m == 2 ? NAN : v);
    }
  }
  return o;
}

void Check(mc::Runner& r, const string& text, const vector<int>& fi, const vector<int>& si, bool header) {
  gbdt::TSVBlock b(g_path, fi, si, header);
  r.Step();
  Ref want = Read(text, fi, si, header);
  auto what = [&] { return Quote(text) + " floats " + ShowV(fi) + "strings " + ShowV(si) + (header ? "after the header: " : ": "); };
  if (b.status().ok() != want.ok) r.Fail(what() + (want.ok ? "rejected: " + b.status().ToString() : "accepted"));
  if (!want.ok) { r.Count("rejected"); return; }
  if (b.float_columns().size() != fi.size() || b.string_columns().size() != si.size()) r.Fail(what() + "wrong number of columns");
  uint64_t h = header;
  for (size_t k = 0; k < fi.size(); ++k) {
    const auto &x = b.float_columns()[k], &y = want.f[k];
    bool same = x.size() == y.size();
    for (size_t i = 0; same && i < x.size(); ++i) { same = x[i] == y[i] || (std::isnan(x[i]) && std::isnan(y[i])); h = mc::Mix(h, std::isnan(x[i]) ? 7 : (uint64_t)(int64_t)std::max(-1e6f, std::min(1e6f, x[i] * 8))); }
    if (!same) r.Fail(what() + "float column " + std::to_string(k) + " is wrong (" + std::to_string(x.size()) + " rows, expected " + std::to_string(y.size()) + ")");
  }
  for (size_t k = 0; k < si.size(); ++k) {
    if (b.string_columns()[k] != want.s[k]) r.Fail(what() + "string column " + std::to_string(k) + " is wrong (" + std::to_string(b.string_columns()[k].size()) + " rows, expected " + std::to_string(want.s[k].size()) + ")");
    for (auto& x : want.s[k]) h = mc::Mix(h, mc::Hash(x));
  }
  r.State(h);
}

void All(mc::Runner& r, const string& text) {
  Write(text);
  for (int h = 0; h < 2; ++h) {
    Check(r, text, {0}, {}, h);
    Check(r, text, {}, {0}, h);
    Check(r, text, {1}, {0, 1}, h);
    Check(r, text, {0, 1, 0}, {2}, h);
    Check(r, text, {}, {1, 1}, h);
    Check(r, text, {}, {}, h);
  }
}

void Body(mc::Runner& r) {
  Init();
  g_path = r.TempDir() + "/t";
  // 1. Every sequence of tokens.
  const vector<string> tok = {"\n", "\t", "1", "x", "nan", "\r\n", "-", ".5", " "};
  for (int len = 0; len <= (r.thorough ? 7 : 6); ++len) {
    int symbols = len <= 4 ? 9 : len == 5 ? 9 : len == 6 ? (r.thorough ? 8 : 6) : 6;
    Sequences(symbols, len, [&](const vector<int>& v) {
      if (r.Done()) return;
      string text;
      for (int i : v) text += tok[i];
      // A number with a leading space is a number to C; whether it is one in a TSV is left open.
      for (size_t i = 0; i + 1 < v.size(); ++i) if (v[i] == 8 && (v[i + 1] == 2 || v[i + 1] == 4 || v[i + 1] == 7 || v[i + 1] == 6 || v[i + 1] == 8)) return;
      if (text.find("-nan") != string::npos) return;  // left open, too
      if (!r.Next([=] { return Quote(text); })) return;
      All(r, text);
    });
  }
  // 2. Every cell text, in a float and in a string column, in every position of a 3x3 table.
  vector<string> cells = {"0", "1", "-2.5", "+3", "1e5", "1E-5", "1e+3", "1e39", "-1e39", "1e-50", "1e-40", "16777217", "0.1", "3.4028235e38", "5.", ".5", "-.5e1", "007", "inf", "-inf",
                          "NAN", "nan", "NaN", "?", "_", "-", "*", "", "x", "1x", "x1", "1 ", "1,5", "1e", "1e+", "--1", "+-1", ".", "-.", "e5", "na", "n", "??", "__", "**", "-?", "_1", "1_000",
                          "__missing__", "NULL", "null", "None", "1.2.3", "1-2", "\xc3\xa9", "\"1\"", "#", "#1", "a b", "1\x01", "\x7f", string("1\0", 2), string("\0", 1), "1\xff", "12345678901234567890", "0.30000001192092896",
                          "1.00000005960464477539", "1.00000005960464477540", "9007199254740993", "1e0000000000001", "1\v", "x\f",
                          "NA", "N/A", "n/a", "<NA>", "NIL", "nil", "missing", "--", "---", "nan?", "?nan", "+", "~", "/", ".nan", "true", "True", "FALSE", "t", "Infinite", "1;2", "'1'", "$1", "1%", "1f", "1L", "1e5f", "0b1", "1e1.5", "1..5", "%", "!", "@", "none", "NONE", "Null", "undefined", "-1-", "- 1",
                          "\xef\xbb\xbf", "\xef\xbb\xbf" "1", "\xef\xbb\xbf" "a", "\xfe\xff", "\xff\xfe" "1", "\x1a", "\xc2\xa0" "1", "1\xc2\xa0",
                          "0.333333333333333333333333333333333333", "123456789012345678901234567890123", "0000000000000000000000000000000000000012.5", "1.50000000000000000000000000000000000000000000000000000000000000000", "1e00000000000000000000000000000000000003",
                          string(100, '9'), "0." + string(70, '0') + "1", "-" + string(40, '0') + "1." + string(300, '5'), string(40, '1') + "x", string(200, '?'), "1" + string(100, ' ') + "x", string(1000, '1') + "e-999"};
  for (auto& c : cells)
    for (int pos = 0; pos < 9; ++pos) {
      if (!r.Next([=] { return "cell " + Quote(c) + " at " + std::to_string(pos); })) continue;
      for (int style = 0; style < 4; ++style) {
        string text;
        for (int i = 0; i < 9; ++i) {
          text += i == pos ? c : std::to_string(i) + ".5";
          text += i % 3 < 2 ? "\t" : i == 8 && (style & 1) ? "" : style & 2 ? "\r\n" : "\n";
        }
        Write(text);
        Check(r, text, {0, 1, 2}, {}, false);
        Check(r, text, {2}, {0, 1, 2}, false);
        Check(r, text, {1}, {0}, true);
        Check(r, text, {}, {2, 0}, false);
      }
    }
  // Lines that other formats take for comments, ends or quotes are rows like all others.
  const char* lines[] = {"#", "# a comment", "//", "--", "%", ";", "\"", "'", "\\", "EOF", ".", "__missing__", "a\tb", "#\t1"};
  Sequences(14, 2, [&](const vector<int>& v) {
    if (r.Done()) return;
    if (!r.Next([=] { return "special lines " + ShowV(v); })) return;
    for (int style = 0; style < 4; ++style) {
      string text;
      for (int i : v) text += string(lines[i]) + (style & 1 ? "\r\n" : "\n");
      if (style & 2) text += "x\t1";
      Write(text);
      for (int h = 0; h < 2; ++h) { Check(r, text, {}, {0}, h); Check(r, text, {1}, {0}, h); Check(r, text, {}, {1}, h); }
    }
  });
  // 3. Lines around the sizes of the buffers.
  for (int base : {1, 512, 1024, 4096, 8191, 16383, 65536})
    for (int k = -3; k <= 3; ++k)
      for (int style = 0; style < 6; ++style) {
        if (base + k < 1) continue;
        if (!r.Next([=] { return "line of " + std::to_string(base + k) + " style " + std::to_string(style); })) continue;
        const char* eol = style % 2 ? "\r\n" : "\n";
        string text = string("2\ty") + eol + string("1\t") + string(base + k, style / 2 == 1 ? ' ' : 'z') + eol + "3\tw" + (style / 2 == 2 ? "" : eol);
        Write(text);
        Check(r, text, {0}, {1}, false);
        Check(r, text, {0}, {1, 0}, true);
        text = "";
        while ((int)text.size() < base + k) text += string("7\tab") + eol + (style / 2 == 2 ? eol : "");
        Write(text);
        Check(r, text, {0}, {1}, false);
      }
  // 4. Rows with any numbers of cells; many rows and columns.
  Sequences(5, 4, [&](const vector<int>& v) {
    if (r.Done()) return;
    if (!r.Next([=] { return "numbers of cells " + ShowV(v); })) return;
    for (int style = 0; style < 4; ++style) {
      string text;
      for (int i = 0; i < 4; ++i) {
        for (int k = 0; k < v[i]; ++k) text += (k ? "\t" : "") + std::to_string(i * 10 + k);
        if (i < 3 || !(style & 1)) text += style & 2 ? "\r\n" : "\n";
      }
      Write(text);
      for (int c = 0; c < 4; ++c) { Check(r, text, {c}, {}, false); Check(r, text, {}, {c}, true); Check(r, text, {0}, {c}, false); }
    }
  });
  for (int rows : {1000, 20000}) {
    if (!r.Next([=] { return std::to_string(rows) + " rows"; })) continue;
    string text;
    for (int i = 0; i < rows; ++i) { for (int k = 0; k < 12; ++k) text += (k ? "\t" : "") + std::to_string(i * 7 % 1000 + k * 0.25); text += i % 3 ? "\n" : "\r\n"; }
    Write(text);
    Check(r, text, {11, 0, 5}, {11, 3}, true);
  }
  for (int cols : {60, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 2000, 5000, 40000})
    for (int style = 0; style < 4; ++style) {
      if (!r.Next([=] { return std::to_string(cols) + " columns, style " + std::to_string(style); })) continue;
      string text;
      for (int i = 0; i < 3; ++i) {
        for (int k = 0; k < cols; ++k) text += (k ? "\t" : "") + (style / 2 && k % 3 ? "" : std::to_string(i * 1000 + k));
        text += style & 1 ? "\r\n" : "\n";
      }
      Write(text);
      for (int h = 0; h < 2; ++h) {
        Check(r, text, {0, (cols - 1) / 3 * 3}, {cols - 1, 0, cols / 2}, h);
        Check(r, text, {}, {cols - 1, cols - 2, cols - 3}, h);
        Check(r, text, {}, {cols}, h);
        vector<int> all;
        for (int k = 0; k < cols; ++k) all.push_back(cols - 1 - k);
        Check(r, text, {}, all, h);
        if (style < 2) Check(r, text, all, {}, h);
      }
    }
  if (r.Next([] { return string("absent file"); })) {
    gbdt::TSVBlock b(g_path + ".none", {0}, {}, false);
    r.Check(!b.status().ok(), "an absent file is accepted");
  }
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, Body); }
