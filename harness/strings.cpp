// C25 C26: name patterns and file sequences
#include <boost/utility.hpp>
#include "Field3DFile.h"
#include "FileSequence.h"
#include "PatternMatch.h"
#include "EmptyField.h"
#include "h.h"
#include <vector>
#include <string>
using std::string; typedef std::vector<string> SV;
#ifndef PLEN
#define PLEN 4
#endif
#ifndef NLEN
#define NLEN 1
#endif
#ifndef ALEN
#define ALEN 2
#endif
static bool g_exists = false;
#ifdef SYM_ENGINE
FIELD3D_NAMESPACE_OPEN
// stand-in for the file system: the specification itself names a file or not
bool fileExists(const std::string &) { return g_exists; }
FIELD3D_NAMESPACE_SOURCE_CLOSE
static void place(const string &) {}
#else
#include <unistd.h>
static void place(const string &s) { string d = sym_path(""); if (chdir(d.c_str())) sym_giveup("scratch"); if (g_exists) symfs_put(s.c_str(), "", 0); }
#endif
// any string of up to n characters out of an alphabet
static string str(int n, const char *alpha, const char *nm) {
  int na = (int)strlen(alpha), len = sym_pick(0, n, "len"); string s;
  for (int i = 0; i < len; i++) { char c = (char)sym_u8(nm); bool in = false; for (int k = 0; k < na; k++) in = in | (c == alpha[k]); sym_assume(in); s += c; }
  return s;
}
#ifdef SYM_ENGINE
// POSIX fnmatch without escapes, path or period rules; replayed runs use the C library's
#include <fnmatch.h>
extern "C" int fnmatch(const char *p, const char *s, int flags) {
  sym_assert(flags == FNM_NOESCAPE, "wildcards are matched without escapes or path rules");
  for (; *p; p++, s++) {
    if (*p == '*') { while (*p == '*') p++; if (!*p) return 0; for (;; s++) { if (fnmatch(p, s, flags) == 0) return 0; if (!*s) return FNM_NOMATCH; } }
    if (!*s) return FNM_NOMATCH;
    if (*p == '?') continue;
    if (*p != *s) return FNM_NOMATCH;
  }
  return *s ? FNM_NOMATCH : 0;
}
#endif
// reference matcher: dynamic programming, no shared code with the above
static bool wild(const string &p, const string &s) {
  bool cur[16], nxt[16]; size_t n = s.size();
  cur[0] = true; for (size_t j = 1; j <= n; j++) cur[j] = false;
  for (size_t i = 0; i < p.size(); i++) {
    char c = p[i]; bool star = c == '*';
    nxt[0] = cur[0] & star;
    for (size_t j = 1; j <= n; j++) nxt[j] = (star & (nxt[j - 1] | cur[j])) | (!star & cur[j - 1] & ((c == '?') | (c == s[j - 1])));
    for (size_t j = 0; j <= n; j++) cur[j] = nxt[j];
  }
  return cur[n];
}
// the rules: some wanted pattern matches and no excluded one does; no patterns at all match everything if so flagged
static bool rule(const string &name, const string &attr, bool haveName, const SV &pats, bool emptyOk) {
  if (pats.empty()) return emptyOk;
  bool yes = false, no = false;
  for (size_t i = 0; i < pats.size(); i++) {
    string p = pats[i]; if (p.empty()) continue;
    bool ex = p[0] == '-' || p[0] == '^'; if (ex) p = string(p, 1);
    size_t c = 0; while (c < p.size() && p[c] != ':') c++;
    bool hit;
    if (c < p.size()) hit = haveName ? wild(p, name + ":" + attr) : wild(string(p, c + 1), attr);
    else hit = wild(p, attr);
    if (hit) { if (ex) no = true; else yes = true; }
  }
  return yes && !no;
}
static SV words(const string &s) { SV r; string w; for (size_t i = 0; i <= s.size(); i++) { if (i == s.size() || s[i] == ' ') { if (!w.empty()) r.push_back(w); w.clear(); } else w += s[i]; } return r; }
#define PALPHA "ab*?-^: "
extern "C" void pat_list() {
  string pats = str(PLEN, PALPHA, "p"), name = str(NLEN, "ab", "n"), attr = str(ALEN, "ab-", "a");
  bool emptyOk = sym_pick(0, 1, "flag"); MatchFlags fl = emptyOk ? MatchEmptyPattern : MatchNoFlags;
  SV w = words(pats);
  SV sp = split(pats); bool sameSplit = sp.size() == w.size(); if (sameSplit) for (size_t i = 0; i < w.size(); i++) if (!(sp[i] == w[i])) sameSplit = false;
  sym_assert(sameSplit, "a pattern list is split at spaces");
  bool got = match(name, attr, pats, fl), want = rule(name, attr, true, w, emptyOk);
  sym_assert(got == want, "name:attribute matches as the rules say");
  sym_assert(match(name, attr, w, fl) == want, "vector form agrees");
  if (got) sym_reach("match"); else sym_reach("nomatch");
}
extern "C" void pat_attr() {
  string pats = str(PLEN, PALPHA, "p"), attr = str(ALEN, "ab-", "a");
  bool emptyOk = sym_pick(0, 1, "flag"); MatchFlags fl = emptyOk ? MatchEmptyPattern : MatchNoFlags;
  SV w = words(pats);
  bool got = match(attr, pats, fl), want = rule("", attr, false, w, emptyOk);
  sym_assert(got == want, "attribute matches as the rules say");
  sym_assert(match(attr, w, fl) == want, "vector form agrees");
  if (got) sym_reach("match"); else sym_reach("nomatch");
}
// fields are matched by their own name and attribute
extern "C" void pat_field() {
  EmptyField<float> f; f.name = str(1, "ab", "n"); f.attribute = str(1, "ab", "a");
  string pats = str(3, PALPHA, "p"); SV w = words(pats);
  bool want = rule(f.name, f.attribute, true, w, true);
  sym_assert(match(&f, pats) == want, "field matches by name and attribute");
  sym_assert(match(&f, w) == want, "vector form agrees");
  if (want) sym_reach("match"); else sym_reach("nomatch");
}
#ifndef SLEN
#define SLEN 6
#endif
static bool dig(char c) { return c >= '0' && c <= '9'; }
// reference: <non-empty name><digits>-<digits><# or @><rest>, exactly one mark
static bool parse(const string &s, string &pre, int &a, int &b, string &post) {
  size_t m = 0, n = s.size(), cnt = 0; for (size_t i = 0; i < n; i++) if (s[i] == '#' || s[i] == '@') { if (!cnt) m = i; cnt++; }
  if (cnt != 1) return false;
  size_t e = m; b = 0; while (e > 0 && dig(s[e - 1])) e--;
  if (e == m || e == 0 || s[e - 1] != '-') return false;
  for (size_t i = e; i < m; i++) b = b * 10 + (s[i] - '0');
  size_t d = e - 1, f = d; while (f > 0 && dig(s[f - 1])) f--;
  if (f == d || f == 0) return false;
  a = 0; for (size_t i = f; i < d; i++) a = a * 10 + (s[i] - '0');
  pre = string(s, 0, f); post = string(s, m + 1); return true;
}
static string dec(int v) { string r; do { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return r; }
static void checkSeq(const string &s) {
  sym_assume(!g_exists || !s.empty()); place(s);
  FileSequence q(s);
  string pre, post; int a = 0, b = 0;
  if (g_exists) { sym_assert(q.size() == 1, "a file of that name is a sequence of one"); if (q.size() == 1) sym_assert(q.filename(0) == s, "a plain name expands to itself"); sym_reach("plain"); return; }
  if (!parse(s, pre, a, b, post)) { sym_assert(q.size() == 0, "a malformed specification expands to nothing"); sym_reach("malformed"); return; }
  int n = a <= b ? b - a + 1 : 0;
  sym_assert((int)q.size() == n, "one name per frame from first to last");
  if ((int)q.size() == n) for (int i = 0; i < n; i++) sym_assert(q.filename(i) == pre + dec(a + i) + post, "frames in order between prefix and suffix");
  sym_reach("expanded");
}
// any text over the characters that matter
extern "C" void seq_any() { string s = str(SLEN, "a-#@7", "s"); g_exists = sym_pick(0, 1, "exists"); checkSeq(s); }
// well-formed specifications with longer numbers
extern "C" void seq_form() {
  string s = str(2, "a.-9", "pre"); int a = sym_pick(0, 12, "a"), b = sym_pick(0, 12, "b"), pad = sym_pick(0, 2, "pad");
  for (int i = 0; i < pad; i++) s += '0'; s += dec(a + 95); s += '-'; for (int i = 0; i < pad; i++) s += '0'; s += dec(b + 95); s += sym_pick(0, 1, "mark") ? '#' : '@'; s += str(1, ".-9", "post");
  g_exists = false; checkSeq(s);
}
