// Concrete search and replay: runs operation scripts on the real library through one API table and compares every result and
// every visible state with an independent model of the documented behaviour (reference JSON grammar, value trees, memory owners).
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <limits.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include "api.h"
using namespace std;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=1:malloc_context_size=6:allocator_may_return_null=1:handle_abort=0:exitcode=99:quarantine_size_mb=16"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:abort_on_error=1:print_stacktrace=1"; }
#endif
#endif
typedef vector<const Api *> Apis;
static const Api *ALL[] = {&api_c, &api_cshort, &api_cpp, &api_cppshort, &api_member, &api_hpp, &api_hppnew};

// ------------------------------------------------------------------ reference grammar
static bool isdig(char c) { return c >= '0' && c <= '9'; }
static int hexd(char c) { if (isdig(c)) return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static long hex4(const string &s, size_t i) { if (i + 4 > s.size()) return -1; long v = 0; for (int k = 0; k < 4; k++) { int d = hexd(s[i + k]); if (d < 0) return -1; v = v * 16 + d; } return v; }
// one character of a string body at i; returns its length or 0
static size_t bodyChar(const string &s, size_t i) {
  unsigned char c = s[i];
  if (c < 0x20 || c == '"') return 0;
  if (c != '\\') return 1;
  if (i + 1 >= s.size()) return 0;
  char e = s[i + 1];
  if (strchr("\"\\bfnrt/", e) && e) return 2;
  if (e != 'u') return 0;
  long h = hex4(s, i + 2);
  if (h < 0) return 0;
  if (h >= 0xDC00 && h <= 0xDFFF) return 0;
  if (h >= 0xD800 && h <= 0xDBFF) {
    if (i + 12 > s.size() || s[i + 6] != '\\' || s[i + 7] != 'u') return 0;
    long l = hex4(s, i + 8);
    return l >= 0xDC00 && l <= 0xDFFF ? 12 : 0;
  }
  return 6;
}
static bool bodyOk(const string &s) { size_t i = 0; while (i < s.size()) { size_t n = bodyChar(s, i); if (!n) return false; i += n; } return true; }
static void utf8(string &o, unsigned long c) {
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
static string decode(const string &s) {
  string o; size_t i = 0;
  while (i < s.size()) {
    size_t n = bodyChar(s, i);
    if (n <= 1) { o += s[i]; i++; continue; }
    if (n == 2) { static const char *a = "\"\\bfnrt/", *b = "\"\\\b\f\n\r\t/"; o += b[strchr(a, s[i + 1]) - a]; }
    else if (n == 6) utf8(o, hex4(s, i + 2));
    else utf8(o, 0x10000 + ((hex4(s, i + 2) - 0xD800) << 10) + (hex4(s, i + 8) - 0xDC00));
    i += n;
  }
  return o;
}
static size_t numLen(const string &s, size_t i) {
  size_t j = i;
  auto at = [&](size_t k) { return k < s.size() ? s[k] : '\0'; };
  if (at(j) == '-') j++;
  if (at(j) == '0') j++;
  else if (isdig(at(j))) while (isdig(at(j))) j++;
  else return 0;
  if (at(j) == '.') { j++; if (!isdig(at(j))) return 0; while (isdig(at(j))) j++; }
  if (at(j) == 'e' || at(j) == 'E') { j++; if (at(j) == '+' || at(j) == '-') j++; if (!isdig(at(j))) return 0; while (isdig(at(j))) j++; }
  return j - i;
}
static bool numOk(const string &s) { return !s.empty() && numLen(s, 0) == s.size(); }

enum { T_BOOL = 1, T_ARR, T_OBJ, T_STR, T_NULL, T_NUM };
struct MN { int type = T_NULL; bool hasKey = false; string key, text; vector<MN *> ch; MN *father = 0; int nodeOwner = -1, textOwner = -1, keyOwner = -1; bool gone = false; };
static vector<MN *> pool;
static MN *mk() { MN *n = new MN; pool.push_back(n); return n; }
static void clearPool() { for (auto n : pool) delete n; pool.clear(); }
static bool isWs(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
// iterative reference parser; owner = where texts live
static bool refParse(const string &s, MN *root, int nodeOwner, int textOwner, bool build = true) {
  size_t i = 0, n = s.size();
  if (s.find('\0') != string::npos) return false;
  auto ws = [&]() { while (i < n && isWs(s[i])) i++; };
  vector<MN *> st; MN dummy; MN *cur = root;
  auto str = [&](string &out) -> bool { // i at the opening quote
    i++; size_t b = i;
    while (i < n && s[i] != '"') { size_t k = bodyChar(s, i); if (!k) return false; i += k; }
    if (i >= n) return false;
    out = s.substr(b, i - b); i++; return true; };
  for (;;) {
    // a value into cur
    ws(); if (i >= n) return false;
    char c = s[i]; bool open = false;
    cur->ch.clear(); cur->text.clear(); cur->textOwner = textOwner;
    if (c == '[' || c == '{') {
      cur->type = c == '[' ? T_ARR : T_OBJ; i++; ws();
      if (i < n && s[i] == (c == '[' ? ']' : '}')) { i++; }
      else { st.push_back(cur); open = true; }
    } else if (c == '"') { cur->type = T_STR; if (!str(cur->text)) return false; }
    else if (s.compare(i, 4, "null") == 0) { cur->type = T_NULL; cur->text = "null"; i += 4; cur->textOwner = -1; }
    else if (s.compare(i, 4, "true") == 0) { cur->type = T_BOOL; cur->text = "true"; i += 4; cur->textOwner = -1; }
    else if (s.compare(i, 5, "false") == 0) { cur->type = T_BOOL; cur->text = "false"; i += 5; cur->textOwner = -1; }
    else { size_t k = numLen(s, i); if (!k) return false; cur->type = T_NUM; cur->text = s.substr(i, k); i += k; }
    if (!open) {
      for (;;) {
        if (st.empty()) { ws(); return i == n; }
        ws(); if (i >= n) return false;
        MN *f = st.back();
        if (s[i] == ',') { i++; break; }
        if (s[i] == (f->type == T_ARR ? ']' : '}')) { i++; st.pop_back(); continue; }
        return false;
      }
    }
    MN *f = st.back();
    MN *x = mk(); x->nodeOwner = nodeOwner; x->father = f; f->ch.push_back(x);
    if (f->type == T_OBJ) {
      ws(); if (i >= n || s[i] != '"') return false;
      if (!str(x->key)) return false;
      x->hasKey = true; x->keyOwner = textOwner;
      ws(); if (i >= n || s[i] != ':') return false;
      i++;
    }
    cur = x;
  }
}
static void ser(const MN *n, string &o) {
  switch (n->type) {
  case T_ARR: { o += '['; bool f = true; for (auto c : n->ch) { if (!f) o += ','; f = false; ser(c, o); } o += ']'; break; }
  case T_OBJ: { o += '{'; bool f = true; for (auto c : n->ch) { if (!f) o += ','; f = false; o += '"'; o += c->key; o += "\":"; ser(c, o); } o += '}'; break; }
  case T_STR: o += '"'; o += n->text; o += '"'; break;
  default: o += n->text;
  }
}

// ------------------------------------------------------------------ scripts
enum OpC { NewAlloc, Release, NewValue, ParseFast, ParseLen, Parse, Stringify, GetStrFast, GetUnEscapeStr, GetStr, GetNumFast, GetNumStr, GetNum, GetDouble, GetInt, GetLong, GetLongLong, GetBool, IsNull, GetKey, GetUnEscapeKey, GetKeyFast, ObjGet, ObjGetLen, TypeOp, SizeOfOp, ArrayGet, Begin, Next, Copy, Move, SetNull, SetBool, SetNumStrFast, SetNumStrLenFast, SetNumStr, SetNumStrLen, SetNum, SetDouble, SetInt, SetLong, SetLongLong, SetStrFast, SetStrLenFast, SetStr, SetStrLen, SetStrEscape, SetStrLenEscape, SetKeyFast, SetKeyLenFast, SetKey, SetKeyLen, SetKeyEscape, SetKeyLenEscape, SetArray, SetObj, SetFast, Set, ObjAddFast, ObjAdd, ArrayAddFast, ArrayAdd, ArrayDel, ObjDel, Drop, FreeBufs, Walk, NOPS };
static const char *ON[] = {"NewAlloc", "Release", "NewValue", "ParseFast", "ParseLen", "Parse", "Stringify", "GetStrFast", "GetUnEscapeStr", "GetStr", "GetNumFast", "GetNumStr", "GetNum", "GetDouble", "GetInt", "GetLong", "GetLongLong", "GetBool", "IsNull", "GetKey", "GetUnEscapeKey", "GetKeyFast", "ObjGet", "ObjGetLen", "Type", "SizeOf", "ArrayGet", "Begin", "Next", "Copy", "Move", "SetNull", "SetBool", "SetNumStrFast", "SetNumStrLenFast", "SetNumStr", "SetNumStrLen", "SetNum", "SetDouble", "SetInt", "SetLong", "SetLongLong", "SetStrFast", "SetStrLenFast", "SetStr", "SetStrLen", "SetStrEscape", "SetStrLenEscape", "SetKeyFast", "SetKeyLenFast", "SetKey", "SetKeyLen", "SetKeyEscape", "SetKeyLenEscape", "SetArray", "SetObj", "SetFast", "Set", "ObjAddFast", "ObjAdd", "ArrayAddFast", "ArrayAdd", "ArrayDel", "ObjDel", "Drop", "FreeBufs", "Walk"};
struct Op { int c = 0, r = 0, h = 0, h2 = 0; long long n = 0; string s; };
typedef vector<Op> Script;
static string enc(const string &s) { string o = "'"; char b[8]; for (unsigned char c : s) { if (c > 32 && c < 127 && c != '%' && c != '\'') o += c; else { snprintf(b, 8, "%%%02x", c); o += b; } } return o; }
static string dec(const string &s) { string o; for (size_t i = 1; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size() + 0) { o += (char)(hexd(s[i + 1]) * 16 + hexd(s[i + 2])); i += 2; } else o += s[i]; return o; }
static string show(const Script &sc) { string o; for (auto &p : sc) { o += ON[p.c]; o += " " + to_string(p.r) + " " + to_string(p.h) + " " + to_string(p.h2) + " " + to_string(p.n) + " " + enc(p.s) + "\n"; } return o; }
static bool parseScript(const string &t, Script &sc) {
  size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i); if (e == string::npos) e = t.size();
    string l = t.substr(i, e - i); i = e + 1;
    if (l.empty() || l[0] == '#') continue;
    vector<string> w; size_t a = 0; while (a < l.size()) { size_t b = l.find(' ', a); if (b == string::npos) b = l.size(); w.push_back(l.substr(a, b - a)); a = b + 1; }
    if (w.size() < 6) continue;
    Op p; p.c = -1; for (int k = 0; k < NOPS; k++) if (w[0] == ON[k]) p.c = k;
    if (p.c < 0) return false;
    p.r = atoi(w[1].c_str()); p.h = atoi(w[2].c_str()); p.h2 = atoi(w[3].c_str()); p.n = atoll(w[4].c_str()); p.s = dec(w[5]);
    sc.push_back(p);
  }
  return true;
}

// ------------------------------------------------------------------ memory accounting
struct Blk { size_t n; int owner; };
static map<char *, Blk> blks; static int curOwner = -1; static string memErr; static bool inRelease = false; static int tempLive = 0;
extern "C" void *v_malloc(size_t n) { char *p = (char *)malloc(n ? n : 1); if (!p) { fprintf(stderr, "out of memory for %zu\n", n); _exit(77); } memset(p, 0xCB, n); blks[p] = Blk{n, curOwner}; return p; }
extern "C" void v_free(void *q) {
  if (!q) return;
  auto it = blks.find((char *)q);
  if (it == blks.end()) { memErr = "free of a pointer that is not a live block"; return; }
  if (inRelease && it->second.owner != curOwner) memErr = "release gave back memory obtained for another allocator";
  blks.erase(it); memset(q, 0xDD, 1); free(q);
}
extern "C" void *v_calloc(size_t a, size_t b) { void *p = v_malloc(a * b); memset(p, 0, a * b); return p; }
extern "C" void *v_realloc(void *p, size_t n) { char *q = (char *)v_malloc(n); if (p) { auto it = blks.find((char *)p); memcpy(q, p, min(n, it->second.n)); v_free(p); } return q; }
// -1: not in a block
static int ownerOf(const char *p, size_t n) { auto it = blks.upper_bound((char *)p); if (it == blks.begin()) return -1; --it; if (p >= it->first && p + n <= it->first + it->second.n) return it->second.owner; return -1; }

struct FailEx { string kind, what; };
[[noreturn]] static void fail(const string &kind, const string &what) { throw FailEx{kind, what}; }

struct H { void *v = 0; MN *n = 0; int al = -1; bool live = false; };
struct Stable { const char *p; string e; int al; string what; };
struct Buf { char *p; size_t n; int id; };
static const int BUF0 = 100000;
static string q(const string &s) { string e = enc(s); return e.size() > 160 ? e.substr(0, 160) + "...(" + to_string(s.size()) + " bytes)" : e; }

struct World {
  const Api *A; map<int, void *> al; map<int, H> reg; vector<Stable> stab; vector<Buf> bufs; int nbuf = 0; bool deep = true; long ops = 0;
  World(const Api *a) : A(a) {}
  ~World() { for (auto &b : bufs) free(b.p); }
  H *get(int r) { auto it = reg.find(r); if (it == reg.end() || !it->second.live || !it->second.v) return 0; if (it->second.n && it->second.n->gone) return 0; return &it->second; }
  char *buf(const string &s, bool nul, int &id) { Buf b; b.n = s.size() + (nul ? 1 : 0); b.p = (char *)malloc(b.n ? b.n : 1); memcpy(b.p, s.data(), s.size()); if (nul) b.p[s.size()] = 0; b.id = id = BUF0 + nbuf++; bufs.push_back(b); return b.n ? b.p : b.p + 1 - 1; }
  void dropBuf(int id) { for (size_t i = 0; i < bufs.size(); i++) if (bufs[i].id == id) { memset(bufs[i].p, 'Z', bufs[i].n); free(bufs[i].p); bufs.erase(bufs.begin() + i); return; } }
  void markGone(MN *n) { n->gone = true; for (auto c : n->ch) markGone(c); }
  void replaceContent(MN *n) { for (auto c : n->ch) markGone(c); n->ch.clear(); n->text.clear(); n->textOwner = -1; }
  void detach(MN *n) { if (n->father) { auto &c = n->father->ch; c.erase(find(c.begin(), c.end(), n)); n->father = 0; } }
  bool isAnc(MN *a, MN *b) { for (; b; b = b->father) if (a == b) return true; return false; }
  MN *clone(MN *n, int owner) { MN *m = mk(); m->type = n->type; m->hasKey = n->hasKey; m->key = n->key; m->text = n->text; m->nodeOwner = owner; m->textOwner = (n->type == T_STR || n->type == T_NUM) ? owner : -1; m->keyOwner = n->hasKey ? owner : -1; for (auto c : n->ch) { MN *d = clone(c, owner); d->father = m; m->ch.push_back(d); } return m; }
  void deps(MN *n, set<int> &d) { d.insert(n->nodeOwner); d.insert(n->textOwner); d.insert(n->keyOwner); for (auto c : n->ch) deps(c, d); }
  MN *rootOf(MN *n) { while (n->father) n = n->father; return n; }
  H &put(int r, void *v, MN *n, int a) { H h; h.v = v; h.n = n; h.al = a; h.live = v != 0; reg[r] = h; return reg[r]; }
  void owned(const char *p, size_t n, int a, const char *what) { if (ownerOf(p, n) != a) fail("owner", string(what) + " does not lie in memory of the value's allocator"); }
  void keep(const char *p, size_t n, int a, const char *what) { stab.push_back({p, string(p, n), a, what}); }

  // ---- comparison of the real state with the model
  void cmpTop(void *v, MN *n, const char *who) {
    int t = A->Type(v);
    if (!n) { if (t) fail("state", string(who) + ": empty value has a type"); string z = A->Stringify(v); if (!z.empty()) fail("state", string(who) + ": empty value prints " + q(z)); return; }
    if (t != n->type) fail("state", string(who) + ": type " + to_string(t) + ", expected " + to_string(n->type));
    unsigned l = 777; const char *k = A->GetKeyFast(v, &l);
    if (!n->hasKey) { if (k) fail("state", string(who) + ": has key " + q(string(k, l)) + ", expected none"); }
    else if (!k) fail("state", string(who) + ": key missing, expected " + q(n->key));
    else if (string(k, l) != n->key) fail("state", string(who) + ": key " + q(string(k, l)) + ", expected " + q(n->key));
    else if (n->keyOwner >= 0 && n->keyOwner < BUF0 && l && ownerOf(k, l) != n->keyOwner) fail("owner", string(who) + ": key text lies outside its allocator");
    if (n->type == T_ARR || n->type == T_OBJ) { if (A->SizeOf(v) != n->ch.size()) fail("shape", string(who) + ": size " + to_string(A->SizeOf(v)) + ", expected " + to_string(n->ch.size())); }
    else {
      const char *p = 0; l = 777;
      if (n->type == T_STR) p = A->GetStrFast(v, &l); else if (n->type == T_NUM) p = A->GetNumFast(v, &l);
      if (n->type == T_STR || n->type == T_NUM) { if (!p) fail("state", string(who) + ": no text"); if (string(p, l) != n->text) fail("state", string(who) + ": text " + q(string(p, l)) + ", expected " + q(n->text)); if (n->textOwner >= 0 && n->textOwner < BUF0 && l && ownerOf(p, l) != n->textOwner) fail("owner", string(who) + ": text lies outside its allocator"); }
      if (n->type == T_BOOL && A->GetBool(v) != (n->text == "true")) fail("state", string(who) + ": boolean " + to_string(A->GetBool(v)));
      if (n->type == T_NULL && !A->IsNull(v)) fail("state", string(who) + ": not null");
    }
  }
  void cmpTree(void *v, MN *n, const char *who) {
    cmpTop(v, n, who); if (!n) return;
    if (n->type != T_ARR && n->type != T_OBJ) return;
    void *c = A->Begin(v); size_t i = 0;
    for (; c; c = A->Next(c), i++) { if (i >= n->ch.size()) fail("shape", string(who) + ": iteration yields more than " + to_string(n->ch.size()) + " children"); cmpTree(c, n->ch[i], who); }
    if (i != n->ch.size()) fail("shape", string(who) + ": iteration yields " + to_string(i) + " children, expected " + to_string(n->ch.size()));
  }
  void verify(int target, bool all) {
    for (auto &kv : reg) {
      H *h = get(kv.first); if (!h) continue;
      if (!all && kv.first != target) continue;
      curOwner = h->al; string who = kv.first == target ? "value" : "another value";
      cmpTree(h->v, h->n, who.c_str());
      string e; if (h->n) ser(h->n, e); const char *z = A->Stringify(h->v);
      if (!z || e != z) fail("print", who + " prints " + q(z ? z : "(null)") + ", expected " + q(e));
    }
    for (auto &s : stab) if (al.count(s.al) && memcmp(s.p, s.e.data(), s.e.size()) != 0) fail("stable", "result of " + s.what + " changed from " + q(s.e) + " to " + q(string(s.p, s.e.size())));
    if (!memErr.empty()) { string m = memErr; memErr.clear(); fail("mem", m); }
  }
  MN *fresh(H *h) { if (!h->n) { h->n = mk(); h->n->nodeOwner = h->al; } return h->n; }
  void setText(H *h, int type, const string &t, int owner) { MN *n = fresh(h); replaceContent(n); n->type = type; n->text = t; n->textOwner = owner; }
  bool inPlace() { string n = A->name; return n != "c" && n != "cpp"; } // the in-place variants of the other spellings do the same as the C ones
  void expectRet(long got, long want, const string &what) { if (got != want) fail("ret", what + " returned " + to_string(got) + ", expected " + to_string(want)); }
  void retVal(const Op &p, void *got, MN *want, H *h, const char *what) {
    if (!want) { if (got) fail("ret", string(what) + " returned a value, expected null"); put(p.r, 0, 0, h->al); return; }
    if (!got) fail("ret", string(what) + " returned null, expected a value");
    put(p.r, got, want, h->al);
    cmpTop(got, want, what);
  }

  // returns false when the operation does not apply (precondition not met): it is skipped
  bool exec(const Op &p) {
    ops++;
    H *h = 0, *g = 0; memErr.clear();
    if (p.c == NewAlloc) { if (al.count(p.r)) return false; curOwner = p.r; al[p.r] = A->NewAllocator(); return true; }
    if (p.c == NewValue) { if (!al.count(p.h)) return false; curOwner = p.h; void *v = A->NewValue(al[p.h]); owned((char *)v, 8, p.h, "new value"); put(p.r, v, 0, p.h); return true; }
    if (p.c == Release) {
      if (!al.count(p.h)) return false;
      for (auto &kv : reg) { H *x = get(kv.first); if (x && x->al != p.h && x->n) { set<int> d; deps(rootOf(x->n), d); if (d.count(p.h)) return false; } }
      curOwner = p.h; inRelease = true; A->ReleaseAllocator(al[p.h]); inRelease = false; al.erase(p.h); { vector<Stable> t; for (auto &x : stab) if (x.al != p.h) t.push_back(x); stab.swap(t); }
      for (auto &kv : reg) if (kv.second.al == p.h) kv.second.live = false;
      for (auto &b : blks) if (b.second.owner == p.h) fail("leak", "release did not give back a block of " + to_string(b.second.n) + " bytes");
      return true;
    }
    if (p.c == Drop) { if (!get(p.h)) return false; reg[p.h].live = false; return true; }
    if (p.c == FreeBufs) {
      set<int> d; for (auto &kv : reg) { H *x = get(kv.first); if (x && x->n) deps(rootOf(x->n), d); }
      vector<int> ids; for (auto &b : bufs) if (!d.count(b.id)) ids.push_back(b.id);
      for (int id : ids) dropBuf(id);
      return !ids.empty();
    }
    h = get(p.h); if (!h) return false;
    curOwner = h->al; MN *n = h->n; int bid = -1;
    size_t before = blks.size(); (void)before;
    switch (p.c) {
    case ParseFast: case Parse: case ParseLen: {
      bool nul = p.s.find('\0') != string::npos;
      if (nul && p.c != ParseLen) return false;
      char *b = buf(p.s, p.c != ParseLen, bid);
      MN *tmp = mk(); int ow = p.c == ParseFast ? bid : h->al; tmp->nodeOwner = h->al;
      bool want = refParse(p.s, tmp, h->al, ow);
      string copyB(b, p.s.size());
      int got = p.c == ParseFast ? A->ParseFast(h->v, b) : p.c == Parse ? A->Parse(h->v, b) : A->ParseLen(h->v, b, p.s.size());
      if (string(b, p.s.size()) != copyB) fail("textwrite", "parsing modified its input");
      if (p.c != ParseFast) dropBuf(bid);
      expectRet(got, want, string(ON[p.c]) + "(" + q(p.s) + ")");
      if (want) { MN *m = fresh(h); replaceContent(m); m->type = tmp->type; m->text = tmp->text; m->textOwner = tmp->textOwner; m->ch = tmp->ch; for (auto c : m->ch) c->father = m; }
      break;
    }
    case Stringify: { string e; if (n) ser(n, e); const char *z = A->Stringify(h->v); if (!z || e != z) fail("ret", "Stringify returned " + q(z ? z : "(null)") + ", expected " + q(e)); if (n) { owned(z, e.size() + 1, h->al, "Stringify result"); keep(z, e.size() + 1, h->al, "Stringify"); } break; }
    case GetStrFast: case GetNumFast: case GetKeyFast: {
      unsigned l = 4711; const char *z = p.c == GetStrFast ? A->GetStrFast(h->v, &l) : p.c == GetNumFast ? A->GetNumFast(h->v, &l) : A->GetKeyFast(h->v, &l);
      bool has = n && (p.c == GetStrFast ? n->type == T_STR : p.c == GetNumFast ? n->type == T_NUM : n->hasKey);
      if (!has) { if (z) fail("ret", string(ON[p.c]) + " returned a text, expected null"); break; }
      const string &w = p.c == GetKeyFast ? n->key : n->text;
      if (!z || string(z, l) != w) fail("ret", string(ON[p.c]) + " returned " + q(z ? string(z, l) : "(null)") + ", expected " + q(w));
      break; }
    case GetStr: case GetUnEscapeStr: case GetNumStr: case GetKey: case GetUnEscapeKey: {
      const char *z = p.c == GetStr ? A->GetStr(h->v) : p.c == GetUnEscapeStr ? A->GetUnEscapeStr(h->v) : p.c == GetNumStr ? A->GetNumStr(h->v) : p.c == GetKey ? A->GetKey(h->v) : A->GetUnEscapeKey(h->v);
      bool key = p.c == GetKey || p.c == GetUnEscapeKey;
      bool has = n && (key ? n->hasKey : p.c == GetNumStr ? n->type == T_NUM : n->type == T_STR);
      if (!has) { if (z) fail("ret", string(ON[p.c]) + " returned a text, expected null"); break; }
      string w = key ? n->key : n->text; if (p.c == GetUnEscapeStr || p.c == GetUnEscapeKey) w = decode(w);
      if (!z) fail("ret", string(ON[p.c]) + " returned null");
      if (memcmp(z, w.c_str(), w.size() + 1)) fail("ret", string(ON[p.c]) + " of " + q(key ? n->key : n->text) + " returned " + q(string(z, w.size() + 1)) + ", expected " + q(string(w.c_str(), w.size() + 1)));
      owned(z, w.size() + 1, h->al, ON[p.c]); keep(z, w.size() + 1, h->al, ON[p.c]);
      break; }
    case GetNum: case GetDouble: { const double *d = p.c == GetNum ? A->GetNum(h->v) : A->GetDouble(h->v); bool has = n && n->type == T_NUM; if (!has) { if (d) fail("ret", string(ON[p.c]) + " returned a number, expected null"); break; } if (!d) fail("ret", string(ON[p.c]) + " returned null"); double w = strtod(n->text.c_str(), 0), x; memcpy(&x, d, 8); if (memcmp(&x, &w, 8)) { char bb[99]; snprintf(bb, 99, "%.17g, expected %.17g", x, w); fail("ret", string(ON[p.c]) + " of " + q(n->text) + " returned " + bb); } owned((const char *)d, 8, h->al, ON[p.c]); keep((const char *)d, 8, h->al, ON[p.c]); break; }
    case GetInt: case GetLong: case GetLongLong: {
      bool has = n && n->type == T_NUM; const char *d; long long x = 0; size_t sz = p.c == GetInt ? 4 : 8;
      if (has) { errno = 0; long long w = strtoll(n->text.c_str(), 0, 10); if (errno || (p.c == GetInt && (w < INT_MIN || w > INT_MAX))) return false; }
      if (p.c == GetInt) { d = (const char *)A->GetInt(h->v); if (d) { int y; memcpy(&y, d, 4); x = y; } } else if (p.c == GetLong) { d = (const char *)A->GetLong(h->v); if (d) { long y; memcpy(&y, d, 8); x = y; } } else { d = (const char *)A->GetLongLong(h->v); if (d) memcpy(&x, d, 8); }
      if (!has) { if (d) fail("ret", string(ON[p.c]) + " returned a number, expected null"); break; }
      if (!d) fail("ret", string(ON[p.c]) + " returned null");
      long long w = strtoll(n->text.c_str(), 0, 10); if (x != w) fail("ret", string(ON[p.c]) + " of " + q(n->text) + " returned " + to_string(x) + ", expected " + to_string(w));
      owned(d, sz, h->al, ON[p.c]); keep(d, sz, h->al, ON[p.c]); break; }
    case GetBool: { int w = n && n->type == T_BOOL ? n->text == "true" : -1; int x = A->GetBool(h->v); expectRet(x, w, "GetBool"); break; }
    case IsNull: expectRet(A->IsNull(h->v) != 0, n && n->type == T_NULL, "IsNull"); break;
    case TypeOp: expectRet(A->Type(h->v), n ? n->type : 0, "Type"); break;
    case SizeOfOp: expectRet(A->SizeOf(h->v), n && (n->type == T_ARR || n->type == T_OBJ) ? n->ch.size() : 0, "SizeOf"); break;
    case ObjGet: case ObjGetLen: {
      if (p.c == ObjGet && p.s.find('\0') != string::npos) return false;
      MN *w = 0; if (n && n->type == T_OBJ) for (auto c : n->ch) if (c->key == p.s) { w = c; break; }
      char *b = buf(p.s, p.c == ObjGet, bid);
      void *x = p.c == ObjGet ? A->ObjGet(h->v, b) : A->ObjGetLen(h->v, b, p.s.size());
      dropBuf(bid); retVal(p, x, w, h, (string(ON[p.c]) + "(" + q(p.s) + ")").c_str()); break; }
    case ArrayGet: { MN *w = n && n->type == T_ARR && (unsigned long long)p.n < n->ch.size() ? n->ch[p.n] : 0; retVal(p, A->ArrayGet(h->v, (unsigned)p.n), w, h, ("ArrayGet(" + to_string(p.n) + ")").c_str()); break; }
    case Begin: retVal(p, A->Begin(h->v), n && !n->ch.empty() ? n->ch[0] : 0, h, "Begin"); break;
    case Next: { MN *w = 0; if (n && n->father) { auto &c = n->father->ch; size_t i = find(c.begin(), c.end(), n) - c.begin(); if (i + 1 < c.size()) w = c[i + 1]; } retVal(p, A->Next(h->v), w, h, "Next"); break; }
    case Copy: { MN *w = n ? clone(n, h->al) : 0; void *x = A->Copy(h->v); retVal(p, x, w, h, "Copy"); if (x) cmpTree(x, w, "the copy"); break; }
    case Move: expectRet(A->Move(h->v) != 0, n != 0, "Move"); if (n) detach(n); break;
    case SetNull: A->SetNull(h->v); setText(h, T_NULL, "null", -1); break;
    case SetBool: A->SetBool(h->v, (int)p.n); setText(h, T_BOOL, p.n ? "true" : "false", -1); break;
    case SetArray: A->SetArray(h->v); setText(h, T_ARR, "", -1); break;
    case SetObj: A->SetObj(h->v); setText(h, T_OBJ, "", -1); break;
    case SetNumStrFast: case SetNumStrLenFast: case SetNumStr: case SetNumStrLen: case SetStrFast: case SetStrLenFast: case SetStr: case SetStrLen: {
      bool len = p.c == SetNumStrLenFast || p.c == SetNumStrLen || p.c == SetStrLenFast || p.c == SetStrLen, num = p.c <= SetNumStrLen;
      bool fast = p.c == SetNumStrFast || p.c == SetNumStrLenFast || p.c == SetStrFast || p.c == SetStrLenFast;
      if (!len && p.s.find('\0') != string::npos) return false;
      bool want = num ? numOk(p.s) : bodyOk(p.s);
      char *b = buf(p.s, !len, bid); int got = 0; unsigned l = p.s.size();
      switch (p.c) { case SetNumStrFast: got = A->SetNumStrFast(h->v, b); break; case SetNumStrLenFast: got = A->SetNumStrLenFast(h->v, b, l); break; case SetNumStr: got = A->SetNumStr(h->v, b); break; case SetNumStrLen: got = A->SetNumStrLen(h->v, b, l); break;
        case SetStrFast: got = A->SetStrFast(h->v, b); break; case SetStrLenFast: got = A->SetStrLenFast(h->v, b, l); break; case SetStr: got = A->SetStr(h->v, b); break; case SetStrLen: got = A->SetStrLen(h->v, b, l); break; }
      if (!fast) dropBuf(bid);
      expectRet(got, want, string(ON[p.c]) + "(" + q(p.s) + ")");
      if (want) { setText(h, num ? T_NUM : T_STR, p.s, fast ? bid : h->al); }
      if (want && fast && p.s.size() && inPlace()) { unsigned l2 = 0; const char *g = num ? A->GetNumFast(h->v, &l2) : A->GetStrFast(h->v, &l2); if (g != b) fail("ret", string(ON[p.c]) + "(" + q(p.s) + ") does not keep the text in place"); }
      break; }
    case SetKeyFast: case SetKeyLenFast: case SetKey: case SetKeyLen: {
      bool len = p.c == SetKeyLenFast || p.c == SetKeyLen, fast = p.c == SetKeyFast || p.c == SetKeyLenFast;
      if (!len && p.s.find('\0') != string::npos) return false;
      bool want = bodyOk(p.s) && !(n && n->father && n->father->type == T_ARR);
      char *b = buf(p.s, !len, bid); unsigned l = p.s.size();
      int got = p.c == SetKeyFast ? A->SetKeyFast(h->v, b) : p.c == SetKeyLenFast ? A->SetKeyLenFast(h->v, b, l) : p.c == SetKey ? A->SetKey(h->v, b) : A->SetKeyLen(h->v, b, l);
      if (!fast) dropBuf(bid);
      expectRet(got, want, string(ON[p.c]) + "(" + q(p.s) + ")");
      if (want) { bool was = n != 0; MN *m = fresh(h); if (!was) { m->type = T_NULL; m->text = "null"; } m->hasKey = true; m->key = p.s; m->keyOwner = fast ? bid : h->al; }
      if (want && fast && p.s.size() && inPlace()) { unsigned l2 = 0; if (A->GetKeyFast(h->v, &l2) != b) fail("ret", string(ON[p.c]) + "(" + q(p.s) + ") does not keep the text in place"); }
      break; }
    case SetStrEscape: case SetStrLenEscape: case SetKeyEscape: case SetKeyLenEscape: {
      bool len = p.c == SetStrLenEscape || p.c == SetKeyLenEscape, key = p.c == SetKeyEscape || p.c == SetKeyLenEscape;
      if (!len && p.s.find('\0') != string::npos) return false;
      bool want = !key || !(n && n->father && n->father->type == T_ARR);
      char *b = buf(p.s, !len, bid); unsigned l = p.s.size();
      int got = p.c == SetStrEscape ? A->SetStrEscape(h->v, b) : p.c == SetStrLenEscape ? A->SetStrLenEscape(h->v, b, l) : p.c == SetKeyEscape ? A->SetKeyEscape(h->v, b) : A->SetKeyLenEscape(h->v, b, l);
      dropBuf(bid); expectRet(got, want, string(ON[p.c]) + "(" + q(p.s) + ")");
      if (!want) break;
      unsigned rl = 0; const char *z = key ? A->GetKeyFast(h->v, &rl) : A->GetStrFast(h->v, &rl);
      if (!z) fail("ret", string(ON[p.c]) + ": nothing stored");
      string raw(z, rl); owned(z, rl, h->al, ON[p.c]);
      if (!bodyOk(raw)) fail("ret", string(ON[p.c]) + "(" + q(p.s) + ") stored the invalid text " + q(raw));
      if (decode(raw) != p.s) fail("ret", string(ON[p.c]) + "(" + q(p.s) + ") stored " + q(raw) + ", which decodes to " + q(decode(raw)));
      const char *u = key ? A->GetUnEscapeKey(h->v) : A->GetUnEscapeStr(h->v);
      if (!u || memcmp(u, p.s.c_str(), p.s.size() + 1)) fail("ret", string(ON[p.c]) + "(" + q(p.s) + ") reads back as " + q(u ? string(u, p.s.size() + 1) : "(null)"));
      if (key) { bool was = n != 0; MN *m = fresh(h); if (!was) { m->type = T_NULL; m->text = "null"; } m->hasKey = true; m->key = raw; m->keyOwner = h->al; }
      else setText(h, T_STR, raw, h->al);
      break; }
    case SetNum: case SetDouble: {
      double d; memcpy(&d, &p.n, 8); bool want = isfinite(d); int got = p.c == SetNum ? A->SetNum(h->v, d) : A->SetDouble(h->v, d); char bb[64]; snprintf(bb, 64, "(%.17g)", d);
      expectRet(got, want, string(ON[p.c]) + bb); if (!want) break;
      unsigned l; const char *z = A->GetNumFast(h->v, &l); if (!z) fail("ret", string(ON[p.c]) + bb + ": nothing stored"); string raw(z, l); owned(z, l, h->al, ON[p.c]);
      if (!numOk(raw)) fail("ret", string(ON[p.c]) + bb + " stored the invalid number " + q(raw));
      double e = strtod(raw.c_str(), 0); if (memcmp(&e, &d, 8)) fail("ret", string(ON[p.c]) + bb + " stored " + q(raw));
      setText(h, T_NUM, raw, h->al);
      const double *x = p.c == SetNum ? A->GetNum(h->v) : A->GetDouble(h->v); if (!x || memcmp(x, &d, 8)) fail("ret", string(ON[p.c]) + bb + " does not read back");
      break; }
    case SetInt: case SetLong: case SetLongLong: {
      long long w = p.c == SetInt ? (int)p.n : p.n; int got = p.c == SetInt ? A->SetInt(h->v, (int)p.n) : p.c == SetLong ? A->SetLong(h->v, (long)p.n) : A->SetLongLong(h->v, p.n);
      string nm = string(ON[p.c]) + "(" + to_string(w) + ")"; expectRet(got, 1, nm);
      unsigned l; const char *z = A->GetNumFast(h->v, &l); if (!z) fail("ret", nm + ": nothing stored"); string raw(z, l); owned(z, l, h->al, ON[p.c]);
      if (raw != to_string(w)) { if (!numOk(raw) || strtoll(raw.c_str(), 0, 10) != w || raw.find_first_of(".eE") != string::npos) fail("ret", nm + " stored " + q(raw)); }
      setText(h, T_NUM, raw, h->al); break; }
    case SetFast: {
      g = get(p.h2); if (!g || g == h) return false; MN *m = g->n; if (m && n && (isAnc(m, n))) return false;
      expectRet(A->SetFast(h->v, g->v) != 0, m != 0, "SetFast"); if (!m) break;
      detach(m); if (!n) { h->n = m; } else { replaceContent(n); n->type = m->type; n->text = m->text; n->textOwner = m->textOwner; n->ch = m->ch; for (auto c : n->ch) c->father = n; m->ch.clear(); m->gone = true; } g->n = 0;
      if (m->gone) for (auto &kv : reg) if (kv.second.n == m) kv.second.live = false;
      break; }
    case Set: {
      g = get(p.h2); if (!g) return false; MN *m = g->n; expectRet(A->Set(h->v, g->v) != 0, m != 0, "Set"); if (!m) break;
      MN *c = clone(m, h->al); if (!n) h->n = c; else { replaceContent(n); n->type = c->type; n->text = c->text; n->textOwner = c->textOwner; n->ch = c->ch; for (auto x : n->ch) x->father = n; } break; }
    case ObjAddFast: case ArrayAddFast: {
      g = get(p.h2); if (!g || g == h) return false; MN *m = g->n; bool arr = p.c == ArrayAddFast; if (m && n && isAnc(m, n)) return false;
      bool want = n && m && n->type == (arr ? T_ARR : T_OBJ) && (arr || m->hasKey); int got = arr ? A->ArrayAddFast(h->v, g->v) : A->ObjAddFast(h->v, g->v);
      expectRet(got != 0, want, ON[p.c]); if (!want) break;
      detach(m); if (arr) { m->hasKey = false; m->key.clear(); m->keyOwner = -1; } m->father = n; n->ch.push_back(m); g->n = 0; break; }
    case ObjAdd: case ArrayAdd: {
      g = get(p.h2); if (!g) return false; MN *m = g->n; bool arr = p.c == ArrayAdd;
      bool want = n && m && n->type == (arr ? T_ARR : T_OBJ) && (arr || m->hasKey); int got = arr ? A->ArrayAdd(h->v, g->v) : A->ObjAdd(h->v, g->v);
      expectRet(got != 0, want, ON[p.c]); if (!want) break;
      MN *c = clone(m, h->al); if (arr) { c->hasKey = false; c->key.clear(); c->keyOwner = -1; } c->father = n; n->ch.push_back(c); break; }
    case ArrayDel: { bool want = n && n->type == T_ARR && (unsigned long long)p.n < n->ch.size(); expectRet(A->ArrayDel(h->v, (unsigned)p.n) != 0, want, "ArrayDel(" + to_string(p.n) + ")"); if (want) detach(n->ch[p.n]); break; }
    case ObjDel: { if (p.s.find('\0') != string::npos) return false; MN *w = 0; if (n && n->type == T_OBJ) for (auto c : n->ch) if (c->key == p.s) { w = c; break; }
      char *b = buf(p.s, true, bid); int got = A->ObjDel(h->v, b); dropBuf(bid); expectRet(got != 0, w != 0, "ObjDel(" + q(p.s) + ")"); if (w) detach(w); break; }
    case Walk: { if (!n) return false; if (n->type == T_ARR) for (size_t i = 0; i <= n->ch.size() + 1; i++) { void *x = A->ArrayGet(h->v, i); MN *w = i < n->ch.size() ? n->ch[i] : 0; if (!x != !w) fail("ret", "ArrayGet(" + to_string(i) + ")"); if (w) cmpTop(x, w, "ArrayGet element"); }
      if (n->type == T_OBJ) for (auto c : n->ch) { MN *w = 0; for (auto d : n->ch) if (d->key == c->key) { w = d; break; } void *x = A->ObjGetLen(h->v, c->key.data(), c->key.size()); if (!x) fail("ret", "ObjGetLen(" + q(c->key) + ") returned null"); cmpTree(x, w, "ObjGetLen member"); void *y = A->ObjGet(h->v, c->key.c_str()); if (!y) fail("ret", "ObjGet(" + q(c->key) + ") returned null"); cmpTree(y, w, "ObjGet member"); } break; }
    default: return false;
    }
    return true;
  }
};

// ------------------------------------------------------------------ attribution
static const char *opProps(int c) {
  switch (c) {
  case NewAlloc: case Release: return "C13";
  case ParseFast: case ParseLen: case Parse: return "C01 C02 C03";
  case Stringify: return "C05";
  case GetStrFast: case GetStr: case GetNumFast: case GetNumStr: case GetKey: case GetKeyFast: case GetBool: case IsNull: case TypeOp: case SizeOfOp: return "C14";
  case GetUnEscapeStr: case GetUnEscapeKey: return "C11";
  case GetNum: case GetDouble: case GetInt: case GetLong: case GetLongLong: case SetNum: case SetDouble: case SetInt: case SetLong: case SetLongLong: return "C12";
  case ObjGet: case ObjGetLen: case ArrayGet: case Begin: case Next: case Walk: return "C15";
  case Copy: return "C08";
  case Move: case ArrayDel: case ObjDel: case ArrayAddFast: case ObjAddFast: return "C07";
  case ObjAdd: case ArrayAdd: return "C07 C08";
  case Set: return "C08 C16";
  case SetFast: case SetNull: case SetBool: case SetArray: case SetObj: return "C16";
  case SetStrEscape: case SetStrLenEscape: case SetKeyEscape: case SetKeyLenEscape: return "C10";
  default: if (c >= SetNumStrFast && c <= SetKeyLenEscape) return "C09"; return "";
  }
}
static bool isMut(int c) { return (c >= Move && c <= ObjDel) || (c >= ParseFast && c <= Parse); }
static void addProps(set<string> &o, const char *s) { string t = s; size_t i = 0; while (i < t.size()) { o.insert(t.substr(i, 3)); i += 4; } }
static set<string> attribute(const Script &sc, const string &kind, const string &what, const string &api) {
  set<string> o; if (sc.empty()) return o;
  const Op &last = sc.back(); int c = last.c; bool parse = c == ParseFast || c == ParseLen || c == Parse;
  if (api != "c" && api != "cpp") { o.insert("C17"); return o; }
  bool mutb = false;
  for (auto &p : sc) if (isMut(p.c) && p.c != ParseFast && p.c != ParseLen && p.c != Parse) mutb = true;
  bool refused = false; if (parse) { MN t; vector<MN *> sv = pool; size_t n0 = pool.size(); refused = !refParse(last.s, &t, 0, 0); while (pool.size() > n0) { delete pool.back(); pool.pop_back(); } }
  if (kind == "ret") {
    if (parse) o.insert("C01"); else addProps(o, opProps(c));
    if (c == SizeOfOp || c == Walk || (c >= ArrayGet && c <= Next)) o.insert("C06");
    if (c == GetUnEscapeStr || c == GetUnEscapeKey) for (auto &p : sc) if (p.c >= SetStrEscape && p.c <= SetKeyLenEscape && p.c != SetKeyFast && p.c != SetKeyLenFast && p.c != SetKey && p.c != SetKeyLen) o.insert("C10");
    if (c >= SetNumStrFast && c <= SetKeyLenEscape) o.insert("C16");
  } else if (kind == "state" || kind == "shape" || kind == "print") {
    if (parse) { if (refused) o.insert("C03"); else { o.insert("C02"); if (what.find("another value") == 0) o.insert("C03"); if (mutb) o.insert("C16"); } }
    else addProps(o, opProps(c));
    if (c >= SetNumStrFast && c <= SetKeyLenEscape) o.insert("C16");
    if (kind == "shape" || isMut(c)) o.insert("C06");
    if (kind == "print") o.insert("C05");
    if (what.find("another value") == 0) o.insert("C18");
    // hidden damage done by an earlier operation
    for (size_t i = 0; i + 1 < sc.size(); i++) if (sc[i].c == Copy || (isMut(sc[i].c) && !(sc[i].c >= ParseFast && sc[i].c <= Parse))) { addProps(o, opProps(sc[i].c)); o.insert("C06"); }
  } else if (kind == "stable" || kind == "leak" || kind == "mem") {
    o.insert("C13"); o.insert("C18"); addProps(o, opProps(c));
    for (auto &p : sc) if (p.c >= GetStrFast && p.c <= GetKeyFast) addProps(o, opProps(p.c));
  } else if (kind == "owner") { o.insert("C18"); o.insert("C13"); addProps(o, opProps(c)); if (parse) o = {"C02", "C18", "C13"}; for (auto &p : sc) if (p.c == Copy || p.c == Set || p.c == ObjAdd || p.c == ArrayAdd) o.insert("C08");
  } else if (kind == "textwrite") { o.insert("C04");
  } else { // crash, hang, sanitizer report
    addProps(o, opProps(c)); o.insert("C13");
    if (parse || (c >= SetNumStrFast && c <= SetKeyLenEscape && !(c >= SetNum && c <= SetLongLong))) o.insert("C04");
    if (isMut(c)) o.insert("C06");
    set<int> als; for (auto &p : sc) { if (p.c == NewAlloc) als.insert(p.r); if (p.c == Release) o.insert("C18"); }
    if (als.size() > 1) o.insert("C18");
    for (auto &p : sc) if (p.c == Copy || (isMut(p.c) && !(p.c >= ParseFast && p.c <= Parse))) { addProps(o, opProps(p.c)); }
    if (c == SetFast || c == Set) o.insert("C16");
  }
  return o;
}

// ------------------------------------------------------------------ running scripts
static char *shm; static const size_t SHM = 32 << 20; // [0]: status, text of the script being run
static long long budgetEnd; static long execCount = 0, scriptCount = 0, distinct = 0;
static long long nowms() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec * 1000LL + t.tv_usec / 1000; }
static bool cheapVerify(const World &w) { return w.reg.size() > 0; }
static void runOps(const Api *A, const Script &sc, bool every) {
  World w(A); blks.clear(); memErr.clear(); inRelease = false;
  size_t i = 0;
  try {
    for (; i < sc.size(); i++) { *(int *)(shm + 16) = (int)i; if (w.exec(sc[i])) { if (every || i + 1 == sc.size()) w.verify(isMut(sc[i].c) || sc[i].c == NewValue ? (sc[i].c == NewValue ? sc[i].r : sc[i].h) : -1, true); } execCount++; }
    // final: release everything, in order
    while (!w.al.empty()) { Op r; r.c = Release; bool any = false; vector<int> ids; for (auto &kv : w.al) ids.push_back(kv.first);
      for (int id : ids) { for (auto &kv : w.reg) if (kv.second.al == id) kv.second.live = false; }
      for (int id : ids) { r.h = id; *(int *)(shm + 16) = (int)sc.size(); if (w.exec(r)) any = true; if (!memErr.empty()) { string m = memErr; memErr.clear(); fail("mem", m); } }
      if (!any) break; }
  } catch (FailEx &e) { clearPool(); for (auto &b : blks) (void)b; *(int *)(shm + 16) = (int)i; throw; }
  clearPool();
}
struct Outcome { bool bad = false; string kind, what; int at = 0; };
static int childTimeout = 10;
// run in a forked child
static Outcome runForked(const Api *A, const Script &sc) {
  Outcome o; fflush(stdout); fflush(stderr);
  shm[0] = 0; *(int *)(shm + 16) = 0; shm[64] = 0;
  int pfd[2]; if (pipe(pfd)) return o;
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]); dup2(pfd[1], 2); alarm(childTimeout);
    try { runOps(A, sc, true); } catch (FailEx &e) { string t = e.kind + "\x01" + e.what; if (t.size() > 60000) t.resize(60000); memcpy(shm + 64, t.c_str(), t.size() + 1); shm[0] = 1; _exit(3); }
    _exit(0);
  }
  close(pfd[1]); string err; char b[4096]; ssize_t k; while ((k = read(pfd[0], b, sizeof b)) > 0) if (err.size() < 20000) err.append(b, k); close(pfd[0]);
  int st; waitpid(pid, &st, 0);
  o.at = *(int *)(shm + 16);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return o; // out of memory in the harness: no verdict
  o.bad = true;
  if (shm[0] == 1) { string t = shm + 64; size_t x = t.find('\x01'); o.kind = t.substr(0, x); o.what = t.substr(x + 1); return o; }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { o.kind = "hang"; o.what = "operation does not end"; return o; }
  o.kind = "crash";
  size_t x = err.find("ERROR: AddressSanitizer"); if (x == string::npos) x = err.find("runtime error:"); 
  o.what = x == string::npos ? "process died" : err.substr(x, err.find('\n', x) - x);
  return o;
}
static bool sameClass(const Outcome &a, const Outcome &b) { return b.bad && (a.kind == b.kind || (a.kind != "hang" && b.kind != "hang")); }
static Script cut(const Script &sc, const Outcome &o) { Script r = sc; if ((size_t)o.at + 1 < r.size()) r.resize(o.at + 1); return r; }
static Script minimize(const Api *A, Script sc, Outcome &o, int maxms) {
  long long end = nowms() + maxms; childTimeout = o.kind == "hang" ? 2 : 10;
  { Script c = cut(sc, o); Outcome p = runForked(A, c); if (sameClass(o, p)) { sc = c; o = p; } }
  for (size_t chunk = max<size_t>(1, sc.size() / 2); chunk >= 1 && nowms() < end; chunk /= 2) {
    for (size_t i = 0; i < sc.size() && nowms() < end;) { Script c; for (size_t j = 0; j < sc.size(); j++) if (j < i || j >= i + chunk) c.push_back(sc[j]); if (c.empty()) { i++; continue; } Outcome p = runForked(A, c); if (sameClass(o, p)) { sc = cut(c, p); o = p; } else i += chunk; }
    if (chunk == 1) break;
  }
  // shorten texts
  for (size_t i = 0; i < sc.size() && nowms() < end; i++) for (size_t chunk = max<size_t>(1, sc[i].s.size() / 2); chunk >= 1 && nowms() < end; chunk /= 2) {
    for (size_t a = 0; a < sc[i].s.size() && nowms() < end;) { Script c = sc; c[i].s.erase(a, chunk); Outcome p = runForked(A, c); if (sameClass(o, p) && p.at == o.at) { sc = c; o = p; } else a += chunk; }
    if (chunk == 1) break; }
  childTimeout = 10;
  return sc;
}

// ------------------------------------------------------------------ generation
static uint64_t rs; static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static int R(int n) { return (int)(rnd() % (uint64_t)n); }
static string hex4s(unsigned c) { char b[8]; string o; snprintf(b, 8, "%04x", c & 0xffff); for (int i = 0; i < 4; i++) o += R(2) ? toupper(b[i]) : b[i]; return o; }
static string gBody(bool big = true) {
  string o; int n = R(4) == 0 ? R(12) : R(4);
  if (big && R(40) == 0) n = 40 + R(200);
  for (int i = 0; i < n; i++) switch (R(14)) {
    case 0: o += "\\"; o += "\"\\bfnrt/"[R(8)]; break;
    case 1: { static unsigned edge[] = {0, 1, 0x1f, 0x20, 0x22, 0x5c, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0xfffe}; unsigned c = R(2) ? edge[R(17)] : R(0xd800); o += "\\u" + hex4s(c); break; }
    case 2: o += "\\u" + hex4s(0xd800 + (R(3) ? R(1024) : R(2) * 1023)) + "\\u" + hex4s(0xdc00 + (R(3) ? R(1024) : R(2) * 1023)); break;
    case 3: o += (char)(0x80 + R(128)); break;
    case 4: o += (char)(R(3) ? 0x7f : 0x20); break;
    case 5: if (big && R(6) == 0) { o += string(R(300), 'a' + R(26)); break; } o += "/"; break;
    default: o += "abcdefuntr01[]{},:.-+eE "[R(24)];
    }
  if (big && R(150) == 0) { static int L[] = {127, 128, 129, 255, 256, 1000, 1023, 1024, 1025, 2047, 2048, 4090, 4095, 4096, 5000}; o += string(L[R(15)] + R(3), 'x'); }
  return o;
}
static string gNum() {
  string o; if (R(3) == 0) o += '-';
  if (R(3) == 0) o += '0'; else { o += '1' + R(9); int n = R(5) ? R(6) : R(2) ? R(24) : R(150); while (n--) o += '0' + R(10); }
  if (R(3) == 0) { o += '.'; int n = 1 + (R(8) ? R(5) : R(160)); while (n--) o += '0' + R(10); }
  if (R(4) == 0) { o += "eE"[R(2)]; int k = R(3); if (k) o += "+-"[k - 1]; int n = 1 + R(3); while (n--) o += '0' + R(10); }
  return o;
}
static string gWs() { string o; if (R(3)) return o; int n = 1 + R(2); while (n--) o += " \t\n\r"[R(4)]; return o; }
static const char *KEYS[] = {"a", "b", "ab", "", "abc", "A", "key", "k\\n", "\\u0041", "b ", "aa", "ba"};
static string gKey() { return R(5) ? KEYS[R(12)] : gBody(); }
static string gVal(int d) {
  int k = R(d > 0 ? 10 : 6);
  switch (k) {
  case 0: return "null"; case 1: return "true"; case 2: return "false"; case 3: return gNum(); case 4: case 5: return "\"" + gBody() + "\"";
  default: { bool arr = R(2); string o = arr ? "[" : "{"; int n = R(4); if (R(12) == 0) n = R(20); if (R(150) == 0) n = R(200); o += gWs();
      for (int i = 0; i < n; i++) { if (i) o += "," + gWs(); if (!arr) o += "\"" + gKey() + "\"" + gWs() + ":" + gWs(); o += gVal(d - 1) + gWs(); } return o + (arr ? "]" : "}"); } }
}
static string gText() { return gWs() + gVal(R(5)) + gWs(); }
static string mutate(string s) {
  int n = 1 + R(2);
  while (n--) { static const char al[] = "[]{}\",:0123456789-.eE+tfnulrasb\\/ \t\n\r\x01\x1f\x7f\x80\xff"; char c = al[R(sizeof al - 1)]; if (R(40) == 0) c = 0;
    size_t p = s.empty() ? 0 : R(s.size() + 1);
    switch (R(5)) { case 0: s.insert(p, 1, c); break; case 1: if (p < s.size()) s.erase(p, 1); break; case 2: if (p < s.size()) s[p] = c; break; case 3: s.resize(p); break; case 4: if (p + 1 < s.size()) swap(s[p], s[p + 1]); break; } }
  return s;
}
static vector<int> W(NOPS, 10);
static double gDouble() { switch (R(8)) { case 0: return R(1000) / 10.0; case 1: return R(2) ? INFINITY : -INFINITY; case 2: return NAN; case 3: return R(2) ? -0.0 : 5e-324; case 4: return 1.7976931348623157e308 * (R(2) ? 1 : -1); case 5: return (double)(int)R(1 << 30); default: { uint64_t b = rnd(); double d; memcpy(&d, &b, 8); return d; } } }
static Op genOp(World &w) {
  Op p; int tot = 0; for (int i = 0; i < NOPS; i++) tot += W[i];
  int x = R(tot); for (p.c = 0; x >= W[p.c]; p.c++) x -= W[p.c];
  vector<int> live; for (auto &kv : w.reg) if (w.get(kv.first)) live.push_back(kv.first);
  auto pick = [&]() { return live.empty() ? 0 : live[R(live.size())]; };
  auto pickT = [&](int t) { for (int i = 0; i < 4; i++) { int r = pick(); H *h = w.get(r); if (h && h->n && h->n->type == t) return r; } return pick(); };
  auto pickE = [&]() { for (int i = 0; i < 3; i++) { int r = pick(); H *h = w.get(r); if (h && !h->n) return r; } return pick(); };
  p.r = 10 + R(10); vector<int> als; for (auto &kv : w.al) als.push_back(kv.first);
  p.h = pick();
  switch (p.c) {
  case NewAlloc: p.r = R(3); break;
  case Release: p.h = als.empty() ? 0 : als[R(als.size())]; break;
  case NewValue: p.h = als.empty() ? 0 : als[R(als.size())]; break;
  case ParseFast: case ParseLen: case Parse: p.s = gText(); if (R(4) == 0) p.s = mutate(p.s); break;
  case ObjGet: case ObjGetLen: case ObjDel: { p.h = pickT(T_OBJ); p.s = gKey(); H *h = w.get(p.h); if (h && h->n && h->n->ch.size() && R(2)) { p.s = h->n->ch[R(h->n->ch.size())]->key; if (R(6) == 0 && p.s.size()) { if (R(2)) p.s.resize(p.s.size() - 1); else p.s += "a"; } } break; }
  case ArrayGet: case ArrayDel: { p.h = pickT(T_ARR); H *h = w.get(p.h); size_t n = h && h->n ? h->n->ch.size() : 0; p.n = R(n + 2); if (R(5) == 0 && n) p.n = n - 1; if (R(50) == 0) p.n = 0xffffffffLL; break; }
  case Begin: case Walk: case SizeOfOp: p.h = R(2) ? pickT(T_ARR) : pickT(T_OBJ); break;
  case Move: case Next: { p.h = pick(); for (int i = 0; i < 3; i++) { int r = pick(); H *h = w.get(r); if (h && h->n && h->n->father) p.h = r; } break; }
  case GetStrFast: case GetStr: case GetUnEscapeStr: p.h = pickT(T_STR); break;
  case GetNum: case GetDouble: case GetInt: case GetLong: case GetLongLong: case GetNumFast: case GetNumStr: p.h = pickT(T_NUM); break;
  case GetBool: p.h = pickT(T_BOOL); break;
  case GetKey: case GetKeyFast: case GetUnEscapeKey: for (int i = 0; i < 4; i++) { int r = pick(); H *h = w.get(r); if (h && h->n && h->n->hasKey) { p.h = r; break; } } break;
  case SetBool: p.n = R(2); break;
  case SetNumStrFast: case SetNumStrLenFast: case SetNumStr: case SetNumStrLen: p.s = gNum(); if (R(4) == 0) p.s = mutate(p.s); if (R(20) == 0) p.s = ""; break;
  case SetStrFast: case SetStrLenFast: case SetStr: case SetStrLen: p.s = gBody(); if (R(4) == 0) p.s = mutate(p.s); break;
  case SetKeyFast: case SetKeyLenFast: case SetKey: case SetKeyLen: p.s = gKey(); if (R(5) == 0) p.s = mutate(p.s); break;
  case SetStrEscape: case SetKeyEscape: case SetStrLenEscape: case SetKeyLenEscape: { int n = R(4) ? R(6) : R(40); if (R(60) == 0) n = R(3000); for (int i = 0; i < n; i++) p.s += (char)(R(3) ? R(256) : R(2) ? R(32) : "\"\\/\x7f"[R(4)]); if (p.c == SetStrEscape || p.c == SetKeyEscape) for (auto &c : p.s) if (!c) c = 1; break; }
  case SetNum: case SetDouble: { double d = gDouble(); memcpy(&p.n, &d, 8); break; }
  case SetInt: { static int e[] = {0, -1, 1, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 10, -10, 99999, 1000000000, -1000000000}; p.n = R(2) ? e[R(12)] : (int)rnd() >> R(31); break; }
  case SetLong: case SetLongLong: { static long long e[] = {0, -1, LLONG_MAX, LLONG_MIN, LLONG_MAX - 1, LLONG_MIN + 1, 4294967296LL, -4294967296LL, 2147483648LL, -2147483649LL, 1000000000000000000LL}; p.n = R(2) ? e[R(11)] : (long long)rnd() >> R(63); break; }
  case SetFast: case Set: p.h = R(3) ? pick() : pickE(); p.h2 = pick(); break;
  case ObjAddFast: case ObjAdd: { p.h = pickT(T_OBJ); p.h2 = pick(); for (int i = 0; i < 3; i++) { int r = pick(); H *h = w.get(r); if (h && h->n && h->n->hasKey) p.h2 = r; } break; }
  case ArrayAddFast: case ArrayAdd: p.h = pickT(T_ARR); p.h2 = pick(); break;
  }
  return p;
}
static set<size_t> seenHash;
static const size_t SLOT = 1900000; static int slotNo = 0;
// the script being run goes to shared memory; the previous ones stay in a ring (for failures that need history)
static void record(const Script &sc) { string t = show(sc); *(int *)(shm + 24) = slotNo; if (t.size() < SLOT - 1) memcpy(shm + 65536 + (slotNo % 16) * SLOT, t.c_str(), t.size() + 1); else shm[65536 + (slotNo % 16) * SLOT] = 0; }
static void nextSlot() { slotNo++; shm[65536 + (slotNo % 16) * SLOT] = 0; *(int *)(shm + 24) = slotNo; }
static string sampleText;
static bool runOne(const Api *A, const Script &sc) { // in the worker; throws FailEx
  nextSlot(); scriptCount++; record(sc); if (seenHash.size() < 2000000) seenHash.insert(hash<string>()(shm + 65536 + (slotNo % 16) * SLOT));
  runOps(A, sc, true);
  return true;
}
static Script base(bool two = false) { Script s; Op p; p.c = NewAlloc; p.r = 0; s.push_back(p); p.c = NewValue; p.r = 10; p.h = 0; s.push_back(p); if (two) { p.r = 11; s.push_back(p); } return s; }
static Op mkop(int c, int h, const string &s = "", long long n = 0, int r = 15, int h2 = 0) { Op p; p.c = c; p.h = h; p.s = s; p.n = n; p.r = r; p.h2 = h2; return p; }
static bool F(const set<string> &f, const char *a) { return f.empty() || f.count(a); }

static void enumerate(const string &al, int maxlen, const function<void(const string &)> &f) {
  for (int L = 0; L <= maxlen; L++) { vector<int> ix(L, 0); for (;;) { string s; for (int i : ix) s += al[i]; f(s); int k = L - 1; while (k >= 0 && ++ix[k] == (int)al.size()) ix[k--] = 0; if (k < 0) break; } }
}
static int famCount = 0, incomplete = 0;
static bool timeUp() { return nowms() > budgetEnd; }
struct TimeUp {};
// systematic part: all cases of a family; families chosen by focus
static void systematic(const Api *A, const set<string> &fo, bool thorough, long long fullMs) {
  auto go = [&](const Script &s) { if ((scriptCount & 63) == 0 && timeUp()) throw TimeUp(); runOne(A, s); };
  vector<pair<function<void()>, double>> fams; auto fam = [&](const function<void()> &f, double x) { fams.push_back({f, x}); };
  bool parse = F(fo, "C01") || F(fo, "C02") || F(fo, "C03") || F(fo, "C04");
  auto parseAll = [&](const string &s) { static int k = 0; int c = ParseFast + (k++ % 3); if (s.find('\0') != string::npos) c = ParseLen; Script q = base(); bool pre = fo.count("C03") || k % 5 == 0; if (pre) q.push_back(mkop(Parse, 10, k % 2 ? "{\"k\":[1,{\"z\":null}]}" : "[\"q\"]")); q.push_back(mkop(c, 10, s)); if (pre) { q.push_back(mkop(Begin, 10, "", 0, 16)); q.push_back(mkop(SetArray, 10)); } go(q); };
  if (parse) {
    fam([&] { for (int c = 0; c < 256; c++) { string x(1, (char)c); for (auto t : {x, "\"" + x + "\"", "\"\\" + x + "\"", "[1" + x + "2]", "[1]" + x, x + "[1]", "1" + x, "-" + x, "\"\\u00" + x + "0\"", "\"\\u0" + x + "00\"", "\"\\u" + x + "000\"", "\"\\u000" + x + "\"", "{\"a\"" + x + "1}", "{" + x + "\"a\":1}", "[" + x + "]", "tru" + x, "t" + x + "ue", "nul" + x, "fals" + x, "\"\\ud83d" + x + "ude00\"", "\"\\ud83d\\" + x + "de00\"", "1." + x, "1e" + x, "1e+" + x, "0" + x, "{\"a\":1" + x + "\"b\":2}", "{\"a\":1,\"b\":2" + x}) for (int c2 = ParseFast; c2 <= Parse; c2++) { if (t.find('\0') != string::npos && c2 != ParseLen) continue; Script q = base(); q.push_back(mkop(c2, 10, t)); go(q); } } }, 0.15);
    fam([&] { static unsigned e[] = {0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0xd900, 0xde00, 0xdbfe, 0xdc01}; char b[64]; for (unsigned a : e) { snprintf(b, 64, "\"\\u%04x\"", a); parseAll(b); for (unsigned c : e) { snprintf(b, 64, "\"\\u%04X\\u%04x\"", a, c); parseAll(b); snprintf(b, 64, "{\"\\u%04X\\u%04x\":1}", a, c); parseAll(b); } } }, 0.05);
    fam([&] { static const char *base[] = {"[1,2,[3,{\"a\":[]}],\"x\\u00e9\\ud834\\udd1e\",true,false,null,-0.5e+10]", " { \"k\" : { \"l\" : [ 1 , { } ] } , \"m\" : \"\" } ", "\"abc\"", "-12.5E-3", "[[[[[[]]]]]]", "{\"\":{\"\":{\"\":1}}}", "[{},[],{\"a\":{}},\"\",0]"}; for (auto b : base) { string s = b; parseAll(s); for (size_t i = 0; i <= s.size(); i++) { parseAll(s.substr(0, i)); string t = s; for (char c : string("[]{}\",:01-.eE+tfn\\u \n\x1f")) { string u = s; u.insert(i, 1, c); parseAll(u); if (i < s.size()) { u = s; u[i] = c; parseAll(u); } } if (i < s.size()) { t.erase(i, 1); parseAll(t); } string z = s; z.insert(i, 1, '\0'); parseAll(z); } } }, 0.2);
    fam([&] { for (int d = 1; d < 300; d += d < 40 ? 1 : 37) { string o(d, '['), c(d, ']'); parseAll(o + c); parseAll(o + "1" + c); parseAll(o + c + "]"); parseAll(o + c.substr(1)); string k; for (int i = 0; i < d; i++) k += "{\"a\":"; parseAll(k + "1" + string(d, '}')); parseAll(k + "1" + string(d, '}') + "}"); string m, e; for (int i = 0; i < d; i++) { m += i & 1 ? "[" : "{\"a\":"; e = (i & 1 ? "]" : "}") + e; } parseAll(m + "0" + e); if (d > 1) { string f = e; swap(f[0], f[1]); parseAll(m + "0" + f); } string n = "["; for (int i = 0; i < d; i++) n += (i ? ",": "") + to_string(i); parseAll(n + "]"); parseAll(n + ",]"); parseAll("\"" + string(d, 'x') + "\""); parseAll("{\"" + string(d, 'x') + "\":\"" + string(d, 'y') + "\"}"); parseAll(string(d, ' ') + "1" + string(d, '\n')); parseAll(string(d, '1')); parseAll("0." + string(d, '1')); parseAll("1e" + string(d, '1')); } }, 0.15);
    fam([&] { enumerate("[]{}\",:1 a", thorough ? 7 : 6, parseAll); }, 0.3);
    fam([&] { enumerate("-0129.eE+", thorough ? 7 : 6, parseAll); }, 0.15);
    fam([&] { enumerate("\"\\u0dD8cCbn", thorough ? 7 : 5, [&](const string &s) { parseAll("\"" + s); }); }, 0.1);
  }
    static int k1 = 0, k2 = 0, k3 = 0;
    auto str = [&](const string &s) { static int c[] = {SetStr, SetStrFast, SetStrLen, SetStrLenFast}; static int kk[] = {SetKey, SetKeyFast, SetKeyLen, SetKeyLenFast}; bool z = s.find('\0') != string::npos; Script q = base(); if (k1 % 3 == 0) q.push_back(mkop(SetBool, 10, "", 1)); q.push_back(mkop(c[z ? 2 + k1 % 2 : k1 % 4], 10, s)); k1++; go(q); q = base(); if (k2 % 3 == 0) q.push_back(mkop(SetKey, 10, "old")); q.push_back(mkop(kk[z ? 2 + k2 % 2 : k2 % 4], 10, s)); k2++; go(q); };
    auto num = [&](const string &s) { bool z = s.find('\0') != string::npos; Script q = base(); if (k3 % 3 == 0) q.push_back(mkop(SetStr, 10, "old")); static int c[] = {SetNumStr, SetNumStrFast, SetNumStrLen, SetNumStrLenFast}; q.push_back(mkop(c[z ? 2 + k3 % 2 : k3 % 4], 10, s)); k3++; go(q); };
  if (F(fo, "C09") || F(fo, "C04") || F(fo, "C16")) {
    fam([&] { for (int c = 0; c < 256; c++) { string x(1, (char)c); for (int rep = 0; rep < 4; rep++) { for (auto t : {x, "a" + x, x + "a", "\\" + x, "\\u00" + x + "0", "\\u" + x + "000", "\\u000" + x, "\\ud83d" + x + "ude00", "\\ud83d\\" + x + "de00"}) str(t); for (auto t : {x, "1" + x, x + "1", "-" + x, "0" + x, "1." + x, "1e" + x, "1e-" + x, "1.5" + x, "1E+2" + x}) num(t); } } }, 0.25);
    fam([&] { char b[64]; for (unsigned a = 0; a < 0x10000; a += (a >= 0xd700 && a < 0xe100) || a < 0x100 ? 1 : 61) { snprintf(b, 64, "\\u%04x", a); str(b); snprintf(b, 64, "\\ud8%02x\\u%04X", a & 255, a); str(b); } }, 0.2);
    fam([&] { enumerate("-01.e+E9", thorough ? 7 : 6, num); }, 0.25);
    fam([&] { enumerate("\"\\uaD8cd0\n/", thorough ? 7 : 5, str); }, 0.2);
    fam([&] { for (int L = 0; L < 5000; L += L < 300 ? 1 : 97) { str(string(L, 'x')); str(string(L, 'x') + "\""); str(string(L, 'x') + "\\n"); str(string(L, '\xc3')); num("1" + string(L, '0')); num("1" + string(L, '0') + "x"); num("0." + string(L, '3')); } }, 0.2);
  }
  if (F(fo, "C10") || F(fo, "C11")) {
    fam([&] { for (int c = 0; c < 256; c++) for (int d = 0; d < 8; d++) { string x(1, (char)c); string y = d == 0 ? x : d == 1 ? x + x : d == 2 ? "a" + x : d == 3 ? x + "b" : d == 4 ? x + "\\" : d == 5 ? x + "\"" : d == 6 ? x + string(1, '\x01') : x + "\\u0041"; static int k = 0; k++; bool z = c == 0; Script q = base(); q.push_back(mkop(z || k % 2 ? SetStrLenEscape : SetStrEscape, 10, y)); q.push_back(mkop(z || k % 3 ? SetKeyLenEscape : SetKeyEscape, 10, y)); q.push_back(mkop(GetUnEscapeStr, 10)); q.push_back(mkop(GetUnEscapeKey, 10)); go(q); } }, 0.3);
    fam([&] { char b[64]; for (unsigned a = 0; a < 0x10000; a += thorough || a < 0x100 || (a >= 0xd700 && a < 0xe100) || (a >= 0x7f0 && a < 0x810) ? 1 : 13) { snprintf(b, 64, a & 1 ? "\\u%04x" : "\\u%04X", a); string s = b; if (!bodyOk(s)) continue; Script q = base(); q.push_back(mkop(SetStr, 10, s)); q.push_back(mkop(GetUnEscapeStr, 10)); q.push_back(mkop(SetKey, 10, s + "z")); q.push_back(mkop(GetUnEscapeKey, 10)); go(q); } }, 0.3);
    fam([&] { char b[64]; for (int i = 0; i < (thorough ? 1024 : 128); i++) for (int j = 0; j < (thorough ? 64 : 16); j++) { unsigned h = 0xd800 + (thorough ? i : i * 8 + (i & 7)), l = 0xdc00 + (j * (thorough ? 16 : 64) + (i * 7 + j) % 16); snprintf(b, 64, "x\\u%04x\\u%04XY", h, l); Script q = base(); q.push_back(mkop(SetStr, 10, b)); q.push_back(mkop(GetUnEscapeStr, 10)); go(q); } }, 0.15);
    fam([&] { enumerate("\\nu\"/a\xe9", 6, [&](const string &s) { if (!bodyOk(s)) return; Script q = base(); q.push_back(mkop(SetStr, 10, s)); q.push_back(mkop(GetUnEscapeStr, 10)); go(q); }); }, 0.1);
    fam([&] { for (int L = 0; L < 5000; L += L < 300 ? 1 : 97) { string s(L, 'q'), t(L, '\x01'), u; for (int i = 0; i < L; i++) u += "\\u0001"; Script q = base(); q.push_back(mkop(SetStrEscape, 10, s)); q.push_back(mkop(GetUnEscapeStr, 10)); q.push_back(mkop(SetStrLenEscape, 10, t)); q.push_back(mkop(GetUnEscapeStr, 10)); if (L < 700) { q.push_back(mkop(SetStr, 10, u)); q.push_back(mkop(GetUnEscapeStr, 10)); } q.push_back(mkop(SetNull, 10)); go(q); } }, 0.15);
  }
  if (F(fo, "C12")) {
    fam([&] { for (int b = 0; b < 63; b++) for (int d = -2; d <= 2; d++) for (int s = -1; s <= 1; s += 2) { long long v = ((1LL << b) + d) * s; Script q = base(); q.push_back(mkop(SetInt, 10, "", (int)v)); q.push_back(mkop(GetInt, 10)); q.push_back(mkop(SetLong, 10, "", v)); q.push_back(mkop(GetLong, 10)); q.push_back(mkop(SetLongLong, 10, "", v)); q.push_back(mkop(GetLongLong, 10)); q.push_back(mkop(GetInt, 10)); q.push_back(mkop(GetDouble, 10)); go(q); } long long e[] = {LLONG_MIN, LLONG_MAX, LLONG_MIN + 1, LLONG_MAX - 1}; for (auto v : e) { Script q = base(); q.push_back(mkop(SetLong, 10, "", v)); q.push_back(mkop(GetLong, 10)); q.push_back(mkop(SetLongLong, 10, "", v)); q.push_back(mkop(GetLongLong, 10)); go(q); } long long p = 1; for (int i = 0; i < 19; i++, p *= 10) for (int d = -1; d <= 1; d++) for (int s = -1; s <= 1; s += 2) { Script q = base(); q.push_back(mkop(SetLong, 10, "", (p + d) * s)); q.push_back(mkop(GetLong, 10)); q.push_back(mkop(SetInt, 10, "", (int)((p + d) * s))); q.push_back(mkop(GetInt, 10)); go(q); } }, 0.2);
    fam([&] { for (int e = 0; e < 2048; e++) for (int m = 0; m < 6; m++) for (int s = 0; s < 2; s++) { uint64_t b = (uint64_t)s << 63 | (uint64_t)e << 52; static uint64_t ms[] = {0, 1, 0xfffffffffffffULL, 0x8000000000000ULL, 0x5555555555555ULL, 0x123456789abcdULL}; b |= ms[m]; Script q = base(); if (m & 1) q.push_back(mkop(SetBool, 10, "", 1)); q.push_back(mkop(m & 1 ? SetNum : SetDouble, 10, "", (long long)b)); q.push_back(mkop(m & 1 ? GetDouble : GetNum, 10)); go(q); } for (int i = -2000; i < 2000; i++) { double d = i / 8.0; long long b; memcpy(&b, &d, 8); Script q = base(); q.push_back(mkop(SetNum, 10, "", b)); q.push_back(mkop(GetNum, 10)); q.push_back(mkop(GetInt, 10)); go(q); } }, 0.3);
    fam([&] { for (int L = 1; L < 700; L += L < 300 ? 1 : 41) for (int k = 0; k < 6; k++) { string t = k == 0 ? "1" + string(L - 1, '0') : k == 1 ? "0." + string(L, '3') : k == 2 ? "-" + string(L, '9') + ".5" : k == 3 ? "1." + string(L, '0') + "e5" : k == 4 ? string(L, '7') + "E-" + to_string(L) : "0." + string(L, '0') + "123"; Script q = base(); q.push_back(mkop(ParseFast, 10, "[" + t + ",7]")); q.push_back(mkop(ArrayGet, 10, "", 0, 16)); for (int g : {GetNum, GetDouble, GetInt, GetLong, GetLongLong, GetNumStr, GetNumFast}) q.push_back(mkop(g, 16)); q.push_back(mkop(SetNumStrFast, 11)); go(q); Script r = base(); r.push_back(mkop(SetNumStrLen, 10, t)); for (int g : {GetNum, GetInt, GetLong, GetLongLong}) r.push_back(mkop(g, 10)); go(r); } }, 0.25);
  }
  if (F(fo, "C06") || F(fo, "C07") || F(fo, "C15") || F(fo, "C08") || F(fo, "C16") || F(fo, "C02") || F(fo, "C05")) {
    // all short edit sequences on small containers, built in every way, followed by probes
    fam([&] {
      for (int kind = 0; kind < 2; kind++) for (int n = 0; n <= 4; n++) for (int bld = 0; bld < 6; bld++) for (int a = 0; a < 14; a++) for (int b = 0; b < 14; b++) {
        Script q = base(); Op o; o.c = NewAlloc; o.r = 1; q.push_back(o); bool arr = kind == 0;
        string t = arr ? "[" : "{"; for (int i = 0; i < n; i++) t += string(i ? "," : "") + (arr ? "" : "\"k" + to_string(i) + "\":") + (i % 2 ? "[1]" : to_string(i)); t += arr ? "]" : "}";
        int v = 10;
        if (bld == 0) q.push_back(mkop(ParseFast, 10, t));
        else if (bld == 1) { q.push_back(mkop(Parse, 10, t)); q.push_back(mkop(Copy, 10, "", 0, 12)); v = 12; }
        else if (bld == 2) { q.push_back(mkop(arr ? SetArray : SetObj, 10)); for (int i = 0; i < n; i++) { q.push_back(mkop(NewValue, 0, "", 0, 13)); q.push_back(mkop(ParseLen, 13, i % 2 ? "[1]" : to_string(i))); q.push_back(mkop(SetKey, 13, "k" + to_string(i))); q.push_back(mkop(arr ? ArrayAddFast : ObjAddFast, 10, "", 0, 0, 13)); } }
        else if (bld == 3) { q.push_back(mkop(arr ? SetArray : SetObj, 10)); q.push_back(mkop(NewValue, 1, "", 0, 13)); for (int i = 0; i < n; i++) { q.push_back(mkop(ParseLen, 13, i % 2 ? "[1]" : to_string(i))); q.push_back(mkop(SetKeyLen, 13, "k" + to_string(i))); q.push_back(mkop(arr ? ArrayAdd : ObjAdd, 10, "", 0, 0, 13)); } }
        else if (bld == 4) { q.push_back(mkop(NewValue, 0, "", 0, 13)); q.push_back(mkop(Parse, 13, t)); q.push_back(mkop(SetBool, 10, "", 1)); q.push_back(mkop(SetFast, 10, "", 0, 0, 13)); }
        else { q.push_back(mkop(NewValue, 1, "", 0, 13)); q.push_back(mkop(Parse, 13, t)); q.push_back(mkop(SetStr, 10, "x")); q.push_back(mkop(Set, 10, "", 0, 0, 13)); }
        auto edit = [&](int e) { switch (e) {
          case 0: case 1: case 2: case 3: q.push_back(arr ? mkop(ArrayDel, v, "", e) : mkop(ObjDel, v, "k" + to_string(e))); break;
          case 4: case 5: q.push_back(mkop(NewValue, 0, "", 0, 14)); q.push_back(mkop(SetInt, 14, "", 77)); q.push_back(mkop(SetKey, 14, "n" + to_string(e))); q.push_back(mkop(e == 4 ? (arr ? ArrayAddFast : ObjAddFast) : (arr ? ArrayAdd : ObjAdd), v, "", 0, 0, 14)); break;
          case 6: case 7: case 8: q.push_back(arr ? mkop(ArrayGet, v, "", e - 6, 17) : mkop(ObjGet, v, "k" + to_string(e - 6), 0, 17)); q.push_back(mkop(Move, 17)); break;
          case 9: q.push_back(arr ? mkop(ArrayGet, v, "", 1, 17) : mkop(ObjGet, v, "k1", 0, 17)); q.push_back(mkop(NewValue, 0, "", 0, 14)); q.push_back(mkop(SetArray, 14)); q.push_back(mkop(ArrayAddFast, 14, "", 0, 0, 17)); break;
          case 10: q.push_back(arr ? mkop(ArrayGet, v, "", 0, 17) : mkop(ObjGet, v, "k0", 0, 17)); q.push_back(mkop(arr ? ArrayAddFast : ObjAddFast, v, "", 0, 0, 17)); break;
          case 11: q.push_back(arr ? mkop(ArrayGet, v, "", 1, 17) : mkop(ObjGet, v, "k1", 0, 17)); q.push_back(mkop(Set, 17, "", 0, 0, v)); break;
          case 12: q.push_back(arr ? mkop(ArrayGet, v, "", 2, 17) : mkop(ObjGet, v, "k2", 0, 17)); q.push_back(mkop(Parse, 17, "[5,6]")); break;
          case 13: q.push_back(mkop(Copy, v, "", 0, 18)); v = 18; break; } };
        edit(a); edit(b);
        q.push_back(mkop(Walk, v)); edit(5); q.push_back(mkop(Walk, v)); go(q);
      } }, 0.35);
    fam([&] { for (int n = 0; n < 70; n += n < 20 ? 1 : 9) for (int d = -1; d < n; d += n < 12 ? 1 : 5) for (int kind = 0; kind < 2; kind++) { bool arr = kind == 0; string t = arr ? "[" : "{"; for (int i = 0; i < n; i++) t += string(i ? "," : "") + (arr ? "" : "\"key" + to_string(i) + "\":") + to_string(i); t += arr ? "]" : "}"; Script q = base(); q.push_back(mkop(ParseFast, 10, t)); if (d >= 0) q.push_back(arr ? mkop(ArrayDel, 10, "", d) : mkop(ObjDel, 10, "key" + to_string(d))); q.push_back(mkop(Walk, 10)); q.push_back(mkop(Copy, 10, "", 0, 12)); q.push_back(mkop(SetKey, 12, "c")); q.push_back(mkop(arr ? ArrayAddFast : ObjAddFast, 10, "", 0, 0, 12)); q.push_back(mkop(Walk, 10)); go(q); } }, 0.15);
  }
  if (F(fo, "C05") || F(fo, "C08") || F(fo, "C13") || F(fo, "C14") || F(fo, "C18") || F(fo, "C02")) {
    fam([&] { for (int L = 0; L < 10000; L += L < 260 ? 1 : (L < 1100 ? 13 : 257)) { string s(L, 'x'); Script q = base(); q.push_back(mkop(Parse, 10, "{\"" + s + "\":\"" + s + "\",\"k\":[1" + string(L / 2, '0') + "]}")); q.push_back(mkop(ObjGet, 10, s, 0, 12)); for (int g : {GetStr, GetStrFast, GetUnEscapeStr, GetKey, GetKeyFast, GetUnEscapeKey, TypeOp, SizeOfOp}) q.push_back(mkop(g, 12)); q.push_back(mkop(Copy, 10, "", 0, 13)); Op o; o.c = NewAlloc; o.r = 1; q.push_back(o); q.push_back(mkop(NewValue, 1, "", 0, 14)); q.push_back(mkop(Set, 14, "", 0, 0, 10)); q.push_back(mkop(Stringify, 10)); q.push_back(mkop(Stringify, 14)); q.push_back(mkop(Release, 0)); q.push_back(mkop(Stringify, 14)); q.push_back(mkop(GetStr, 14)); go(q); } }, 0.2);
    fam([&] { static const char *types[] = {"null", "true", "false", "0", "\"s\"", "[]", "[1]", "{}", "{\"a\":1}", ""}; for (auto t : types) for (int key = 0; key < 2; key++) for (int c = GetStrFast; c <= GetKeyFast; c++) { Script q = base(); if (*t) q.push_back(mkop(Parse, 10, t)); if (key) q.push_back(mkop(SetKey, 10, "kk")); if (key && !*t) continue; q.push_back(mkop(c, 10)); q.push_back(mkop(TypeOp, 10)); q.push_back(mkop(SizeOfOp, 10)); q.push_back(mkop(Begin, 10, "", 0, 20)); q.push_back(mkop(Next, 10, "", 0, 21)); q.push_back(mkop(ArrayGet, 10, "", 0, 22)); q.push_back(mkop(ObjGet, 10, "a", 0, 23)); q.push_back(mkop(Move, 10)); go(q); } }, 0.05);
    // text growth of Stringify: every total length near the growth steps
    fam([&] { for (int L = 980; L < 1060; L++) { Script q = base(); q.push_back(mkop(SetStr, 10, string(L, 'y'))); q.push_back(mkop(Stringify, 10)); q.push_back(mkop(SetArray, 10)); q.push_back(mkop(Parse, 10, "[" + string(L - 100, '1') + ",[[{\"a\":[" + string(90, '2') + "]}]]]")); q.push_back(mkop(Stringify, 10)); go(q); } }, 0.05);
  }
  // time left over by a family goes to the later ones
  double tot = 0; for (auto &f : fams) tot += f.second; long long endAll = nowms() + fullMs;
  for (auto &f : fams) { long long left = endAll - nowms(); if (left <= 0) break; budgetEnd = nowms() + (long long)(left * f.second / tot); tot -= f.second; try { f.first(); } catch (TimeUp &) { incomplete++; } famCount++; }
}
static void setWeights(const set<string> &fo) {
  auto w = [&](int c, int x) { W[c] = x; };
  for (int i = 0; i < NOPS; i++) W[i] = 10;
  w(NewAlloc, 6); w(Release, 4); w(NewValue, 30); w(Parse, 30); w(ParseFast, 20); w(ParseLen, 15); w(FreeBufs, 6); w(Drop, 5); w(Walk, 10);
  w(ArrayGet, 30); w(ObjGet, 20); w(Begin, 20); w(Next, 20); w(SetArray, 12); w(SetObj, 12); w(ArrayAddFast, 25); w(ObjAddFast, 20); w(ArrayAdd, 20); w(ObjAdd, 15); w(SetKey, 20); w(Move, 15); w(ArrayDel, 20); w(ObjDel, 15); w(Copy, 15);
  for (int c = 0; c < NOPS; c++) { set<string> o; addProps(o, opProps(c)); for (auto &f : fo) if (o.count(f) || (f == "C06" && isMut(c)) || (f == "C16" && c >= SetNull && c <= Set) || (f == "C04" && c >= ParseFast && c <= Parse) || (f == "C18" && (c == Set || c == ObjAdd || c == ArrayAdd || c == NewAlloc || c == Release)) || (f == "C13" && (c >= GetStr && c <= GetUnEscapeKey))) { W[c] *= 3; break; } }
}
static void randomRun(const Api *A, const set<string> &fo) {
  setWeights(fo);
  while (!timeUp()) {
    World w(A); blks.clear(); memErr.clear(); Script sc; nextSlot();
    try {
      auto step = [&](const Op &p) { sc.push_back(p); record(sc); *(int *)(shm + 16) = (int)sc.size() - 1; bool did = w.exec(p); execCount++; if (!did) { sc.pop_back(); return; } w.verify(isMut(p.c) ? p.h : p.c == NewValue ? p.r : -1, true); };
      Op p; p.c = NewAlloc; p.r = 0; step(p); p.c = NewValue; p.r = 10; p.h = 0; step(p); 
      int n = 5 + R(25); for (int i = 0; i < n; i++) step(genOp(w));
      while (!w.al.empty()) { Op r; r.c = Release; bool any = false; vector<int> ids; for (auto &kv : w.al) ids.push_back(kv.first); for (auto &kv : w.reg) kv.second.live = false; for (int id : ids) { r.h = id; if (w.exec(r)) any = true; if (!memErr.empty()) fail("mem", memErr); } if (!any) break; }
      scriptCount++; size_t hh = hash<string>()(show(sc)); if (seenHash.size() < 400000) seenHash.insert(hh); if (sampleText.empty() || R(200) == 0) sampleText = show(sc);
    } catch (FailEx &e) { clearPool(); throw; }
    clearPool();
  }
}
static string readFile(const char *f) { FILE *p = fopen(f, "rb"); string o; char b[65536]; size_t k; if (!p) return o; while ((k = fread(b, 1, sizeof b, p)) > 0) o.append(b, k); fclose(p); return o; }

int main(int argc, char **argv) {
  string mode = argc > 1 ? argv[1] : "", out = "/dev/null", apin = "c", file; set<string> focus; long ms = 5000; uint64_t seed = 1; bool thorough = false; int maxForeign = 6;
  for (int i = 2; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); }; if (a == "--focus") { string f = nx(); size_t k = 0; while (k < f.size()) { focus.insert(f.substr(k, 3)); k += 4; } } else if (a == "--ms") ms = atol(nx().c_str()); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--api") apin = nx(); else if (a == "--out") out = nx(); else if (a == "--thorough") thorough = true; else file = a; }
  shm = (char *)mmap(0, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const Api *A = 0; for (auto a : ALL) if (apin == a->name) A = a;
  if (!A) { fprintf(stderr, "no such api\n"); return 2; }
  if (mode == "replay") {
    Script sc; if (!parseScript(readFile(file.c_str()), sc)) { fprintf(stderr, "bad script\n"); return 2; }
    Outcome o = runForked(A, sc);
    if (!o.bad) { printf("OK: every result and state is as specified\n"); return 0; }
    Script c = cut(sc, o); set<string> at = attribute(c, o.kind, o.what, A->name); string t; for (auto &x : at) t += x + " ";
    printf("FAIL kind=%s op=%s properties=%s\n  %s\n", o.kind.c_str(), (size_t)o.at < sc.size() ? ON[sc[o.at].c] : "Release(end)", t.c_str(), o.what.c_str()); return 1;
  }
  // search: workers run until one fails or time is up; failures of other properties are remembered
  long long end = nowms() + ms; int foreign = 0; string others; bool sysDone = false; long fC = 0, fI = 0, totS = 0, totE = 0, totD = 0; string samp; int rounds = 0;
  while (nowms() < end - 20) {
    rounds++;
    shm[0] = 0; for (int i = 0; i < 16; i++) shm[65536 + i * SLOT] = 0; *(int *)(shm + 24) = 0; fflush(stdout);
    int pfd[2]; if (pipe(pfd)) return 2; long long left = end - nowms(); bool doSys = !sysDone;
    pid_t pid = fork();
    if (pid == 0) {
      close(pfd[0]); dup2(pfd[1], 2); rs = seed * 0x9E3779B97F4A7C15ULL + rounds * 77777 + 12345; for (int i = 0; i < 5; i++) rnd();
      auto wr = [&]() { long *L = (long *)(shm + 32); L[0] = scriptCount; L[1] = execCount; L[2] = (long)seenHash.size(); L[3] = famCount; L[4] = incomplete; };
      try { if (doSys) { systematic(A, focus, thorough, (long long)(left * 0.6)); wr(); shm[1] = 1; } budgetEnd = nowms() + max<long long>(0, end - nowms()); randomRun(A, focus); }
      catch (FailEx &e) { wr(); shm[0] = 1; _exit(3); } catch (TimeUp &) {}
      wr(); string s = sampleText; if (s.size() > 3000) s.resize(3000); memcpy(shm + 8192, s.c_str(), s.size() + 1);
      _exit(0);
    }
    bool killed = false; close(pfd[1]); string err; { fd_set fs; char b[4096]; for (;;) { FD_ZERO(&fs); FD_SET(pfd[0], &fs); struct timeval tv; long long l = end + 3000 - nowms(); if (l < 0) { kill(pid, SIGKILL); killed = true; break; } tv.tv_sec = l / 1000; tv.tv_usec = l % 1000 * 1000; int s = select(pfd[0] + 1, &fs, 0, 0, &tv); if (s <= 0) { kill(pid, SIGKILL); killed = true; break; } ssize_t k = read(pfd[0], b, sizeof b); if (k <= 0) break; if (err.size() < 20000) err.append(b, k); } } close(pfd[0]);
    int st; waitpid(pid, &st, 0); long *L = (long *)(shm + 32); totS += L[0]; totE += L[1]; totD += L[2]; fC += L[3]; fI += L[4]; L[3] = L[4] = 0; L[0] = L[1] = L[2] = 0; if (shm[8192]) samp = string(shm + 8192);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    int cs = *(int *)(shm + 24); Script sc; string tx(shm + 65536 + (cs % 16) * SLOT); if (!parseScript(tx, sc) || sc.empty()) { printf("NOTE worker died without a script: %s\n", err.substr(0, 200).c_str()); break; }
    Outcome o = runForked(A, sc);
    if (!o.bad && !killed) { // does it need the documents handled before? run them one after the other in one process
      for (int k = 1; k < 16 && k <= cs && !o.bad; k = k * 2 + 1) { Script all; for (int j = max(0, cs - k); j <= cs; j++) { Script x; if (!parseScript(string(shm + 65536 + (j % 16) * SLOT), x)) continue; int d = cs - j; set<int> made; for (auto p : x) { bool a = p.c == NewAlloc; if (a) made.insert(p.r); p.r += (a ? 100 : 1000) * d; p.h += (p.c == Release || p.c == NewValue ? 100 : 1000) * d; p.h2 += 1000 * d; all.push_back(p); } if (d) for (int m : made) { Op r; r.c = Release; r.h = m + 100 * d; all.push_back(r); } }
        Outcome o2 = runForked(A, all); if (o2.bad) { o = o2; sc = all; } } }
    if (!o.bad && killed) break;
    if (!o.bad) { printf("NOTE failure not reproducible in isolation\n"); if (++foreign > maxForeign) break; sysDone = true; continue; }
    sc = minimize(A, sc, o, 8000);
    set<string> at = attribute(cut(sc, o), o.kind, o.what, A->name); string t; for (auto &x : at) t += x + " ";
    bool mine = focus.empty(); for (auto &f : focus) if (at.count(f)) mine = true;
    if (mine) {
      FILE *f = fopen(out.c_str(), "wb"); if (f) { fprintf(f, "# api=%s kind=%s properties=%s\n# %s\n%s", A->name, o.kind.c_str(), t.c_str(), o.what.c_str(), show(sc).c_str()); fclose(f); }
      printf("FOUND api=%s kind=%s properties=%s\n  %s\n", A->name, o.kind.c_str(), t.c_str(), o.what.c_str());
      printf("STATS scripts=%ld ops=%ld distinct=%ld\n", totS, totE, totD);
      return 1;
    }
    others += "OTHER properties=" + t + " kind=" + o.kind + " " + o.what + "\n"; sysDone = true;
    if (++foreign > maxForeign) break;
  }
  printf("NONE\n%sSTATS scripts=%ld ops=%ld distinct=%ld families=%ld families_cut_short=%ld\n", others.c_str(), totS, totE, totD, fC, fI);
  if (!samp.empty()) printf("SAMPLE\n%s", samp.c_str());
  return 0;
}
