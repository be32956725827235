// Text utilities: escapes, base64 and URL encodings, splitting, stripping, paths.
#include "h.h"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include <msat/utils/string.h>
using namespace msat; using std::string;
static unsigned pick(const char* n, unsigned lo, unsigned hi) { return (unsigned)msym_concretize(msym_range(n, lo, hi)); }
static string octets(unsigned n) { unsigned char* b = sym_buf(n, "s"); string s((char*)b, n); delete[] b; return s; }
// any text of n letters out of a small alphabet
static string letters(unsigned n, const char* abc)
{
    unsigned char* b = sym_buf(n, "s"); for (unsigned i = 0; i < n; ++i) { int in = 0; for (const char* a = abc; *a; ++a) in |= b[i] == (unsigned char)*a; msym_assume(in); } string s((char*)b, n); delete[] b; return s;
}
static unsigned b64(unsigned v) { return v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : '/'; }
// ---- base64
ENTRY(base64)
{
    unsigned n = pick("n", 0, THOROUGH ? 12 : 7); string s = octets(n), e = str::encode_base64(s), e2 = str::encode_base64(s.data(), n); msym_assert(e.size() == (n + 2) / 3 * 4 && eqstr(e, e2), "four characters for three octets");
    for (unsigned i = 0; i < e.size(); ++i) { unsigned bit = 6 * i, o = bit / 8, sh = bit % 8; unsigned hi = o < n ? (unsigned char)s[o] : 0, lo = o + 1 < n ? (unsigned char)s[o + 1] : 0, v = ((hi << 8 | lo) >> (10 - sh)) & 63; unsigned pad = n % 3 && i >= e.size() - (3 - n % 3); unsigned ch = (unsigned char)e[i]; int ok = 0; if (pad) ok = ch == '='; else ok = (v < 26) & (ch == 'A' + v) | (v >= 26) & (v < 52) & (ch == 'a' + v - 26) | (v >= 52) & (v < 62) & (ch == '0' + v - 52) | (v == 62) & (ch == '+') | (v == 63) & (ch == '/'); msym_assert(ok, "each character stands for six bits"); }
    string t; for (unsigned i = 0; i < e.size(); ++i) t += e[i]; msym_assert(eqstr(str::decode_base64(t), s), "what is decoded is what was encoded");
}
ENTRY(base64_known) { for (unsigned v = 0; v < 64; ++v) { char c[5] = {(char)b64(v), 'A', '=', '=', 0}; string d = str::decode_base64(c); msym_assert(d.size() == 1 && (unsigned char)d[0] == v << 2, "every character is known"); } }
ENTRY(base64_any)
{
    unsigned n = pick("n", 0, THOROUGH ? 6 : 5); string s = octets(n), d = str::decode_base64(s); msym_assert(d.size() <= (n + 3) / 4 * 3, "at most three octets of four characters");
}
// ---- URL encoding
static int hexval(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int plain(int c) { return (c >= '0') & (c <= '9') | (c >= 'A') & (c <= 'Z') | (c >= 'a') & (c <= 'z') | (c == '-') | (c == '_') | (c == '!') | (c == '*') | (c == '\'') | (c == '(') | (c == ')'); }
ENTRY(url)
{
    unsigned n = pick("n", 0, THOROUGH ? 3 : 2); string s = octets(n), e = str::encode_url(s); size_t at = 0;
    for (unsigned i = 0; i < n; ++i) { int ch = (unsigned char)s[i]; if (plain(ch)) { msym_assert(at < e.size() && (unsigned char)e[at] == ch, "letters and digits stay"); at += 1; } else { msym_assert(at + 3 <= e.size() && e[at] == '%' && hexval(e[at + 1]) * 16 + hexval(e[at + 2]) == ch, "other octets become two hexadecimal digits"); at += 3; } }
    msym_assert(at == e.size(), "nothing else"); msym_assert(eqstr(str::decode_url(e), s), "what is decoded is what was encoded");
}
ENTRY(url_any)
{
    unsigned n = pick("n", 0, THOROUGH ? 8 : 6); static const char abc[] = "%4aZ"; string s = letters(n, abc), want; size_t i = 0; bool good = true;
    while (i < n) if (s[i] != '%') want += s[i++]; else if (i + 2 < n + 0 || i + 3 == n) { int a = hexval(s[i + 1]), b = hexval(s[i + 2]); if (a < 0 || b < 0) { good = false; break; } want += (char)(16 * a + b); i += 3; } else break; // an incomplete escape at the end is dropped
    string d = str::decode_url(s); if (good) { msym_assert(eqstr(d, want), "escapes are decoded, all else is kept"); msym_reach("decoded"); }
}
// ---- escapes
ENTRY(cstring)
{
    unsigned n = pick("n", 0, 2); string s = octets(n), e = str::encode_cstring(s); for (unsigned i = 0; i < e.size(); ++i) { unsigned char ch = (unsigned char)e[i]; msym_assert(ch >= 32 && ch != 127, "no control characters"); if (ch == '"') msym_assert(i && e[i - 1] == '\\', "quotes are escaped"); }
    unsigned tail = !THOROUGH && n == 2 ? 1 : pick("tail", 0, 2); string t = e + (tail == 0 ? "" : tail == 1 ? "\"" : "\"x\\n\""); size_t len = 99; string d = str::decode_cstring(t, len); msym_assert(eqstr(d, s), "what is decoded is what was encoded"); msym_assert(len == e.size() + (tail ? 1 : 0), "up to the first double quote");
}
ENTRY(cstring_any)
{
    unsigned n = pick("n", 0, THOROUGH ? 7 : 6); string s = letters(n, "\\x1\"n"), want; size_t i = 0, stop; 
    for (; i < n && s[i] != '"'; ++i) { if (s[i] != '\\' || i + 1 == n) { want += s[i]; continue; } char ch = s[++i]; if (ch == 'n') want += '\n'; else if (ch == 'x') { int v = 0, k = 0; while (k < 2 && i + 1 < n && hexval(s[i + 1]) >= 0) { v = 16 * v + hexval(s[++i]); ++k; } want += (char)v; } else want += ch; }
    stop = i < n ? i + 1 : i; size_t len = 99; string d = str::decode_cstring(s, len); msym_assert(eqstr(d, want) && len == stop, "escapes are decoded up to the first double quote");
}
// texts of hundreds of octets, of which one is arbitrary
static string longer(unsigned& n)
{
    static const unsigned N[] = {57, 58, 76, 77, 120, 255, 256, 1001}; n = N[pick("length", 0, 7)]; string s; for (unsigned i = 0; i < n; ++i) s += (char)(i * 73 + i / 7 + 1); static const unsigned char C[] = {0, '"', '\\', '%', '+', '/', 0xff, 'z'}; unsigned at = pick("at", 0, 2); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; s[at] = (char)C[pick("octet", 0, 7)]; return s;
}
ENTRY(long_texts)
{
    unsigned n; string s = longer(n), e = str::encode_base64(s); msym_assert(e.size() == (n + 2) / 3 * 4, "four characters for three octets"); int ok = 1; for (unsigned i = 0; i < e.size(); ++i) { unsigned bit = 6 * i, o = bit / 8, sh = bit % 8; unsigned hi = o < n ? (unsigned char)s[o] : 0, lo = o + 1 < n ? (unsigned char)s[o + 1] : 0, v = ((hi << 8 | lo) >> (10 - sh)) & 63; ok &= (unsigned char)e[i] == (n % 3 && i >= e.size() - (3 - n % 3) ? (unsigned)'=' : b64(v)); } msym_assert(ok, "each character stands for six bits"); msym_assert(str::decode_base64(e) == s, "what is decoded is what was encoded");
    string u = str::encode_url(s); size_t at = 0; for (unsigned i = 0; i < n; ++i) { int ch = (unsigned char)s[i]; if (plain(ch)) { ok &= u[at] == (char)ch; ++at; } else { ok &= at + 3 <= u.size() && u[at] == '%' && hexval(u[at + 1]) * 16 + hexval(u[at + 2]) == ch; at += 3; } } msym_assert(ok && at == u.size(), "each octet or its escape"); msym_assert(str::decode_url(u) == s, "what is decoded is what was encoded"); string c = str::encode_cstring(s); size_t len = 0; string d = str::decode_cstring(c + "\"rest", len); if (s.find('\0') == string::npos) { msym_assert(d == s && len == c.size() + 1, "what is decoded is what was encoded"); msym_reach("text"); } else { msym_assert(d == s, "zero octets too"); }
}
// ---- splitting
static std::vector<string> words(const string& s, const string& sep, bool skip)
{
    std::vector<string> r; if (s.empty()) return r; size_t at = 0; for (;;) { size_t e = s.size(), next = s.size(); bool last = true; if (sep.empty()) { e = at + 1; next = e; last = e == s.size(); } else for (size_t k = at; k + sep.size() <= s.size(); ++k) if (s.compare(k, sep.size(), sep) == 0) { e = k; next = k + sep.size(); last = false; break; } string w = s.substr(at, e - at); if (!skip || !w.empty()) r.push_back(w); if (last) break; at = next; }
    return r;
}
ENTRY(split)
{
    unsigned n = pick("n", 0, THOROUGH ? 10 : 7); string s = letters(n, "a/"); unsigned k = pick("sep", 0, 2); string sep = k == 0 ? "/" : k == 1 ? "//" : ""; bool skip = pick("skip", 0, 1); std::vector<string> want = words(s, sep, skip); str::Split sp(s, sep, skip); unsigned i = 0; string joined; auto it = sp.begin();
    for (; it != sp.end(); ++it) { msym_assert(i < want.size() && *it == want[i] && it->size() == want[i].size(), "the words in order"); string rest = it.remainder(); msym_assert(rest.size() <= s.size() && s.compare(s.size() - rest.size(), rest.size(), rest) == 0, "the remainder is what follows"); if (k == 0 && !skip) { size_t after = 0; for (unsigned j = 0; j <= i; ++j) after += want[j].size() + 1; msym_assert(rest.size() == (after <= s.size() ? s.size() - after : 0), "the remainder starts behind the separator"); } ++i; }
    msym_assert(i == want.size() && it == sp.end(), "all the words"); if (!skip && k < 2) { msym_assert(str::join(sep, want) == s || s.empty(), "joined they give the text"); msym_assert(str::join(sep, want.begin(), want.end()) == str::join(sep, want), "join"); } msym_reach("split");
}
// ---- white space and case
static int space(unsigned char c) { return (c == ' ') | (c >= 9) & (c <= 13); }
ENTRY(strips)
{
    unsigned n = pick("n", 0, THOROUGH ? 5 : 4); string s = octets(n); unsigned b = 0, e = n; while (b < n && space((unsigned char)s[b])) ++b; while (e > 0 && space((unsigned char)s[e - 1])) --e;
    msym_assert(eqstr(str::lstrip(s), s.substr(b)), "white space before"); msym_assert(eqstr(str::rstrip(s), s.substr(0, e)), "white space behind"); msym_assert(eqstr(str::strip(s), b < e ? s.substr(b, e - b) : string()), "white space around");
}
ENTRY(cases)
{
    unsigned n = pick("n", 0, 2); string s = octets(n), u = str::upper(s), l = str::lower(s); msym_assert(u.size() == n && l.size() == n, "same length"); for (unsigned i = 0; i < n; ++i) { unsigned c = (unsigned char)s[i], lo = (c >= 'a') & (c <= 'z'), up = (c >= 'A') & (c <= 'Z'); msym_assert((unsigned char)u[i] == c - 32 * lo && (unsigned char)l[i] == c + 32 * up, "letters change case, all else stays"); }
    unsigned m = pick("m", 0, 3); string p = octets(m); int st = m <= n, en = m <= n; if (m <= n) { st = eqbytes(s.data(), p.data(), m); en = eqbytes(s.data() + n - m, p.data(), m); } msym_assert(str::startswith(s, p) == (bool)st && str::endswith(s, p) == (bool)en, "start and end");
}
// ---- paths
static std::vector<string> parts(const string& p) { std::vector<string> r; string w; for (size_t i = 0; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') { if (!w.empty()) r.push_back(w); w.clear(); } else w += p[i]; return r; }
ENTRY(paths)
{
    unsigned n = pick("n", 0, THOROUGH ? 8 : 6); string s = letters(n, "a/."); bool abs = n && s[0] == '/'; auto all = parts(s);
    size_t k = n; while (k > 0 && s[k - 1] != '/') --k; msym_assert(str::basename(s) == s.substr(k), "the name behind the last slash");
    string dir; { size_t e = n; while (e > 0 && s[e - 1] == '/') --e; while (e > 0 && s[e - 1] != '/') --e; while (e > 0 && s[e - 1] == '/') --e; dir = e ? s.substr(0, e) : abs ? "/" : "."; } msym_assert(str::dirname(s) == dir, "the directory a file or directory is in");
    std::vector<string> st; for (auto& w : all) { if (w == ".") continue; if (w == "..") { if (!st.empty() && st.back() != "..") st.pop_back(); else if (!abs) st.push_back(w); } else st.push_back(w); } string want = abs ? "/" : ""; for (size_t i = 0; i < st.size(); ++i) { if (i) want += '/'; want += st[i]; } if (want.empty()) want = "."; msym_assert(str::normpath(s) == want, "the shortest path to the same place"); msym_reach("path");
}
// long texts of many and of long words
ENTRY(long_words)
{
    static const unsigned LEN[] = {1, 3, 200, 300}, NUM[] = {2, 70, 300, 1200}; unsigned len = LEN[pick("len", 0, 3)], num = NUM[pick("num", 0, len > 3 ? 1 : 3)]; std::vector<string> w; string s; for (unsigned i = 0; i < num; ++i) { w.push_back(string(len, (char)('a' + i % 26))); if (i) s += "/"; s += w[i]; } unsigned k = 0; int ok = 1; str::Split sp(s, "/", false); for (auto it = sp.begin(); it != sp.end(); ++it, ++k) ok &= k < num && *it == w[k]; msym_assert(ok && k == num, "all the words"); msym_assert(str::join("/", w) == s, "joined");
    msym_assert(str::basename(s) == w.back() && str::dirname(s) == s.substr(0, s.size() - len - 1) && str::normpath(s) == s && str::normpath("/" + s + "/../" + w.back()) == "/" + s && str::normpath("./" + s + "//./x/..") == s, "paths"); string up = "/x"; for (unsigned i = 0; i < num; ++i) up += "/" + w[i]; for (unsigned i = 0; i < num; ++i) up += "/.."; msym_assert(str::normpath(up) == "/x", "as far up as down"); msym_assert(str::upper(str::upper(s)) == str::upper(s) && str::lower(str::upper(s)) == s && str::strip(string(len, ' ') + s + string(num, '\n')) == s && str::joinpath(s, w[0]) == s + "/" + w[0], "long texts"); msym_reach("long");
}
ENTRY(append)
{
    unsigned n = pick("n", 0, 3), m = pick("m", 0, 3); string a = letters(n, "a/"), b = letters(m, "b/"), want; if (a.empty()) want = b; else if (b.empty()) want = a; else { want = a; bool sa = a[n - 1] == '/', sb = b[0] == '/'; if (!sa && !sb) want += '/'; want += sa && sb ? b.substr(1) : b; }
    string d = a; str::appendpath(d, b); string d2 = a; str::appendpath(d2, b.c_str()); string d3 = a; str::appendpath(d3, b, string("c")); string w3 = want; if (w3.empty()) w3 = "c"; else { if (w3.back() != '/') w3 += '/'; w3 += 'c'; } msym_assert(d == want && d2 == want && d3 == w3 && str::joinpath(a, b) == want && str::joinpath(a, b, "c") == w3, "one slash between the parts");
}
