// Names of XRIT products: parsing, and the set of files each name stands for.
#include "h.h"
#include <msat/xrit/fileaccess.h>
#include <stdexcept>
#include <cstdlib>
#include <glob.h>
using msat::xrit::FileAccess;

// ---- stand-in for glob(3) over an in-memory list of path names, in list order
struct Listing { const char* name[320]; int n; } listing;
static int one_glob(const char* p, const char* s)
{
    // '*' is resolved by trying every split; everything else without deciding character by character
    int ok = 1;
    for (;; ++p, ++s)
    {
        if (*p == '*') { for (const char* t = s;; ++t) { if (one_glob(p + 1, t)) return ok; if (!*t || *t == '/') return 0; } }
        if (!*p) return ok & (*s == 0);
        if (!*s) return 0;
        if (*p == '[') {
            const char* e = strchr(p + 2, ']'); int neg = p[1] == '!' || p[1] == '^', in = 0;
            for (const char* c = p + 1 + neg; c < e; ++c) if (c + 2 < e && c[1] == '-') { in |= (*s >= c[0]) & (*s <= c[2]); c += 2; } else in |= *s == *c;
            ok &= neg ? !in : in; p = e; continue;
        }
        ok &= *p == '?' ? *s != '/' : *s == *p;
    }
}
extern "C" int glob(const char* pattern, int flags, int (*)(const char*, int), glob_t* g)
{
    size_t offs = flags & GLOB_DOOFFS ? g->gl_offs : 0; g->gl_pathc = 0; g->gl_pathv = 0;
    int hit[320]; size_t k = 0; for (int i = 0; i < listing.n; ++i) { hit[i] = one_glob(pattern, listing.name[i]) ? 1 : 0; k += hit[i]; }
    if (!k) return GLOB_NOMATCH;
    g->gl_pathv = (char**)calloc(offs + k + 1, sizeof(char*));
    for (int i = 0; i < listing.n; ++i) if (hit[i]) g->gl_pathv[offs + g->gl_pathc++] = strdup(listing.name[i]);
    return 0;
}
extern "C" void globfree(glob_t* g) { if (!g->gl_pathv) return; size_t o = g->gl_offs; (void)o; for (size_t i = 0; i < g->gl_pathc; ++i) free(g->gl_pathv[i + 1]); free(g->gl_pathv); g->gl_pathv = 0; }

// n characters usable in a field
static std::string field(unsigned n, const char* name, int last_underscore = 1)
{
    std::string s(n, 'x'); unsigned char* b = sym_buf(n + 1, name);
    for (unsigned i = 0; i < n; ++i) { unsigned char c = b[i]; msym_assume((c != 0) & (c != '-') & (c != '/') & (c != ':')); if (i + 1 == n && !last_underscore) msym_assume(c != '_'); s[i] = (char)c; }
    delete[] b; return s;
}
static std::string pad(std::string s, size_t n) { while (s.size() < n) s += '_'; return s; }
static const char* const DIRS[] = {"", "/", "d/", "a/b/", "/x-y/z:t/", "./", "../H-000/"};
static const char* const DIRNAME[] = {".", "/", "d", "a/b", "/x-y/z:t", ".", "../H-000"};
static unsigned len(const char* name, unsigned lo, unsigned hi) { return (unsigned)msym_concretize(msym_range(name, lo, hi)); }

ENTRY(long_names)
{
    unsigned d = len("dir", 0, 6), varied = len("varied", 0, 4);
    std::string res = field(varied == 0 ? len("lres", 1, 3) : 1, "res"), p1 = field(varied == 1 ? len("l1", 1, 12) : 4, "p1", 0), p2 = field(varied == 2 ? len("l2", 1, 9) : 6, "p2", 0), tim = field(varied == 3 ? len("lt", 1, 12) : 12, "time", 0);
    std::string num = field(3, "n"), sat = field(4, "sat"), seg = field(varied == 4 ? len("ls", 0, 9) : 6, "seg");
    std::string name = std::string(DIRS[d]) + res + "-" + num + "-" + pad(sat, 6) + "-" + pad(p1, 12) + "-" + pad(p2, 9) + "-" + pad(seg, 9) + "-" + tim + "-C_";
    msym_assert(msat::xrit::isValid(name), "a segment file name is recognised");
    FileAccess f(name);
    msym_assert(f.directory == DIRNAME[d], "directory"); msym_assert(eqstr(f.resolution, res), "resolution"); msym_assert(eqstr(f.productid1, p1), "first product without padding"); msym_assert(eqstr(f.productid2, p2), "second product without padding"); msym_assert(eqstr(f.timing, tim), "time");
    f.ensureComplete(); msym_reach("parsed");
}
ENTRY(short_names)
{
    unsigned d = len("dir", 0, 6);
    std::string res = field(len("lres", 0, 2), "res"), p1 = field(len("l1", 0, 4), "p1"), p2 = field(len("l2", 0, 4), "p2"), tim = field(len("lt", 1, 4), "time");
    std::string name = std::string(DIRS[d]) + res + ":" + p1 + ":" + p2 + ":" + tim;
    msym_assert(msat::xrit::isValid(name), "a shortened name is recognised");
    FileAccess f; f.parse(name);
    msym_assert(f.directory == DIRNAME[d], "directory"); msym_assert(eqstr(f.resolution, res), "resolution"); msym_assert(eqstr(f.productid1, p1), "first product"); msym_assert(eqstr(f.productid2, p2), "second product"); msym_assert(eqstr(f.timing, tim), "time");
    FileAccess g(name); msym_assert(eqstr(g.productid2, p2) && eqstr(g.timing, tim), "constructing and parsing agree"); msym_reach("parsed");
}
// any name at all: either refused with an exception or split into the parts it is made of
ENTRY(any_name)
{
    unsigned n = len("n", 0, THOROUGH ? 7 : 5), seg = len("seg", 0, 1); unsigned char* b = sym_buf(n + 1, "b");
    std::string name((const char*)b, n); delete[] b; int colons = 0; for (char c : name) colons += c == ':';
    if (seg) name += "-C_"; std::string body(name);
    int valid = msat::xrit::isValid(name);
    if (seg || name.size() < 3) msym_assert(valid == (int)seg, "names ending in -C_ are recognised, names under 3 characters are not");
    else { int c = (name[name.size() - 3] == '-') & (name[name.size() - 2] == 'C') & (name[name.size() - 1] == '_'); msym_assert(valid == (c | (colons >= 3)), "names are recognised by -C_ or three colons"); }
    FileAccess f; int ok = 1; try { f.parse(name); } catch (std::runtime_error&) { ok = 0; }
    if (!valid) { msym_assert(!ok, "an unrecognised name is refused"); return; }
    if (!ok) { msym_reach("recognised but refused"); return; }
    size_t slash = name.rfind('/'); std::string base = slash == std::string::npos ? name : name.substr(slash + 1);
    msym_assert(f.directory == (slash == std::string::npos ? "." : slash == 0 ? "/" : name.substr(0, slash)), "directory of any name");
    if (!seg && !(base.size() >= 3 && base.compare(base.size() - 3, 3, "-C_") == 0)) msym_assert(f.resolution + ":" + f.productid1 + ":" + f.productid2 + ":" + f.timing == base, "the parts make up the shortened name");
    msym_reach("parsed");
}
// segment names with empty or underscore-only fields and missing separators
ENTRY(odd_segment_names)
{
    unsigned dashes = len("dashes", 0, 8), kind = len("kind", 0, 2); static const char* const F[] = {"", "_", "___"};
    std::string name = "H"; for (unsigned i = 0; i < dashes; ++i) { name += "-"; name += F[(kind + i) % 3]; }
    name += "-C_"; FileAccess f; int ok = 1; try { f.parse(name); } catch (std::runtime_error&) { ok = 0; }
    msym_assert(ok == (dashes >= 6), "a segment name with too few parts is refused"); if (ok) { msym_assert(f.resolution == "H", "resolution of an odd name"); msym_assert(f.timing.size() <= 1 && f.productid1.size() <= 1 && f.productid2.size() <= 1, "padding is dropped"); if (kind == 1) { msym_assert(f.timing.empty() , "an empty time stays empty"); int threw = 0; try { f.ensureComplete(); } catch (std::runtime_error&) { threw = 1; } msym_assert(threw, "an incomplete name is reported"); } msym_reach("odd name parsed"); }
}
ENTRY(other_channel)
{
    std::string res = field(1, "res"), p1 = field(len("l1", 0, 5), "p1"), p2 = field(3, "p2"), tim = field(4, "time"), ch = field(len("lc", 0, 6), "ch");
    FileAccess a; a.directory = "some/dir"; a.resolution = res; a.productid1 = p1; a.productid2 = p2; a.timing = tim;
    FileAccess b(a, ch), c; c.parse(a, ch); FileAccess* v[] = {&b, &c};
    for (auto x : v) msym_assert(x->directory == a.directory && eqstr(x->resolution, res) && eqstr(x->productid1, p1) && eqstr(x->productid2, ch) && eqstr(x->timing, tim), "another channel differs in the second product only");
    msym_assert(a.toString() == "dir: some/dir res: " + res + " prod1: " + p1 + " prod2: " + p2 + " time: " + tim, "description");
    unsigned missing = (unsigned)msym_range("missing", 0, 31);
    a.productid1 = "x"; if (missing & 1) a.directory = ""; if (missing & 2) a.resolution = ""; if (missing & 4) a.productid1 = ""; if (missing & 8) a.productid2 = ""; if (missing & 16) a.timing = "";
    int threw = 0; try { a.ensureComplete(); } catch (std::runtime_error&) { threw = 1; } msym_assert(threw == (missing != 0), "a name is complete exactly if no part is missing");
}
// ---- which files belong to a product
static std::string word(unsigned n, const char* name)
{
    std::string s(n, 'x'); unsigned char* b = sym_buf(n + 1, name);
    for (unsigned i = 0; i < n; ++i) { unsigned char c = b[i]; msym_assume(((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | (c == '_')); s[i] = (char)c; }
    delete[] b; return s;
}
static FileAccess product(unsigned l1, unsigned l2, unsigned lt, unsigned d)
{
    FileAccess f; f.directory = d ? "data/rx" : "."; f.resolution = word(1, "res"); f.productid1 = word(l1, "p1"); f.productid2 = word(l2, "p2"); f.timing = word(lt, "time"); return f;
}
// does the name follow the HRIT file name convention for this product? kind 0 prologue, 1 epilogue, 2 segment
static int belongs(const std::string& s, const FileAccess& f, int kind)
{
    std::string t = f.directory + "/" + f.resolution + "-???-??????-" + pad(f.productid1, 12) + "-" + (kind == 2 ? pad(f.productid2, 9) : "_________") + "-" + (kind == 0 ? "PRO______" : kind == 1 ? "EPI______" : "0?????___") + "-" + f.timing + (kind == 2 ? "-C_" : "-__");
    if (s.size() != t.size()) return 0; size_t fixed = f.directory.size() + f.resolution.size() + 1; int r = 1;
    for (size_t i = 0; i < s.size(); ++i) { int any = (i >= fixed + 1 && i < fixed + 4) || (i >= fixed + 5 && i < fixed + 11) || (kind == 2 && i > fixed + 35 && i < fixed + 41); r &= any ? s[i] != '/' : s[i] == t[i]; }
    return r;
}
static std::string candidate(size_t n, const FileAccess& f, const char* name) { std::string s = f.directory + "/"; size_t k = s.size(); unsigned char* b = sym_buf(n + 1, name); for (size_t i = 0; i < n; ++i) msym_assume((b[i] != 0) & (b[i] != '/')); s.append((const char*)b, n); (void)k; delete[] b; return s; }
static void one_file(int kind)
{
    unsigned v = len("v", 0, 2); unsigned l1 = v == 0 ? len("l1", 1, 12) : 4, l2 = v == 1 ? len("l2", 1, 9) : 6, lt = v == 2 ? len("lt", 8, 12) : 12, d = len("d", 0, 1);
    FileAccess f = product(l1, l2, lt, d);
    size_t full = f.resolution.size() + 1 + 3 + 1 + 6 + 1 + 12 + 1 + 9 + 1 + 9 + 1 + f.timing.size() + 3;
    std::string a = candidate(full + 1 - len("short", 0, 2), f, "a"); listing.name[0] = a.c_str(); listing.n = 1;
    int own = belongs(a, f, kind), got = 0; std::string r; std::vector<std::string> rs;
    try { if (kind == 2) { rs = f.segmentFiles(); msym_assert(rs.size() == 1, "one segment"); r = rs[0]; } else r = kind ? f.epilogueFile() : f.prologueFile(); got = 1; } catch (std::runtime_error&) {}
    msym_assert(got == own, "a file is found exactly if it follows the naming convention of the product"); if (got) { msym_assert(eqstr(r, a), "path of the file found"); msym_reach("found"); }
}
ENTRY(find_prologue) { one_file(0); }
ENTRY(find_epilogue) { one_file(1); }
ENTRY(find_segment) { one_file(2); }
ENTRY(find_many)
{
    FileAccess f = product(5, 7, 12, 1); int kind = (int)len("kind", 0, 2), n = (int)len("n", 0, 3); std::string s[3]; int own = 0, o[3];
    for (int i = 0; i < n; ++i) { char nm[2] = {(char)('a' + i), 0}; s[i] = candidate(61, f, nm); o[i] = belongs(s[i], f, kind); own += o[i]; listing.name[i] = s[i].c_str(); }
    listing.n = n;
    if (kind == 2) {
        std::vector<std::string> r; int got = 1; try { r = f.segmentFiles(); } catch (std::runtime_error&) { got = 0; }
        msym_assert(got == (own > 0), "segments are found if there are any"); msym_assert((int)r.size() == own, "every segment is found"); size_t k = 0;
        for (int i = 0; i < n; ++i) if (o[i]) { int in = 0; for (auto& x : r) in |= eqstr(x, s[i]); msym_assert(in, "each segment is listed"); ++k; }
    } else {
        std::string r; int got = 1; try { r = kind ? f.epilogueFile() : f.prologueFile(); } catch (std::runtime_error&) { got = 0; }
        msym_assert(got == (own == 1), "a prologue or epilogue is found exactly if there is one candidate"); if (got) for (int i = 0; i < n; ++i) if (o[i]) msym_assert(eqstr(r, s[i]), "the candidate is returned");
    }
    if (own > 1) msym_reach("several"); 
}

// a directory as an archive holds it: every segment of several products at once, under a long path
ENTRY(find_full)
{
    FileAccess f; f.directory = len("deep", 0, 1) ? "/" + std::string(280, 'd') + "/archive" : "/a"; f.resolution = "H"; f.productid1 = "MSG1"; f.timing = "200611141200"; static const char* const CH[] = {"HRV", "VIS006", "IR_108"}; static const unsigned N[] = {24, 8, 260}; unsigned p = len("channel", 0, 2), fault = len("fault", 0, 2); f.productid2 = CH[p]; std::string cell[320]; int n = 0; char d = (char)msym_range("rank", '0', '9');
    for (unsigned c = 0; c < 3; ++c) for (unsigned i = 1; i <= N[c]; ++i) { std::string seg = std::to_string(100000 + i).substr(1); cell[n++] = f.directory + "/H-000-MSG" + d + "__-" + pad("MSG1", 12) + "-" + pad(CH[c], 9) + "-0" + seg + "___-" + f.timing + "-C_"; }
    const char* const KIND[] = {"PRO______", "EPI______"}; for (int k = 0; k < 2; ++k) for (unsigned i = 0; i < (fault == 1u + k ? 2 : 1); ++i) cell[n++] = f.directory + "/H-00" + (char)('0' + i) + "-MSG1__-" + pad("MSG1", 12) + "-_________-" + KIND[k] + "-" + f.timing + "-__";
    for (int i = 0; i < n; ++i) listing.name[i] = cell[i].c_str(); listing.n = n;
    std::vector<std::string> r = f.segmentFiles(); unsigned first = p == 0 ? 0 : p == 1 ? N[0] : N[0] + N[1]; msym_assert(r.size() == N[p], "every segment of the channel"); int same = 1; for (unsigned i = 0; i < N[p]; ++i) { int in = 0; for (unsigned j = 0; j < r.size(); ++j) if (j == i || THOROUGH) in |= eqstr(r[j], cell[first + i]); same &= in; } msym_assert(same, "each once");
    for (int k = 0; k < 2; ++k) { std::string x; int got = 1; try { x = k ? f.epilogueFile() : f.prologueFile(); } catch (std::runtime_error&) { got = 0; } msym_assert(got == (fault != 1u + k), "one prologue and one epilogue"); if (got) msym_assert(x == f.directory + "/H-000-MSG1__-" + pad("MSG1", 12) + "-_________-" + KIND[k] + "-" + f.timing + "-__", "their paths"); }
    FileAccess g(r[0]); msym_assert(g.directory == f.directory && g.resolution == "H" && g.productid1 == "MSG1" && g.productid2 == f.productid2 && g.timing == f.timing, "a path found names the product"); msym_reach("full");
}
