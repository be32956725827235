// Bitcode models of the C and C++ runtime used by the code under test (everything that lives in
// libc/libstdc++ shared objects and therefore has no bitcode of its own).
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <ctype.h>
#include <dirent.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <fstream>
#include <glob.h>
#include <iostream>
#include <list>
#include <map>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_map>
#include <functional>
#include <ext/stdio_filebuf.h>
extern "C" {
void msym_unsupported(const char*) __attribute__((noreturn));
void msym_error(const char*);
uint64_t msym_concretize(uint64_t);
uint64_t msym_ite(int c, uint64_t a, uint64_t b);
long msym_format_double(char* buf, size_t n, const char* fmt, double v);
double msym_parse_double(const char* text, uint64_t* used);
int msym_is_symbolic(uint64_t);
}

// ------------------------------------------------------------------ exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }

static const char* dupz(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupz("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupz(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupz(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupz(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = dupz(o._M_p, strlen(o._M_p)); return *this; }
__cow_string::~__cow_string() { }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(dupz(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = dupz(o._M_p, strlen(o._M_p)); return *this; }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
domain_error::domain_error(const string& s) : logic_error(s) {}
domain_error::domain_error(const char* s) : logic_error(s) {}
domain_error::~domain_error() noexcept {}
invalid_argument::invalid_argument(const string& s) : logic_error(s) {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
length_error::length_error(const string& s) : logic_error(s) {}
length_error::length_error(const char* s) : logic_error(s) {}
length_error::~length_error() noexcept {}
out_of_range::out_of_range(const string& s) : logic_error(s) {}
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
range_error::range_error(const string& s) : runtime_error(s) {}
range_error::range_error(const char* s) : runtime_error(s) {}
range_error::~range_error() noexcept {}
overflow_error::overflow_error(const string& s) : runtime_error(s) {}
overflow_error::overflow_error(const char* s) : runtime_error(s) {}
overflow_error::~overflow_error() noexcept {}
underflow_error::underflow_error(const string& s) : runtime_error(s) {}
underflow_error::underflow_error(const char* s) : runtime_error(s) {}
underflow_error::~underflow_error() noexcept {}
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_ios_failure(const char* s) { throw ios_base::failure(s); }
void __throw_ios_failure(const char* s, int) { throw ios_base::failure(s); }

// system_error / categories
namespace { struct cat_t : error_category {
    const char* name() const noexcept override { return "generic"; }
    string message(int) const override { return "error"; }
}; }
inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
const error_category& generic_category() noexcept { static cat_t c; return c; }
const error_category& system_category() noexcept { static cat_t c; return c; }
}
system_error::~system_error() noexcept {}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }

ios_base::failure::failure(const string& s) : system_error(error_code(1, generic_category()), s) {}
ios_base::failure::failure(const string& s, const error_code& ec) : system_error(ec, s) {}
ios_base::failure::failure(const char* s, const error_code& ec) : system_error(ec, s) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const noexcept { return "ios_base::failure"; }
}
// typeinfo of fundamental pointer types and the cxxabi typeinfo vtables (identified by name only)
extern "C" {
char _ZTVN10__cxxabiv117__class_type_infoE[64];
char _ZTVN10__cxxabiv120__si_class_type_infoE[64];
char _ZTVN10__cxxabiv121__vmi_class_type_infoE[64];
char _ZTVN10__cxxabiv119__pointer_type_infoE[64];
char _ZTVN10__cxxabiv123__fundamental_type_infoE[64];
char _ZTVN10__cxxabiv120__function_type_infoE[64];
char _ZTVN10__cxxabiv117__array_type_infoE[64];
char _ZTVN10__cxxabiv116__enum_type_infoE[64];
char _ZTVN10__cxxabiv129__pointer_to_member_type_infoE[64];
#define TI_FUND(c) struct { void* v; const char* n; } _ZTI##c = {_ZTVN10__cxxabiv123__fundamental_type_infoE + 16, #c};
#define TI_PTR(c, n_) struct { void* v; const char* n; } n_ = {_ZTVN10__cxxabiv119__pointer_type_infoE + 16, c};
TI_FUND(i) TI_FUND(j) TI_FUND(l) TI_FUND(m) TI_FUND(c) TI_FUND(b) TI_FUND(d) TI_FUND(f) TI_FUND(h) TI_FUND(s) TI_FUND(t)
TI_PTR("PKc", _ZTIPKc) TI_PTR("Pc", _ZTIPc) TI_PTR("Pv", _ZTIPv) TI_PTR("PKv", _ZTIPKv)
char _ZTIN10__cxxabiv115__forced_unwindE[24];
void* __dso_handle;
void __cxa_throw_bad_array_new_length() { std::__throw_bad_array_new_length(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_call_unexpected(void*) { std::terminate(); }
}

// ------------------------------------------------------------------ containers
namespace std {
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
        _List_node_base* const tmp = this->_M_prev;
        this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
    }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = this->_M_next; _List_node_base* const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = 13; while (p < n) p = p * 2 + 3; _M_next_resize = p; return p; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > nb) { size_t want = ne + ni; return {true, _M_next_bkt(want > nb * 2 ? want : nb * 2)}; }
    return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) h = h * 131 + c[i]; return h; }

static _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
static _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rb_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rb_dec(const_cast<_Rb_tree_node_base*>(x)); }
// no rebalancing: an ordered binary tree is all the containers' semantics need
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto leftmost = [](_Rb_tree_node_base* n) { while (n->_M_left) n = n->_M_left; return n; };
    auto rightmost = [](_Rb_tree_node_base* n) { while (n->_M_right) n = n->_M_right; return n; };
    auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
        if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n;
        if (n) n->_M_parent = o->_M_parent; };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = leftmost(z->_M_right);
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (h._M_parent) { h._M_left = leftmost(h._M_parent); h._M_right = rightmost(h._M_parent); }
    else { h._M_left = &h; h._M_right = &h; }
    return z;
}
}

// ------------------------------------------------------------------ locale and iostreams
static int digitval(int c) { if (isdigit(c)) return c - '0'; if (islower(c)) return c - 'a' + 10; if (isupper(c)) return c - 'A' + 10; return 99; }
namespace std {
locale::locale() throw() : _M_impl(0) {}
locale::locale(const locale&) throw() : _M_impl(0) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale&) throw() { return *this; }
bool locale::operator==(const locale&) const throw() { return true; }
const locale& locale::classic() { static locale l; return l; }
locale locale::global(const locale&) { return locale(); }
string locale::name() const { return "C"; }
size_t locale::id::_M_id() const throw() { return 0; }
locale::facet::~facet() {}
locale::id ctype<char>::id;
locale::id codecvt<char, char, mbstate_t>::id;

ctype<char>::ctype(const mask*, bool, size_t refs) : facet(refs), _M_c_locale_ctype(0), _M_del(false), _M_toupper(0), _M_tolower(0), _M_table(*__ctype_b_loc()) { memset(_M_widen, 0, sizeof _M_widen); _M_widen_ok = 0; memset(_M_narrow, 0, sizeof _M_narrow); _M_narrow_ok = 0; }
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (char)::toupper((unsigned char)c); }
const char* ctype<char>::do_toupper(char* lo, const char* hi) const { for (; lo < hi; ++lo) *lo = do_toupper(*lo); return hi; }
char ctype<char>::do_tolower(char c) const { return (char)::tolower((unsigned char)c); }
const char* ctype<char>::do_tolower(char* lo, const char* hi) const { for (; lo < hi; ++lo) *lo = do_tolower(*lo); return hi; }
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; ++i) _M_widen[i] = (char)i; _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { }
template<> bool has_facet<ctype<char>>(const locale&) throw() { return true; }
template<> const ctype<char>& use_facet<ctype<char>>(const locale&) { struct X : ctype<char> {}; static X c; return c; }
template<> bool has_facet<codecvt<char, char, mbstate_t>>(const locale&) throw() { return true; }
codecvt<char, char, mbstate_t>::codecvt(size_t refs) : __codecvt_abstract_base<char, char, mbstate_t>(refs), _M_c_locale_codecvt(0) {}
codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(state_type&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(state_type&, char* t, char*, char*& tn) const { tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(state_type&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; }
bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; }
int codecvt<char, char, mbstate_t>::do_length(state_type&, const char* f, const char* e, size_t m) const { size_t d = e - f; return (int)(d < m ? d : m); }
int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }
template<> const codecvt<char, char, mbstate_t>& use_facet<codecvt<char, char, mbstate_t>>(const locale&) { struct X : codecvt<char, char, mbstate_t> {}; static X c; return c; }

template<> const ctype<char>* __try_use_facet<ctype<char>>(const locale& l) noexcept { return &use_facet<ctype<char>>(l); }
template<> const codecvt<char, char, mbstate_t>* __try_use_facet<codecvt<char, char, mbstate_t>>(const locale& l) noexcept { return &use_facet<codecvt<char, char, mbstate_t>>(l); }
// the classic locale has every facet; numeric facets are never reached (see _M_insert/_M_extract below)
template<> void basic_ios<char>::_M_cache_locale(const locale& l) { _M_ctype = &use_facet<ctype<char>>(l); _M_num_put = 0; _M_num_get = 0; }

ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
locale ios_base::imbue(const locale&) throw() { return locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
void ios_base::register_callback(event_callback, int) {}
bool ios_base::sync_with_stdio(bool) { return true; }
ios_base::_Words& ios_base::_M_grow_words(int, bool) { return _M_word_zero; }
void ios_base_library_init() {}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}

struct nullbuf : streambuf {
    int overflow(int c) override { return c == -1 ? 0 : c; }
    streamsize xsputn(const char*, streamsize n) override { return n; }
};
static nullbuf* the_null;
static bool silent(ostream& o) { return o.rdbuf() == the_null; }
static ostream& emit(ostream& o, const char* s, streamsize n) {
    ostream::sentry g(o);
    if (g) {
        streamsize w = o.width(); bool left = (o.flags() & ios_base::adjustfield) == ios_base::left; char f = o.fill();
        bool ok = true;
        if (!left) for (streamsize i = n; i < w; ++i) ok = ok & (o.rdbuf()->sputc(f) != -1);
        ok = ok & (o.rdbuf()->sputn(s, n) == n);
        if (left) for (streamsize i = n; i < w; ++i) ok = ok & (o.rdbuf()->sputc(f) != -1);
        o.width(0);
        if (!ok) o.setstate(ios_base::badbit);
    }
    return o;
}
template<> ostream& __ostream_insert(ostream& o, const char* s, streamsize n) { if (silent(o)) return o; return emit(o, s, n); }
static ostream& putint(ostream& o, unsigned long long v, bool neg, bool sgn) {
    char t[72]; int n = 72; ios_base::fmtflags fl = o.flags(); unsigned base = 10; bool up = fl & ios_base::uppercase;
    if ((fl & ios_base::basefield) == ios_base::hex) base = 16; else if ((fl & ios_base::basefield) == ios_base::oct) base = 8;
    if (base != 10 && neg) { v = 0 - v; neg = false; }
    do { unsigned d = (unsigned)(v % base); t[--n] = (char)msym_ite(d < 10, '0' + d, (up ? 'A' : 'a') + d - 10); v /= base; } while (v);
    if (base == 16 && (fl & ios_base::showbase)) { t[--n] = up ? 'X' : 'x'; t[--n] = '0'; }
    if (neg) t[--n] = '-'; else if (sgn && base == 10 && (fl & ios_base::showpos)) t[--n] = '+';
    if ((fl & ios_base::adjustfield) == ios_base::internal && o.width() > 72 - n) msym_unsupported("internal adjust");
    return emit(o, t + n, 72 - n);
}
template<> template<> ostream& ostream::_M_insert(long v) { if (silent(*this)) return *this; return putint(*this, v < 0 ? 0ULL - (unsigned long long)v : v, v < 0, true); }
template<> template<> ostream& ostream::_M_insert(unsigned long v) { if (silent(*this)) return *this; return putint(*this, v, false, false); }
template<> template<> ostream& ostream::_M_insert(long long v) { if (silent(*this)) return *this; return putint(*this, v < 0 ? 0ULL - (unsigned long long)v : v, v < 0, true); }
template<> template<> ostream& ostream::_M_insert(unsigned long long v) { if (silent(*this)) return *this; return putint(*this, v, false, false); }
template<> template<> ostream& ostream::_M_insert(bool v) { if (silent(*this)) return *this; if (flags() & ios_base::boolalpha) return emit(*this, v ? "true" : "false", v ? 4 : 5); return putint(*this, v, false, false); }
template<> template<> ostream& ostream::_M_insert(const void* v) { if (silent(*this)) return *this; return putint(*this, (unsigned long long)v, false, false); }
template<> template<> ostream& ostream::_M_insert(double v) {
    if (silent(*this)) return *this;
    char f[16]; int k = 0; ios_base::fmtflags fl = flags();
    f[k++] = '%'; if (fl & ios_base::showpos) f[k++] = '+'; if (fl & ios_base::showpoint) f[k++] = '#';
    streamsize p = precision(); 
    f[k++] = '.'; if (p >= 10) f[k++] = (char)('0' + p / 10 % 10); f[k++] = (char)('0' + p % 10);
    ios_base::fmtflags ff = fl & ios_base::floatfield; bool up = fl & ios_base::uppercase;
    f[k++] = ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? (up ? 'E' : 'e') : (up ? 'G' : 'g'); f[k] = 0;
    char t[400]; long n = msym_format_double(t, sizeof t, f, v);
    return emit(*this, t, n);
}
// input: skip blanks, collect a token, parse
static int peekc(istream& i) { return i.rdbuf()->sgetc(); }
template<class T> static istream& getint(istream& is, T& out, bool sg, unsigned long long maxpos, unsigned long long maxneg) {
    istream::sentry g(is, false);
    if (!g) return is;
    ios_base::iostate st = ios_base::goodbit;
    bool neg = false, any = false, ovf = false; unsigned long long v = 0;
    unsigned base = 10; ios_base::fmtflags b = is.flags() & ios_base::basefield; if (b == ios_base::hex) base = 16; else if (b == ios_base::oct) base = 8; else if (b == 0) msym_unsupported("base 0 extraction");
    int c = peekc(is);
    if (c == '+' || c == '-') { neg = c == '-'; c = is.rdbuf()->snextc(); }
    for (;;) {
        if (c == -1) { st |= ios_base::eofbit; break; }
        int d = digitval(c); if (d >= (int)base) break;
        any = true; if (v > (~0ULL - d) / base) ovf = true; v = v * base + d;
        c = is.rdbuf()->snextc();
    }
    if (!any) { out = 0; st |= ios_base::failbit; }
    else if (ovf || v > (neg ? maxneg : maxpos)) { out = (T)(neg && sg ? 0 - maxneg : maxpos); st |= ios_base::failbit; }
    else out = (T)(neg ? 0 - v : v);
    if (st) is.setstate(st);
    return is;
}
template<> template<> istream& istream::_M_extract(long& v) { return getint(*this, v, true, INT64_MAX, 1ULL << 63); }
template<> template<> istream& istream::_M_extract(unsigned long& v) { return getint(*this, v, false, ~0ULL, ~0ULL); }
template<> template<> istream& istream::_M_extract(long long& v) { return getint(*this, v, true, INT64_MAX, 1ULL << 63); }
template<> template<> istream& istream::_M_extract(unsigned long long& v) { return getint(*this, v, false, ~0ULL, ~0ULL); }
template<> template<> istream& istream::_M_extract(unsigned int& v) { return getint(*this, v, false, UINT32_MAX, UINT32_MAX); }
template<> template<> istream& istream::_M_extract(unsigned short& v) { return getint(*this, v, false, UINT16_MAX, UINT16_MAX); }
template<> istream& istream::operator>>(int& v) { return getint(*this, v, true, INT32_MAX, 1ULL << 31); }
template<> istream& istream::operator>>(short& v) { return getint(*this, v, true, INT16_MAX, 1ULL << 15); }
static istream& getdbl(istream& is, double& v) {
    istream::sentry g(is, false); if (!g) return is;
    char t[64]; int n = 0; int c = peekc(is);
    while (c != -1 && n < 63 && (isdigit(c) || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E')) { t[n++] = (char)c; c = is.rdbuf()->snextc(); }
    t[n] = 0; uint64_t used = 0; v = n ? msym_parse_double(t, &used) : 0;
    ios_base::iostate st = ios_base::goodbit; if (c == -1) st |= ios_base::eofbit; if (!n || used != (uint64_t)n) st |= ios_base::failbit;
    if (st) is.setstate(st);
    return is;
}
template<> template<> istream& istream::_M_extract(double& v) { return getdbl(*this, v); }
template<> template<> istream& istream::_M_extract(float& v) { double d = 0; getdbl(*this, d); v = (float)d; return *this; }
template<> istream& getline(istream& is, string& s, char delim) {
    s.clear(); istream::sentry g(is, true); if (!g) return is;
    bool any = false; ios_base::iostate st = ios_base::goodbit;
    for (int c = peekc(is);; c = is.rdbuf()->snextc()) { if (c == -1) { st |= ios_base::eofbit; break; } any = true; if ((char)c == delim) { is.rdbuf()->sbumpc(); break; } s.push_back((char)c); }
    if (!any) st |= ios_base::failbit;
    if (st) is.setstate(st);
    return is;
}
template<> istream& operator>>(istream& is, string& s) {
    istream::sentry g(is, false); if (!g) return is;
    s.clear(); ios_base::iostate st = ios_base::goodbit; streamsize w = is.width();
    for (int c = peekc(is);; c = is.rdbuf()->snextc()) { if (c == -1) { st |= ios_base::eofbit; break; } if (isspace(c) || (w > 0 && (streamsize)s.size() >= w)) break; s.push_back((char)c); }
    is.width(0); if (s.empty()) st |= ios_base::failbit;
    if (st) is.setstate(st);
    return is;
}
template<> istream& istream::getline(char* p, streamsize n, char delim) {
    _M_gcount = 0; istream::sentry g(*this, true); streamsize i = 0; ios_base::iostate st = ios_base::goodbit;
    if (g) for (int c = peekc(*this);; c = rdbuf()->snextc()) { if (c == -1) { st |= ios_base::eofbit; break; } if ((char)c == delim) { rdbuf()->sbumpc(); ++_M_gcount; break; } if (i + 1 >= n) { st |= ios_base::failbit; break; } p[i++] = (char)c; ++_M_gcount; }
    if (n > 0) p[i] = 0;
    if (!_M_gcount) st |= ios_base::failbit;
    if (st) setstate(st);
    return *this;
}
template<> istream& istream::ignore(streamsize n, int_type delim) {
    _M_gcount = 0; istream::sentry g(*this, true); if (!g) return *this;
    for (int c = peekc(*this); _M_gcount < n; c = rdbuf()->snextc()) { if (c == -1) { setstate(ios_base::eofbit); break; } ++_M_gcount; if (c == delim) { rdbuf()->sbumpc(); break; } }
    return *this;
}
template<> istream& istream::ignore(streamsize n) { return ignore(n, -1 - 1000); }

// files
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(0), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
bool __basic_file<char>::is_open() const throw() { return _M_cfile != 0; }
__basic_file<char>* __basic_file<char>::open(const char* n, ios_base::openmode m, int) {
    const char* md = 0;
    bool in = m & ios_base::in, out = m & ios_base::out, tr = m & ios_base::trunc, app = m & ios_base::app;
    if (out && !in && !app) md = "w"; else if (in && !out && !tr && !app) md = "r"; else if (app && !in) md = "a"; else if (in && out && tr) md = "w+"; else if (in && out && app) md = "a+"; else if (in && out) md = "r+";
    if (!md || is_open()) return 0;
    _M_cfile = (__c_file*)fopen64(n, md);
    if (!_M_cfile) return 0;
    _M_cfile_created = true; return this;
}
__basic_file<char>* __basic_file<char>::close() { if (!_M_cfile) return 0; fclose((FILE*)_M_cfile); _M_cfile = 0; return this; }
streamsize __basic_file<char>::xsgetn(char* s, streamsize n) { return (streamsize)fread(s, 1, n, (FILE*)_M_cfile); }
streamsize __basic_file<char>::xsputn(const char* s, streamsize n) { return (streamsize)fwrite(s, 1, n, (FILE*)_M_cfile); }
streamsize __basic_file<char>::xsputn_2(const char* a, streamsize an, const char* b, streamsize bn) { return xsputn(a, an) + xsputn(b, bn); }
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() { return fseek((FILE*)_M_cfile, o, w == ios_base::beg ? 0 : w == ios_base::cur ? 1 : 2) ? -1 : ftell((FILE*)_M_cfile); }
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { FILE* f = (FILE*)_M_cfile; long p = ftell(f); fseek(f, 0, 2); long e = ftell(f); fseek(f, p, 0); return e - p; }
}
namespace { using OS = std::ostream; using IS = std::istream; }
#define OBJ(n, sym, T) alignas(16) char n[sizeof(T)] __asm__(sym);
OBJ(m_cout, "_ZSt4cout", OS) OBJ(m_cerr, "_ZSt4cerr", OS) OBJ(m_clog, "_ZSt4clog", OS) OBJ(m_cin, "_ZSt3cin", IS)
__attribute__((constructor(101))) static void init_streams() {
    alignas(std::nullbuf) static char nb[sizeof(std::nullbuf)];
    std::the_null = new (nb) std::nullbuf;
    new (m_cout) OS(std::the_null); new (m_cerr) OS(std::the_null); new (m_clog) OS(std::the_null); new (m_cin) IS(std::the_null);
}
