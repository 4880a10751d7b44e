// C++ runtime for the symbolic build: out-of-line members of libstdc++ that the code needs.
#include <new>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <functional>
#include <list>
#include <map>
#include <unordered_map>
#include <string>
#include <system_error>
#include <optional>
#include <variant>
#include <cstring>
#include <cstdlib>
#include <chrono>
#include "dsym.h"
extern "C" void* malloc(size_t);
namespace std {
const nothrow_t nothrow{};
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
type_info::~type_info() {}
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }

__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const std::string& s) : __cow_string(s.data(), s.size()) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
#define EXC(N, B) N::N(const char* s) : B(s) {} N::N(const std::string& s) : B(s) {} N::~N() noexcept {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const std::string& s) : _M_msg(s) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const std::string& s) : _M_msg(s) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system error"); }

// ---- system_error ----
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
error_condition error_code::default_error_condition() const noexcept { return error_condition(value(), category()); }
namespace { struct gencat : error_category { const char* name() const noexcept override { return "generic"; } std::string message(int) const override { return "error"; } }; struct syscat : error_category { const char* name() const noexcept override { return "system"; } std::string message(int) const override { return "error"; } };
}
namespace _V2 { const error_category& generic_category() noexcept { static gencat c; return c; } const error_category& system_category() noexcept { static syscat c; return c; } }
system_error::~system_error() noexcept {}

// ---- list ----
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
    else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
        _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = this->_M_next; _List_node_base* const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
// ---- hashtable policy ----
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t P[] = {1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 47, 59, 73, 97, 127, 151, 197, 251, 313, 397, 499, 631, 797, 1009, 1259, 1597, 2011, 2539, 3203, 4027, 5087, 6421, 8089, 10193};
    for (size_t p : P) if (p >= n) { _M_next_resize = (size_t)(p * (double)_M_max_load_factor); return p; }
    _M_next_resize = n; return n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nbkt, size_t nelt, size_t nins) const {
    if (nelt + nins > _M_next_resize) {
        size_t mb = (nelt + nins) > (_M_next_resize ? 0 : 11) ? nelt + nins : 11; if (!_M_next_resize && mb < 11) mb = 11;
        if (mb >= nbkt) return {true, _M_next_bkt(mb + 1 > nbkt * 2 ? mb + 1 : nbkt * 2)};
        _M_next_resize = nbkt; return {false, 0}; }
    return {false, 0}; }
} // namespace __detail
// hash of bytes: length only.  A valid (if weak) hash function; keeps bucket choice concrete for symbolic contents.
size_t _Hash_bytes(const void*, size_t len, size_t seed) { return (len * 31 + seed) & 0xffff; }
size_t _Fnv_hash_bytes(const void*, size_t len, size_t seed) { return (len * 31 + seed) & 0xffff; }

// ---- red-black tree (textbook algorithm over libstdc++'s node layout) ----
typedef _Rb_tree_node_base* NP; typedef const _Rb_tree_node_base* CNP;
static NP inc(NP x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static NP dec(NP x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
NP _Rb_tree_increment(NP x) throw() { return inc(x); }
CNP _Rb_tree_increment(CNP x) throw() { return inc(const_cast<NP>(x)); }
NP _Rb_tree_decrement(NP x) throw() { return dec(x); }
CNP _Rb_tree_decrement(CNP x) throw() { return dec(const_cast<NP>(x)); }
static void rotl(NP const x, NP& root) { NP const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(NP const x, NP& root) { NP const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base& h) throw() {
    NP& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) { NP const g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) { NP const y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); } }
        else { NP const y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); } } }
    root->_M_color = _S_black; }
NP _Rb_tree_rebalance_for_erase(NP const z, _Rb_tree_node_base& h) throw() {
    NP &root = h._M_parent, &lm = h._M_left, &rm = h._M_right; NP y = z, x = 0, xp = 0;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
    else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { NP t = x; while (t->_M_left) t = t->_M_left; lm = t; } }
        if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { NP t = x; while (t->_M_right) t = t->_M_right; rm = t; } } }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black))
            if (x == xp->_M_left) { NP w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; } }
            else { NP w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; } }
        if (x) x->_M_color = _S_black; }
    return y; }
// ---- chrono: monotone counters ----
namespace chrono { inline namespace _V2 {
static long g_now = 1000000;
system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_now += 1000)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_now += 1000)); }
} }
} // namespace std
template void std::basic_string<char>::_M_replace_cold(char*, size_type, const char*, const size_type, const size_type);
