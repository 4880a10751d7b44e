#include "symengine/_shim.h"
#include "../rt/dsym.h"
namespace SymEngine {
typedef RCP<const Basic> B;
#define X(T) void T::accept(Visitor& v) const { v.visit(*this); }
SHIM_ALL(X)
#undef X
RCP<const Integer> zero = make_rcp<const Integer>(0), one = make_rcp<const Integer>(1), minus_one = make_rcp<const Integer>(-1), two = make_rcp<const Integer>(2);
RCP<const Infty> Inf = make_rcp<const Infty>(1), NegInf = make_rcp<const Infty>(-1), ComplexInf = make_rcp<const Infty>(0);
RCP<const NaN> Nan = make_rcp<const NaN>(); RCP<const Constant> E = make_rcp<const Constant>("E"), pi = make_rcp<const Constant>("pi");
RCP<const BooleanAtom> boolTrue = make_rcp<const BooleanAtom>(true), boolFalse = make_rcp<const BooleanAtom>(false);
RCP<const Integer> integer(int64_t i) { return make_rcp<const Integer>(i); }
RCP<const Symbol> symbol(const std::string& n) { return make_rcp<const Symbol>(n); }
RCP<const RealDouble> real_double(double d) { return make_rcp<const RealDouble>(d); }
RCP<const Integer> Rational::get_num() const { return integer(n); } RCP<const Integer> Rational::get_den() const { return integer(d); }
// ---- numbers: arbitrary precision is outside the model, so a path on which a constant leaves 64 bits ends
static int64_t ck(bool ov, int64_t v) { if (ov) dsym_end(); return v; }
static int64_t iadd(int64_t a, int64_t b) { int64_t r; bool o = __builtin_add_overflow(a, b, &r); return ck(o, r); }
static int64_t imul(int64_t a, int64_t b) { int64_t r; bool o = __builtin_mul_overflow(a, b, &r); return ck(o, r); }
static int64_t gcd(int64_t a, int64_t b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { int64_t t = a % b; a = b; b = t; } return a; }
RCP<const Number> rational(long n, long d) { if (d == 0) { if (n == 0) return Nan; return ComplexInf; } if (d == 1) return integer(n); if (d < 0) { n = -n; d = -d; } int64_t g = gcd(n, d); if (g > 1) { n /= g; d /= g; } if (d == 1) return integer(n); return make_rcp<const Rational>(n, d); }
static bool isInt(const Basic& b) { return is_a<Integer>(b); }
static bool isBig(const Basic& b) { return isInt(b) && static_cast<const Integer&>(b).big(); }
static int64_t iv(const Basic& b) { auto& i = static_cast<const Integer&>(b); if (i.big()) dsym_end(); return i.raw(); }
Expression::Expression(const std::string& s) : b_(parse(s)) {}
// slow path for constants beyond 64 bits
static void trim(Big& b) { while (!b.m.empty() && !b.m.back()) b.m.pop_back(); }
static Big toBig(const Basic& x) { auto& i = static_cast<const Integer&>(x); if (i.big()) return *i.big(); Big b; b.neg = i.raw() < 0; uint64_t u = b.neg ? 0 - (uint64_t)i.raw() : (uint64_t)i.raw(); b.m = {(uint32_t)u, (uint32_t)(u >> 32)}; trim(b); return b; }
static int magcmp(const Big& a, const Big& b) { if (a.m.size() != b.m.size()) return a.m.size() < b.m.size() ? -1 : 1; for (size_t i = a.m.size(); i-- > 0;) if (a.m[i] != b.m[i]) return a.m[i] < b.m[i] ? -1 : 1; return 0; }
static RCP<const Integer> fromBig(Big b) { trim(b); if (b.m.size() <= 2) { uint64_t u = 0; for (size_t i = 0; i < b.m.size(); i++) u |= (uint64_t)b.m[i] << (32 * i); if (u <= (uint64_t)INT64_MAX) return integer(b.neg ? -(int64_t)u : (int64_t)u); if (b.neg && u == (uint64_t)INT64_MAX + 1) return integer(INT64_MIN); } if (b.m.size() > 64) dsym_end(); return make_rcp<const Integer>(b); }
static Big magadd(const Big& a, const Big& b) { Big r; uint64_t c = 0; for (size_t i = 0; i < std::max(a.m.size(), b.m.size()) || c; i++) { c += (i < a.m.size() ? a.m[i] : 0) + (uint64_t)(i < b.m.size() ? b.m[i] : 0); r.m.push_back((uint32_t)c); c >>= 32; } return r; }
static Big magsub(const Big& a, const Big& b) { Big r; int64_t c = 0; for (size_t i = 0; i < a.m.size(); i++) { c += (int64_t)a.m[i] - (int64_t)(i < b.m.size() ? b.m[i] : 0); r.m.push_back((uint32_t)c); c >>= 32; } trim(r); return r; }
static RCP<const Integer> bigadd(const Basic& x, const Basic& y) { Big a = toBig(x), b = toBig(y), r; if (a.neg == b.neg) { r = magadd(a, b); r.neg = a.neg; } else if (magcmp(a, b) >= 0) { r = magsub(a, b); r.neg = a.neg; } else { r = magsub(b, a); r.neg = b.neg; } return fromBig(r); }
static RCP<const Integer> bigmul(const Basic& x, const Basic& y) { Big a = toBig(x), b = toBig(y), r; r.m.assign(a.m.size() + b.m.size(), 0); for (size_t i = 0; i < a.m.size(); i++) { uint64_t c = 0; for (size_t j = 0; j < b.m.size() || c; j++) { c += r.m[i + j] + (j < b.m.size() ? (uint64_t)a.m[i] * b.m[j] : 0); r.m[i + j] = (uint32_t)c; c >>= 32; } } r.neg = a.neg != b.neg; return fromBig(r); }
static int icmp(const Basic& x, const Basic& y) { auto &i = static_cast<const Integer&>(x), &j = static_cast<const Integer&>(y); if (!i.big() && !j.big()) return i.raw() < j.raw() ? -1 : i.raw() > j.raw(); Big a = toBig(x), b = toBig(y); if (a.neg != b.neg) return a.neg ? -1 : 1; int c = magcmp(a, b); return a.neg ? -c : c; }
static std::string istr(const Basic& x) { auto& i = static_cast<const Integer&>(x); if (!i.big()) return std::to_string(i.raw()); Big b = toBig(x); std::string s; while (!b.m.empty()) { uint64_t r = 0; for (size_t k = b.m.size(); k-- > 0;) { r = (r << 32) | b.m[k]; b.m[k] = (uint32_t)(r / 10); r %= 10; } s.insert(s.begin(), '0' + (char)r); trim(b); } return (toBig(x).neg ? "-" : "") + s; }
static void nd(const Basic& b, int64_t& n, int64_t& d) { if (isInt(b)) { n = iv(b); d = 1; } else { auto& r = static_cast<const Rational&>(b); n = r.n; d = r.d; } }
static double dv(const Basic& b) { if (is_a<RealDouble>(b)) return static_cast<const RealDouble&>(b).i; int64_t n, d; nd(b, n, d); return (double)n / (double)d; }
typedef RCP<const Number> N;
static N addnum(const N& a, const N& b) {
    if (isInt(*a) && isInt(*b)) { if (isBig(*a) || isBig(*b)) return bigadd(*a, *b); int64_t r; if (__builtin_add_overflow(iv(*a), iv(*b), &r)) return bigadd(*a, *b); return integer(r); }
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return Nan;
    if (is_a<Infty>(*a)) { if (is_a<Infty>(*b) && !eq(*a, *b)) return Nan; return a; } if (is_a<Infty>(*b)) return b;
    if (is_a<RealDouble>(*a) || is_a<RealDouble>(*b)) return real_double(dv(*a) + dv(*b));
    int64_t n, d, m, e; nd(*a, n, d); nd(*b, m, e); return rational(iadd(imul(n, e), imul(m, d)), imul(d, e)); }
static int sgn(const N& a) { return a->is_negative() ? -1 : a->is_positive() ? 1 : 0; }
static N mulnum(const N& a, const N& b) {
    if (isInt(*a) && isInt(*b)) { if (isBig(*a) || isBig(*b)) return bigmul(*a, *b); int64_t r; if (__builtin_mul_overflow(iv(*a), iv(*b), &r)) return bigmul(*a, *b); return integer(r); }
    if (is_a<NaN>(*a) || is_a<NaN>(*b)) return Nan;
    if (is_a<Infty>(*a) || is_a<Infty>(*b)) { int s = sgn(a) * sgn(b); if (a->is_zero() || b->is_zero()) return Nan; return s > 0 ? Inf : s < 0 ? NegInf : ComplexInf; }
    if (is_a<RealDouble>(*a) || is_a<RealDouble>(*b)) return real_double(dv(*a) * dv(*b));
    int64_t n, d, m, e; nd(*a, n, d); nd(*b, m, e); return rational(imul(n, m), imul(d, e)); }
static N pownum(const N& a, int64_t k) {
    if (k == 0) return one;
    if (is_a<NaN>(*a)) return a; if (is_a<Infty>(*a)) { if (k < 0) return zero; int d = static_cast<const Infty&>(*a).dir(); return d > 0 || k % 2 == 0 ? Inf : NegInf; }
    N b = a; if (k < 0) { if (is_a<RealDouble>(*a)) b = real_double(1.0 / dv(*a)); else { int64_t n, d; nd(*a, n, d); b = rational(d, n); } k = -k; }
    if (k > 64 && isInt(*b) && (isBig(*b) || !(iv(*b) >= -1 && iv(*b) <= 1))) dsym_end();
    N r = one; if (k > 64) { k = 2 + k % 2; } for (int64_t i = 0; i < k; i++) r = mulnum(r, b); return r; }
static int numcmp(const N& a, const N& b) { // -1, 0, 1; infinities allowed
    if (isInt(*a) && isInt(*b)) return icmp(*a, *b);
    if (is_a<Infty>(*a)) { int d = static_cast<const Infty&>(*a).dir(); if (is_a<Infty>(*b)) { int e = static_cast<const Infty&>(*b).dir(); return d < e ? -1 : d > e; } return d; }
    if (is_a<Infty>(*b)) return -static_cast<const Infty&>(*b).dir();
    if (is_a<RealDouble>(*a) || is_a<RealDouble>(*b)) return dv(*a) < dv(*b) ? -1 : dv(*a) > dv(*b);
    int64_t n, d, m, e; nd(*a, n, d); nd(*b, m, e); int64_t l = imul(n, e), r = imul(m, d); return l < r ? -1 : l > r; }
// ---- structural order, equality, hash
static int scmp(const std::string& a, const std::string& b) { int c = a.compare(b); return c < 0 ? -1 : c > 0; }
static int cmpv(const vec_basic& a, const vec_basic& b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; for (size_t i = 0; i < a.size(); i++) if (int c = a[i]->__cmp__(*b[i])) return c; return 0; }
template<class M> static int cmpd(const M& a, const M& b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j) { if (int c = i->first->__cmp__(*j->first)) return c; if (int c = i->second->__cmp__(*j->second)) return c; } return 0; }
int Basic::__cmp__(const Basic& o) const {
    if (this == &o) return 0; if (type_code_ != o.type_code_) return type_code_ < o.type_code_ ? -1 : 1;
    switch (type_code_) {
    case SYMENGINE_INTEGER: return icmp(*this, o);
    case SYMENGINE_RATIONAL: { auto &a = static_cast<const Rational&>(*this), &b = static_cast<const Rational&>(o); if (a.d != b.d) return a.d < b.d ? -1 : 1; return a.n < b.n ? -1 : a.n > b.n; }
    case SYMENGINE_INFTY: { int a = static_cast<const Infty&>(*this).dir(), b = static_cast<const Infty&>(o).dir(); return a < b ? -1 : a > b; }
    case SYMENGINE_NOT_A_NUMBER: return 0;
    case SYMENGINE_REAL_DOUBLE: { double a = dv(*this), b = dv(o); return a < b ? -1 : a > b; }
    case SYMENGINE_SYMBOL: return scmp(static_cast<const Symbol&>(*this).get_name(), static_cast<const Symbol&>(o).get_name());
    case SYMENGINE_CONSTANT: return scmp(static_cast<const Constant&>(*this).get_name(), static_cast<const Constant&>(o).get_name());
    case SYMENGINE_BOOLEAN_ATOM: { int a = static_cast<const BooleanAtom&>(*this).get_val(), b = static_cast<const BooleanAtom&>(o).get_val(); return a - b; }
    case SYMENGINE_ADD: { auto &a = static_cast<const Add&>(*this), &b = static_cast<const Add&>(o); if (int c = cmpd(a.get_dict(), b.get_dict())) return c; return a.get_coef()->__cmp__(*b.get_coef()); }
    case SYMENGINE_MUL: { auto &a = static_cast<const Mul&>(*this), &b = static_cast<const Mul&>(o); if (int c = cmpd(a.get_dict(), b.get_dict())) return c; return a.get_coef()->__cmp__(*b.get_coef()); }
    case SYMENGINE_FUNCTIONSYMBOL: if (int c = scmp(static_cast<const FunctionSymbol&>(*this).get_name(), static_cast<const FunctionSymbol&>(o).get_name())) return c; return cmpv(get_args(), o.get_args());
    default: return cmpv(get_args(), o.get_args()); } }
bool Basic::__eq__(const Basic& o) const { return __cmp__(o) == 0; }
hash_t Basic::hash() const { hash_t h = type_code_ * 0x9e3779b97f4a7c15ull + 1; auto mixs = [&](const std::string& s) { for (char c : s) h = h * 131 + (unsigned char)c; };
    if (is_a<Symbol>(*this)) mixs(static_cast<const Symbol&>(*this).get_name()); else if (is_a<FunctionSymbol>(*this)) mixs(static_cast<const FunctionSymbol&>(*this).get_name());
    hash_t s = 0; if (is_a<Add>(*this)) for (auto& p : static_cast<const Add&>(*this).get_dict()) s += p.first->hash(); else if (is_a<Mul>(*this)) for (auto& p : static_cast<const Mul&>(*this).get_dict()) s += p.first->hash(); else for (auto& a : get_args()) s = s * 31 + a->hash(); return h ^ (s * 0xff51afd7ed558ccdull); }
static bool rev() { static const bool r = dsym_cfg("rev", 0); return r; }
bool RCPBasicKeyLess::operator()(const B& a, const B& b) const { int c = a->__cmp__(*b); return rev() ? c > 0 : c < 0; }
size_t RCPBasicHash::operator()(const B& a) const { return a->hash(); }
bool RCPBasicKeyEq::operator()(const B& a, const B& b) const { return a->__eq__(*b); }
// ---- sums and products
vec_basic Add::get_args() const { vec_basic r; if (!coef_->is_zero()) r.push_back(coef_); for (auto& p : dict_) { if (p.second->is_one()) r.push_back(p.first); else r.push_back(is_a<Add>(*p.first) ? B(make_rcp<const Mul>(p.second, map_basic_basic{{p.first, one}})) : mul(p.second, p.first)); } return r; }
vec_basic Mul::get_args() const { vec_basic r; if (!coef_->is_one()) r.push_back(coef_); for (auto& p : dict_) r.push_back(eq(*p.second, *one) ? p.first : B(make_rcp<const Pow>(p.first, p.second))); return r; }
static B mulFrom(const N& c, map_basic_basic&& d) {
    if (c->is_zero()) return c; if (d.empty()) return c;
    if (d.size() == 1 && c->is_one()) { auto p = d.begin(); if (eq(*p->second, *one)) return p->first; return make_rcp<const Pow>(p->first, p->second); }
    return make_rcp<const Mul>(c, std::move(d)); }
static void dadd(umap_basic_num& d, const N& c, const B& t) { auto it = d.find(t); if (it == d.end()) { if (!c->is_zero()) d[t] = c; } else { N s = addnum(it->second, c); if (s->is_zero()) d.erase(it); else it->second = s; } }
static void addTerm(N& coef, umap_basic_num& d, const N& c, const B& t) {
    if (is_a_Number(*t)) { coef = addnum(coef, mulnum(c, rcp_static_cast<const Number>(t))); return; }
    if (is_a<Add>(*t)) { auto& a = static_cast<const Add&>(*t); if (c->is_one()) { for (auto& p : a.get_dict()) dadd(d, p.second, p.first); coef = addnum(coef, a.get_coef()); } else dadd(d, c, t); return; }
    if (is_a<Mul>(*t)) { auto& m = static_cast<const Mul&>(*t); if (!m.get_coef()->is_one()) { map_basic_basic q = m.get_dict(); B u = mulFrom(one, std::move(q)); N k = mulnum(c, m.get_coef()); if (is_a<Add>(*u) && k->is_one()) addTerm(coef, d, k, u); else dadd(d, k, u); return; } }
    dadd(d, c, t); }
static B addFrom(const N& c, umap_basic_num&& d) {
    if (is_a<NaN>(*c)) return c;
    if (d.empty()) return c;
    if (d.size() == 1 && c->is_zero()) { auto p = d.begin(); if (p->second->is_one()) return p->first; if (is_a<Mul>(*p->first)) { map_basic_basic q = static_cast<const Mul&>(*p->first).get_dict(); return mulFrom(p->second, std::move(q)); }
        if (is_a<Pow>(*p->first)) { auto& w = static_cast<const Pow&>(*p->first); return make_rcp<const Mul>(p->second, map_basic_basic{{w.get_base(), w.get_exp()}}); }
        return make_rcp<const Mul>(p->second, map_basic_basic{{p->first, one}}); }
    return make_rcp<const Add>(c, std::move(d)); }
static void noBool(const B& a) { if (is_a_Boolean(*a)) throw SymEngineException("Boolean objects not allowed in this context."); }
B add(const vec_basic& v) { N c = zero; umap_basic_num d; for (auto& a : v) { noBool(a); addTerm(c, d, one, a); } return addFrom(c, std::move(d)); }
B add(const B& a, const B& b) { return add(vec_basic{a, b}); }
static void mulTerm(N& c, map_basic_basic& d, const B& t, const B& e);
static void mulPut(N& c, map_basic_basic& d, const B& b, const B& e) {
    auto it = d.find(b); if (it == d.end()) { if (!(is_a_Number(*e) && static_cast<const Number&>(*e).is_zero())) d[b] = e; return; }
    B s = add(it->second, e); d.erase(it); if (is_a_Number(*s) && static_cast<const Number&>(*s).is_zero()) return;
    if (is_a_Number(*b) && isInt(*s)) { c = mulnum(c, pownum(rcp_static_cast<const Number>(b), iv(*s))); return; } d[b] = s; }
static void mulTerm(N& c, map_basic_basic& d, const B& t, const B& e) {
    if (is_a_Number(*t) && isInt(*e)) { c = mulnum(c, pownum(rcp_static_cast<const Number>(t), iv(*e))); return; }
    if (is_a<Mul>(*t) && isInt(*e)) { auto& m = static_cast<const Mul&>(*t); c = mulnum(c, pownum(m.get_coef(), iv(*e))); for (auto& p : m.get_dict()) mulPut(c, d, p.first, mul(p.second, e)); return; }
    if (is_a<Pow>(*t) && isInt(*e)) { auto& p = static_cast<const Pow&>(*t); mulPut(c, d, p.get_base(), mul(p.get_exp(), e)); return; }
    mulPut(c, d, t, e); }
B mul(const vec_basic& v) { N c = one; map_basic_basic d; for (auto& a : v) { noBool(a); mulTerm(c, d, a, one); } return mulFrom(c, std::move(d)); }
B mul(const B& a, const B& b) { return mul(vec_basic{a, b}); }
B neg(const B& a) { return mul(minus_one, a); }
B sub(const B& a, const B& b) { return add(a, neg(b)); }
B div(const B& a, const B& b) { if (is_a_Number(*b) && static_cast<const Number&>(*b).is_zero()) { if (is_a_Number(*a) && static_cast<const Number&>(*a).is_zero()) return Nan; return ComplexInf; } return mul(a, pow(b, minus_one)); }
B pow(const B& a, const B& b) { noBool(a); noBool(b);
    if (is_a_Number(*b) && static_cast<const Number&>(*b).is_zero()) return one; if (eq(*b, *one)) return a;
    if (is_a_Number(*a) && static_cast<const Number&>(*a).is_zero()) { if (is_a_Number(*b)) { if (static_cast<const Number&>(*b).is_negative()) return ComplexInf; return zero; } return make_rcp<const Pow>(a, b); }
    if (is_a_Number(*a) && static_cast<const Number&>(*a).is_one() && !is_a_Number(*b)) return one;
    if (isInt(*b)) { if (is_a_Number(*a)) return pownum(rcp_static_cast<const Number>(a), iv(*b)); N c = one; map_basic_basic d; if (is_a<Mul>(*a) || is_a<Pow>(*a)) { mulTerm(c, d, a, b); return mulFrom(c, std::move(d)); } }
    if (is_a_Number(*a) && is_a<RealDouble>(*b)) throw NotImplementedError("real powers");
    return make_rcp<const Pow>(a, b); }
B exp(const B& a) { return pow(E, a); }
// ---- functions
static B extremum(const vec_basic& v, bool mx) { set_basic s; N num; bool has = false;
    std::function<void(const vec_basic&)> walk = [&](const vec_basic& w) { for (auto& a : w) { noBool(a); if (is_a_Number(*a)) { N n = rcp_static_cast<const Number>(a); if (!has) { num = n; has = true; } else if (!is_a<NaN>(*n) && !is_a<NaN>(*num)) { int c = numcmp(n, num); if (mx ? c > 0 : c < 0) num = n; } } else if (mx ? is_a<Max>(*a) : is_a<Min>(*a)) walk(a->get_args()); else s.insert(a); } }; walk(v);
    if (s.empty()) { if (!has) throw SymEngineException("Empty vec_basic passed to max!"); return num; }
    vec_basic r; if (has) r.push_back(num); for (auto& a : s) r.push_back(a); if (r.size() == 1) return r[0]; if (mx) return make_rcp<const Max>(r); return make_rcp<const Min>(r); }
B max(const vec_basic& v) { return extremum(v, true); } B min(const vec_basic& v) { return extremum(v, false); }
static int64_t fdiv(int64_t n, int64_t d) { int64_t q = n / d; if (n % d != 0 && n < 0) q--; return q; }
B ceiling(const B& a) { if (isInt(*a)) return a; if (is_a<Rational>(*a)) { auto& r = static_cast<const Rational&>(*a); return integer(-fdiv(-r.n, r.d)); } if (is_a_Number(*a)) return a; if (is_a<Ceiling>(*a) || is_a<Floor>(*a)) return a; if (is_a<Add>(*a) && isInt(*static_cast<const Add&>(*a).get_coef()) && !static_cast<const Add&>(*a).get_coef()->is_zero()) { umap_basic_num d = static_cast<const Add&>(*a).get_dict(); return add(static_cast<const Add&>(*a).get_coef(), make_rcp<const Ceiling>(addFrom(zero, std::move(d)))); } return make_rcp<const Ceiling>(a); }
B floor(const B& a) { if (isInt(*a)) return a; if (is_a<Rational>(*a)) { auto& r = static_cast<const Rational&>(*a); return integer(fdiv(r.n, r.d)); } if (is_a_Number(*a)) return a; if (is_a<Ceiling>(*a) || is_a<Floor>(*a)) return a; return make_rcp<const Floor>(a); }
B abs(const B& a) { if (is_a_Number(*a)) { N n = rcp_static_cast<const Number>(a); return n->is_negative() ? B(mulnum(n, minus_one)) : a; } return make_rcp<const Abs>(a); }
B Ceiling::create(const B& a) const { return ceiling(a); } B Floor::create(const B& a) const { return floor(a); } B Abs::create(const B& a) const { return SymEngine::abs(a); }
B Max::create(const vec_basic& a) const { return max(a); } B Min::create(const vec_basic& a) const { return min(a); }
B FunctionSymbol::create(const vec_basic& a) const { return make_rcp<const FunctionSymbol>(name_, a); }
B function_symbol(std::string n, const vec_basic& a) { return make_rcp<const FunctionSymbol>(std::move(n), a); }
B function_symbol(std::string n, const B& a) { return make_rcp<const FunctionSymbol>(std::move(n), a); }
// ---- logic
typedef RCP<const Boolean> C;
C Boolean::logical_not() const { return make_rcp<const Not>(RCP<const Boolean>(this)); }
C BooleanAtom::logical_not() const { return boolean(!b_); }
C Eq(const B& a, const B& b) { if (is_a<NaN>(*a) || is_a<NaN>(*b)) return boolFalse; if (eq(*a, *b)) return boolTrue; if ((is_a_Number(*a) && is_a_Number(*b)) || (is_a<BooleanAtom>(*a) && is_a<BooleanAtom>(*b))) return boolFalse; if (a->__cmp__(*b) < 0) return make_rcp<const Equality>(a, b); return make_rcp<const Equality>(b, a); }
C Ne(const B& a, const B& b) { return Eq(a, b)->logical_not(); }
static void relck(const B& a, const B& b) { if (is_a<NaN>(*a) || is_a<NaN>(*b)) throw SymEngineException("Invalid NaN comparison."); if ((is_a<Infty>(*a) && static_cast<const Infty&>(*a).dir() == 0) || (is_a<Infty>(*b) && static_cast<const Infty&>(*b).dir() == 0)) throw SymEngineException("Invalid comparison of complex numbers."); if (is_a<BooleanAtom>(*a) || is_a<BooleanAtom>(*b)) throw SymEngineException("Invalid comparison of Boolean objects."); }
C Le(const B& a, const B& b) { relck(a, b); if (eq(*a, *b)) return boolTrue; if (is_a_Number(*a) && is_a_Number(*b)) return boolean(numcmp(rcp_static_cast<const Number>(a), rcp_static_cast<const Number>(b)) <= 0); return make_rcp<const LessThan>(a, b); }
C Lt(const B& a, const B& b) { relck(a, b); if (eq(*a, *b)) return boolFalse; if (is_a_Number(*a) && is_a_Number(*b)) return boolean(numcmp(rcp_static_cast<const Number>(a), rcp_static_cast<const Number>(b)) < 0); return make_rcp<const StrictLessThan>(a, b); }
C Ge(const B& a, const B& b) { return Le(b, a); } C Gt(const B& a, const B& b) { return Lt(b, a); }
B Equality::create(const B& a, const B& b) const { return Eq(a, b); } B Unequality::create(const B& a, const B& b) const { return Ne(a, b); } B LessThan::create(const B& a, const B& b) const { return Le(a, b); } B StrictLessThan::create(const B& a, const B& b) const { return Lt(a, b); }
C Equality::logical_not() const { return make_rcp<const Unequality>(get_arg1(), get_arg2()); } C Unequality::logical_not() const { return make_rcp<const Equality>(get_arg1(), get_arg2()); }
C LessThan::logical_not() const { return Lt(get_arg2(), get_arg1()); } C StrictLessThan::logical_not() const { return Le(get_arg2(), get_arg1()); }
C Not::logical_not() const { return a_; } C logical_not(const C& c) { return c->logical_not(); }
static C andor(const set_boolean& s, bool isAnd) { set_boolean r;
    for (auto& a : s) { if (is_a<BooleanAtom>(*a)) { bool v = static_cast<const BooleanAtom&>(*a).get_val(); if (v != isAnd) return boolean(!isAnd); continue; }
        if (isAnd ? is_a<And>(*a) : is_a<Or>(*a)) { auto& c = isAnd ? static_cast<const And&>(*a).get_container() : static_cast<const Or&>(*a).get_container(); r.insert(c.begin(), c.end()); } else r.insert(a); }
    for (auto& a : r) if (r.find(a->logical_not()) != r.end()) return boolean(!isAnd);
    if (r.empty()) return boolean(isAnd); if (r.size() == 1) return *r.begin(); if (isAnd) return make_rcp<const And>(r); return make_rcp<const Or>(r); }
C logical_and(const set_boolean& s) { return andor(s, true); } C logical_or(const set_boolean& s) { return andor(s, false); }
C And::logical_not() const { set_boolean s; for (auto& a : c_) s.insert(a->logical_not()); return logical_or(s); } C Or::logical_not() const { set_boolean s; for (auto& a : c_) s.insert(a->logical_not()); return logical_and(s); }
// ---- rebuilding
static B rebuild(const Basic& x, const std::function<B(const B&)>& f) { B self = x.rcp_from_this();
    switch (x.get_type_code()) {
    case SYMENGINE_ADD: { auto& a = static_cast<const Add&>(x); vec_basic v{f(a.get_coef())}; for (auto& p : a.get_dict()) v.push_back(mul(f(p.second), f(p.first))); return add(v); }
    case SYMENGINE_MUL: { auto& m = static_cast<const Mul&>(x); vec_basic v{f(m.get_coef())}; for (auto& p : m.get_dict()) { if (eq(*p.second, *one)) v.push_back(f(p.first)); else v.push_back(f(make_rcp<const Pow>(p.first, p.second))); } return mul(v); }
    case SYMENGINE_POW: { auto& p = static_cast<const Pow&>(x); return pow(f(p.get_base()), f(p.get_exp())); }
    case SYMENGINE_CEILING: case SYMENGINE_FLOOR: case SYMENGINE_ABS: { auto& o = static_cast<const OneArgFunction&>(x); return o.create(f(o.get_arg())); }
    case SYMENGINE_MAX: case SYMENGINE_MIN: case SYMENGINE_FUNCTIONSYMBOL: { auto& o = static_cast<const MultiArgFunction&>(x); vec_basic v; for (auto& a : o.get_vec()) v.push_back(f(a)); return o.create(v); }
    case SYMENGINE_EQUALITY: case SYMENGINE_UNEQUALITY: case SYMENGINE_LESSTHAN: case SYMENGINE_STRICTLESSTHAN: { auto& r = static_cast<const Relational&>(x); return r.create(f(r.get_arg1()), f(r.get_arg2())); }
    case SYMENGINE_AND: case SYMENGINE_OR: { set_boolean s; for (auto& a : x.get_args()) { B b = f(a); if (!is_a_Boolean(*b)) throw SymEngineException("expected an object of type Boolean"); s.insert(rcp_static_cast<const Boolean>(b)); } return x.get_type_code() == SYMENGINE_AND ? logical_and(s) : logical_or(s); }
    case SYMENGINE_NOT: { B b = f(static_cast<const Not&>(x).get_arg()); if (!is_a_Boolean(*b)) throw SymEngineException("expected an object of type Boolean"); return rcp_static_cast<const Boolean>(b)->logical_not(); }
    default: return self; } }
B subs(const B& x, const map_basic_basic& d) { auto it = d.find(x); if (it != d.end()) return it->second; return rebuild(*x, [&](const B& a) { return subs(a, d); }); }
B Basic::subs(const map_basic_basic& d) const { return SymEngine::subs(rcp_from_this(), d); }
B simplify(const B& x) { return rebuild(*x, [&](const B& a) { return simplify(a); }); }
static B mulExpand(const B& a, const B& b) { vec_basic x = is_a<Add>(*a) ? a->get_args() : vec_basic{a}, y = is_a<Add>(*b) ? b->get_args() : vec_basic{b}, r; for (auto& p : x) for (auto& q : y) { B m = mul(p, q); if (is_a<Mul>(*m)) for (auto& e : static_cast<const Mul&>(*m).get_dict()) if (is_a<Add>(*e.first) && isInt(*e.second) && iv(*e.second) > 0 && (is_a<Add>(*p) || is_a<Add>(*q))) { m = expand(m); break; } r.push_back(m); } return r.size() == 1 ? r[0] : add(r); }
B expand(const B& x, bool deep) {
    if (is_a<Add>(*x)) { vec_basic v; for (auto& a : x->get_args()) v.push_back(expand(a)); return add(v); }
    if (is_a<Mul>(*x)) { auto& m = static_cast<const Mul&>(*x); B r = m.get_coef(); for (auto& p : m.get_dict()) { B t = eq(*p.second, *one) ? expand(p.first) : expand(make_rcp<const Pow>(p.first, p.second)); r = mulExpand(r, t); } return r; }
    if (is_a<Pow>(*x)) { auto& p = static_cast<const Pow&>(*x); B b = expand(p.get_base()); if (isInt(*p.get_exp()) && is_a<Add>(*b)) { int64_t k = iv(*p.get_exp()); if (k > 0 && k <= 64) { B r = b; for (int64_t i = 1; i < k; i++) r = mulExpand(r, b); return r; } } return pow(b, p.get_exp()); }
    if (is_a<FunctionSymbol>(*x) || is_a<Max>(*x) || is_a<Min>(*x)) { auto& o = static_cast<const MultiArgFunction&>(*x); vec_basic v; bool ch = false; for (auto& a : o.get_vec()) { B e = deep ? expand(a) : a; if (!eq(*e, *a)) ch = true; v.push_back(e); } return ch ? o.create(v) : x; }
    return x; }
bool has_symbol(const Basic& b, const Basic& s) { if (eq(b, s)) return true; for (auto& a : b.get_args()) if (has_symbol(*a, s)) return true; return false; }
set_basic free_symbols(const Basic& b) { set_basic r; for (auto& a : atoms<Symbol>(b)) r.insert(a); return r; }
void as_numer_denom(const B& x, const Ptr<B>& n, const Ptr<B>& d) {
    if (is_a<Rational>(*x)) { *n = static_cast<const Rational&>(*x).get_num(); *d = static_cast<const Rational&>(*x).get_den(); return; }
    if (is_a<Mul>(*x)) { B cn = one, cd = one; for (auto& a : x->get_args()) { B p, q; as_numer_denom(a, outArg(p), outArg(q)); cn = mul(cn, p); cd = mul(cd, q); } *n = cn; *d = cd; return; }
    if (is_a<Pow>(*x)) { auto& p = static_cast<const Pow&>(*x); B e = p.get_exp(); if (is_a_Number(*e) && static_cast<const Number&>(*e).is_negative()) { B bn, bd; as_numer_denom(p.get_base(), outArg(bn), outArg(bd)); *n = pow(bd, neg(e)); *d = pow(bn, neg(e)); return; } B bn, bd; as_numer_denom(p.get_base(), outArg(bn), outArg(bd)); *n = pow(bn, e); *d = pow(bd, e); return; }
    if (is_a<Add>(*x)) { B cn = zero, cd = one; for (auto& a : x->get_args()) { B p, q; as_numer_denom(a, outArg(p), outArg(q)); if (eq(*q, *cd)) cn = add(cn, p); else { cn = add(mul(cn, q), mul(p, cd)); cd = mul(cd, q); } } *n = cn; *d = cd; return; }
    *n = x; *d = one; }
// ---- polynomials
typedef std::map<vec_int, B> PD;
static PD pmul(const PD& a, const PD& b) { PD r; for (auto& p : a) for (auto& q : b) { vec_int k = p.first; for (size_t i = 0; i < k.size(); i++) k[i] += q.first[i]; B c = mulExpand(p.second, q.second); auto it = r.find(k); if (it == r.end()) r[k] = c; else it->second = add(it->second, c); } return r; }
static PD poly(const B& x, const vec_basic& g) { vec_int z(g.size(), 0); for (size_t i = 0; i < g.size(); i++) if (eq(*x, *g[i])) { z[i] = 1; return {{z, one}}; }
    if (is_a<Add>(*x)) { PD r; for (auto& a : x->get_args()) for (auto& p : poly(a, g)) { auto it = r.find(p.first); if (it == r.end()) r[p.first] = p.second; else it->second = add(it->second, p.second); } return r; }
    if (is_a<Mul>(*x)) { PD r{{z, one}}; for (auto& a : x->get_args()) r = pmul(r, poly(a, g)); return r; }
    if (is_a<Pow>(*x)) { auto& p = static_cast<const Pow&>(*x); if (isInt(*p.get_exp()) && iv(*p.get_exp()) > 0) { int64_t k = iv(*p.get_exp()); if (k > 16) dsym_end(); PD b = poly(p.get_base(), g), r{{z, one}}; for (int64_t i = 0; i < k; i++) r = pmul(r, b); return r; } }
    for (auto& s : g) if (has_symbol(*x, *s)) throw SymEngineException("Not a Polynomial");
    return {{z, x}}; }
RCP<const MExprPoly> mexpr_from_basic(const B& x, const set_basic& gens) { vec_basic g(gens.begin(), gens.end()); PD d = poly(x, g); MExprDict r; r.vec_size = g.size(); for (auto& p : d) { B c = expand(p.second); if (!(is_a_Number(*c) && static_cast<const Number&>(*c).is_zero())) r.dict_[p.first] = Expression(c); } return make_rcp<const MExprPoly>(gens, std::move(r)); }
// ---- printing
std::string Basic::__str__() const { StrPrinter p; return p.apply(*this); }
static PrecedenceEnum prec(const Basic& x) { switch (x.get_type_code()) { case SYMENGINE_ADD: return PrecedenceEnum::Add; case SYMENGINE_MUL: return PrecedenceEnum::Mul; case SYMENGINE_POW: return PrecedenceEnum::Pow; case SYMENGINE_EQUALITY: case SYMENGINE_UNEQUALITY: case SYMENGINE_LESSTHAN: case SYMENGINE_STRICTLESSTHAN: return PrecedenceEnum::Relational; case SYMENGINE_INTEGER: return static_cast<const Integer&>(x).is_negative() ? PrecedenceEnum::Mul : PrecedenceEnum::Atom; case SYMENGINE_RATIONAL: return PrecedenceEnum::Add; default: return PrecedenceEnum::Atom; } }
std::string StrPrinter::parenthesizeLT(const B& x, PrecedenceEnum p) { if (prec(*x) < p) return parenthesize(apply(x)); return apply(x); }
std::string StrPrinter::parenthesizeLE(const B& x, PrecedenceEnum p) { if (prec(*x) <= p) return parenthesize(apply(x)); return apply(x); }
std::string StrPrinter::apply(const vec_basic& v) { std::string s; for (size_t i = 0; i < v.size(); i++) { if (i) s += ", "; s += apply(v[i]); } return s; }
void StrPrinter::_print_pow(std::ostringstream& o, const B& a, const B& b) { if (eq(*a, *E)) o << "exp(" << apply(b) << ")"; else if (eq(*b, *rational(1, 2))) o << "sqrt(" << apply(a) << ")"; else { o << parenthesizeLE(a, PrecedenceEnum::Pow); o << "**"; o << parenthesizeLE(b, PrecedenceEnum::Pow); } }
void StrPrinter::bvisit(const Basic&) { str_ = "<basic>"; }
void StrPrinter::bvisit(const Integer& x) { str_ = istr(x); }
void StrPrinter::bvisit(const Rational& x) { str_ = std::to_string(x.n) + "/" + std::to_string(x.d); }
void StrPrinter::bvisit(const Infty& x) { str_ = x.dir() > 0 ? "oo" : x.dir() < 0 ? "-oo" : "zoo"; }
void StrPrinter::bvisit(const NaN&) { str_ = "nan"; }
void StrPrinter::bvisit(const RealDouble& x) { str_ = std::to_string(x.i); }
void StrPrinter::bvisit(const Symbol& x) { str_ = x.get_name(); }
void StrPrinter::bvisit(const Constant& x) { str_ = x.get_name(); }
void StrPrinter::bvisit(const Add& x) { std::ostringstream o; bool first = true; if (!x.get_coef()->is_zero()) { o << apply(B(x.get_coef())); first = false; }
    for (auto& p : x.get_dict()) { std::string t; if (p.second->is_one()) t = parenthesizeLT(p.first, PrecedenceEnum::Add); else if (p.second->is_minus_one()) t = "-" + parenthesizeLT(p.first, PrecedenceEnum::Mul); else t = parenthesizeLT(p.second, PrecedenceEnum::Mul) + print_mul() + parenthesizeLT(p.first, PrecedenceEnum::Mul);
        if (!first) { if (t[0] == '-') o << " - " << t.substr(1); else o << " + " << t; } else { o << t; first = false; } } str_ = o.str(); }
void StrPrinter::bvisit(const Mul& x) { std::ostringstream o, o2; bool num = false; unsigned den = 0;
    if (x.get_coef()->is_minus_one()) o << "-"; else if (!x.get_coef()->is_one()) { o << parenthesizeLT(x.get_coef(), PrecedenceEnum::Mul) << print_mul(); num = true; }
    for (auto& p : x.get_dict()) { if (is_a_Number(*p.second) && static_cast<const Number&>(*p.second).is_negative()) { if (eq(*p.second, *minus_one)) o2 << parenthesizeLT(p.first, PrecedenceEnum::Mul); else _print_pow(o2, p.first, neg(p.second)); o2 << print_mul(); den++; } else { if (eq(*p.second, *one)) o << parenthesizeLT(p.first, PrecedenceEnum::Mul); else _print_pow(o, p.first, p.second); o << print_mul(); num = true; } }
    if (!num) o << "1" << print_mul(); std::string s = o.str(); s = s.substr(0, s.size() - 1); if (den) { std::string s2 = o2.str(); s2 = s2.substr(0, s2.size() - 1); str_ = print_div(s, s2, den > 1); } else str_ = s; }
void StrPrinter::bvisit(const Pow& x) { std::ostringstream o; _print_pow(o, x.get_base(), x.get_exp()); str_ = o.str(); }
void StrPrinter::bvisit(const Function& x) { const char* n = is_a<Max>(x) ? "max" : is_a<Min>(x) ? "min" : is_a<Ceiling>(x) ? "ceiling" : is_a<Floor>(x) ? "floor" : is_a<Abs>(x) ? "abs" : "?"; str_ = std::string(n) + parenthesize(apply(x.get_args())); }
void StrPrinter::bvisit(const FunctionSymbol& x) { str_ = x.get_name() + parenthesize(apply(x.get_args())); }
void StrPrinter::bvisit(const BooleanAtom& x) { str_ = x.get_val() ? "True" : "False"; }
void StrPrinter::bvisit(const Equality& x) { str_ = apply(x.get_arg1()) + " == " + apply(x.get_arg2()); }
void StrPrinter::bvisit(const Unequality& x) { str_ = apply(x.get_arg1()) + " != " + apply(x.get_arg2()); }
void StrPrinter::bvisit(const LessThan& x) { str_ = apply(x.get_arg1()) + " <= " + apply(x.get_arg2()); }
void StrPrinter::bvisit(const StrictLessThan& x) { str_ = apply(x.get_arg1()) + " < " + apply(x.get_arg2()); }
void StrPrinter::bvisit(const And& x) { str_ = "And(" + apply(x.get_args()) + ")"; }
void StrPrinter::bvisit(const Or& x) { str_ = "Or(" + apply(x.get_args()) + ")"; }
void StrPrinter::bvisit(const Not& x) { str_ = "Not(" + apply(B(x.get_arg())) + ")"; }
void CodePrinter::bvisit(const Basic&) { throw SymEngineException("Not supported"); }
void CodePrinter::bvisit(const Rational& x) { str_ = std::to_string(x.n) + ".0/" + std::to_string(x.d) + ".0"; }
void CodePrinter::bvisit(const Ceiling& x) { str_ = "ceil(" + apply(x.get_arg()) + ")"; }
void CodePrinter::bvisit(const Floor& x) { str_ = "floor(" + apply(x.get_arg()) + ")"; }
void CodePrinter::bvisit(const Abs& x) { str_ = "fabs(" + apply(x.get_arg()) + ")"; }
void CodePrinter::bvisit(const Constant& x) { str_ = x.get_name() == "E" ? "exp(1)" : "acos(-1)"; }
// ---- parsing: or < and < relational < sum < product < unary < power
namespace { struct P { const std::string& s; size_t i = 0; 
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++; }
    bool at(const char* t) { ws(); size_t n = __builtin_strlen(t); if (s.compare(i, n, t) == 0) { i += n; return true; } return false; }
    [[noreturn]] void bad() { throw ParseError("Parsing Unsuccessful"); }
    C asB(const B& b) { if (!is_a_Boolean(*b)) bad(); return rcp_static_cast<const Boolean>(b); }
    B orE() { B l = andE(); while (at("|")) l = logical_or({asB(l), asB(andE())}); return l; }
    B andE() { B l = rel(); while (at("&")) l = logical_and({asB(l), asB(rel())}); return l; }
    B rel() { B l = sum(); for (;;) { if (at("==")) l = Eq(l, sum()); else if (at("!=")) l = Ne(l, sum()); else if (at("<=")) l = Le(l, sum()); else if (at(">=")) l = Ge(l, sum()); else if (at("<")) l = Lt(l, sum()); else if (at(">")) l = Gt(l, sum()); else return l; } }
    B sum() { B l = prod(); for (;;) { if (at("+")) l = add(l, prod()); else if (at("-")) l = sub(l, prod()); else return l; } }
    B prod() { B l = un(); for (;;) { ws(); if (i + 1 < s.size() && s[i] == '*' && s[i + 1] != '*') { i++; l = mul(l, un()); } else if (at("/")) l = div(l, un()); else return l; } }
    B un() { if (at("-")) return neg(un()); if (at("+")) return un(); if (at("~")) return asB(un())->logical_not(); return pw(); }
    B pw() { B b = atom(); if (at("**") || at("^")) return pow(b, un()); return b; }
    B atom() { ws(); if (i >= s.size()) bad(); char c = s[i]; if (c == '(') { i++; B r = orE(); if (!at(")")) bad(); return r; }
        if (c >= '0' && c <= '9') { N v = zero; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { v = addnum(mulnum(v, integer(10)), integer(s[i] - '0')); i++; } B n = v; if (i < s.size() && idc(s[i], true)) return mul(n, pw()); return n; }
        if (!idc(c, true)) bad(); size_t j = i; while (i < s.size() && idc(s[i], false)) i++; std::string n = s.substr(j, i - j);
        if (at("(")) { vec_basic a; if (!at(")")) { do a.push_back(orE()); while (at(",")); if (!at(")")) bad(); } return call(n, a); }
        if (n == "E" || n == "e") return n == "E" ? B(E) : B(symbol(n)); if (n == "pi") return pi; if (n == "oo" || n == "inf") return Inf; if (n == "zoo") return ComplexInf; if (n == "nan") return Nan; if (n == "True") return boolTrue; if (n == "False") return boolFalse; if (n == "I" || n == "EulerGamma" || n == "Catalan" || n == "GoldenRatio") return make_rcp<const Constant>(n);
        return symbol(n); }
    static bool idc(char c, bool first) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (unsigned char)c >= 0x80 || (!first && (c >= '0' && c <= '9')); }
    B call(const std::string& n, const vec_basic& a) {
        if (n == "max" || n == "Max") return SymEngine::max(a); if (n == "min" || n == "Min") return SymEngine::min(a);
        if (n == "And" || n == "Or") { set_boolean q; for (auto& x : a) q.insert(asB(x)); return n == "And" ? logical_and(q) : logical_or(q); }
        if (n == "Not" && a.size() == 1) return asB(a[0])->logical_not();
        if (a.size() == 2) { if (n == "Eq" || n == "Equality") return Eq(a[0], a[1]); if (n == "Ne" || n == "Unequality") return Ne(a[0], a[1]); if (n == "Le") return Le(a[0], a[1]); if (n == "Lt") return Lt(a[0], a[1]); if (n == "Ge") return Ge(a[0], a[1]); if (n == "Gt") return Gt(a[0], a[1]); if (n == "pow") return SymEngine::pow(a[0], a[1]); }
        if (a.size() == 1) { if (n == "ceiling") return SymEngine::ceiling(a[0]); if (n == "floor") return SymEngine::floor(a[0]); if (n == "abs" || n == "Abs") return SymEngine::abs(a[0]); if (n == "sqrt") return SymEngine::pow(a[0], rational(1, 2)); if (n == "exp") return SymEngine::exp(a[0]); }
        return function_symbol(n, a); } }; }
B parse(const std::string& s, bool) { P p{s}; B r = p.orE(); p.ws(); if (p.i != s.size()) throw ParseError("Parsing Unsuccessful"); return r; }
} // namespace SymEngine
