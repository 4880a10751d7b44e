// A small stand-in for SymEngine (the submodule is absent from this checkout): same types, same canonical forms, same observable API,
// restricted to what docc uses and to 64-bit integers.  The code under test is docc's; this header only supplies its expression library.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
namespace SymEngine {
enum ENull { null };
enum TypeID { SYMENGINE_INTEGER, SYMENGINE_RATIONAL, SYMENGINE_INFTY, SYMENGINE_NOT_A_NUMBER, SYMENGINE_REAL_DOUBLE, SYMENGINE_SYMBOL, SYMENGINE_CONSTANT, SYMENGINE_MUL, SYMENGINE_ADD, SYMENGINE_POW, SYMENGINE_MAX, SYMENGINE_MIN, SYMENGINE_CEILING, SYMENGINE_FLOOR, SYMENGINE_ABS, SYMENGINE_FUNCTIONSYMBOL, SYMENGINE_BOOLEAN_ATOM, SYMENGINE_EQUALITY, SYMENGINE_UNEQUALITY, SYMENGINE_LESSTHAN, SYMENGINE_STRICTLESSTHAN, SYMENGINE_AND, SYMENGINE_OR, SYMENGINE_NOT, SYMENGINE_MEXPRPOLY };
class SymEngineException : public std::exception { std::string m_; public: SymEngineException(const std::string& m) : m_(m) {} const char* what() const noexcept override { return m_.c_str(); } };
class NotImplementedError : public SymEngineException { public: using SymEngineException::SymEngineException; };
class DomainError : public SymEngineException { public: using SymEngineException::SymEngineException; };
class DivisionByZeroError : public SymEngineException { public: using SymEngineException::SymEngineException; };
class ParseError : public SymEngineException { public: using SymEngineException::SymEngineException; };

template<class T> class RCP {
    T* p_ = nullptr; template<class U> friend class RCP;
public:
    RCP() = default; RCP(ENull) {} explicit RCP(T* p) : p_(p) { inc(); }
    RCP(const RCP& o) : p_(o.p_) { inc(); } RCP(RCP&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
    template<class U> requires std::is_convertible_v<U*, T*> RCP(const RCP<U>& o) : p_(o.p_) { inc(); }
    template<class U> requires std::is_convertible_v<U*, T*> RCP(RCP<U>&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
    ~RCP() { dec(); }
    RCP& operator=(const RCP& o) { T* q = o.p_; if (q) ++q->refcount_; dec(); p_ = q; return *this; }
    RCP& operator=(RCP&& o) noexcept { if (this != &o) { dec(); p_ = o.p_; o.p_ = nullptr; } return *this; }
    T* operator->() const { return p_; } T& operator*() const { return *p_; } T* get() const { return p_; } RCP ptr() const { return *this; }
    bool is_null() const { return !p_; }
    template<class U> bool operator==(const RCP<U>& o) const { return p_ == o.get(); }
    template<class U> bool operator!=(const RCP<U>& o) const { return p_ != o.get(); }
    bool operator==(ENull) const { return !p_; }
    explicit operator bool() const = delete;
    void reset() { dec(); p_ = nullptr; }
    unsigned use_count() const { return p_->refcount_; }
private:
    void inc() { if (p_) ++p_->refcount_; }
    void dec() { if (p_ && --p_->refcount_ == 0) delete p_; }
};
template<class T, class... A> inline RCP<T> make_rcp(A&&... a) { return RCP<T>(new std::remove_const_t<T>(std::forward<A>(a)...)); }
template<class T, class U> inline RCP<T> rcp_static_cast(const RCP<U>& p) { return RCP<T>(static_cast<T*>(p.get())); }
template<class T, class U> inline RCP<T> rcp_dynamic_cast(const RCP<U>& p) { if (p.is_null()) return RCP<T>(); if (auto* q = dynamic_cast<T*>(p.get())) return RCP<T>(q); throw std::runtime_error("rcp_dynamic_cast: cannot convert."); }
template<class T> class Ptr { T* p_; public: explicit Ptr(T* p) : p_(p) {} T& operator*() const { return *p_; } T* operator->() const { return p_; } };
template<class T> inline Ptr<T> outArg(T& t) { return Ptr<T>(&t); }

typedef uint64_t hash_t;
class Visitor; class Basic; class Number; class Integer; class Symbol; class Boolean;
typedef std::vector<RCP<const Basic>> vec_basic;
struct RCPBasicKeyLess { bool operator()(const RCP<const Basic>& a, const RCP<const Basic>& b) const; };
struct RCPBasicHash { size_t operator()(const RCP<const Basic>& a) const; };
struct RCPBasicKeyEq { bool operator()(const RCP<const Basic>& a, const RCP<const Basic>& b) const; };
typedef std::set<RCP<const Basic>, RCPBasicKeyLess> set_basic;
typedef std::map<RCP<const Basic>, RCP<const Basic>, RCPBasicKeyLess> map_basic_basic;
typedef std::map<RCP<const Basic>, RCP<const Number>, RCPBasicKeyLess> umap_basic_num;
typedef std::unordered_map<RCP<const Basic>, RCP<const Basic>, RCPBasicHash, RCPBasicKeyEq> umap_basic_basic;
typedef std::vector<int> vec_int;
typedef std::set<RCP<const Boolean>, RCPBasicKeyLess> set_boolean;
typedef std::vector<RCP<const Boolean>> vec_boolean;

class Basic {
public:
    mutable unsigned refcount_ = 0; TypeID type_code_;
    Basic(TypeID t) : type_code_(t) {} Basic(const Basic&) = delete; virtual ~Basic() {}
    TypeID get_type_code() const { return type_code_; }
    virtual vec_basic get_args() const { return {}; }
    virtual void accept(Visitor&) const = 0;
    std::string __str__() const; hash_t hash() const; hash_t __hash__() const { return hash(); }
    bool __eq__(const Basic& o) const; bool __neq__(const Basic& o) const { return !__eq__(o); }
    int __cmp__(const Basic& o) const;
    RCP<const Basic> rcp_from_this() const { return RCP<const Basic>(this); }
    RCP<const Basic> subs(const map_basic_basic& d) const; 
};
#define SHIM_NODE(T, ID) static const TypeID type_code_id = ID; void accept(Visitor& v) const override;
class Number : public Basic { public: using Basic::Basic; virtual bool is_zero() const = 0; virtual bool is_one() const = 0; virtual bool is_minus_one() const = 0; virtual bool is_negative() const = 0; virtual bool is_positive() const = 0; virtual bool is_exact() const { return true; } };
struct Big { bool neg = false; std::vector<uint32_t> m; }; // sign and magnitude, least significant word first
class Integer : public Number { int64_t i_; std::unique_ptr<Big> big_; public: SHIM_NODE(Integer, SYMENGINE_INTEGER) Integer(int64_t i) : Number(type_code_id), i_(i) {} Integer(const Big& b) : Number(type_code_id), i_(b.neg ? -2 : 2), big_(new Big(b)) {}
    const Big* big() const { return big_.get(); } int64_t raw() const { return i_; }
    signed long as_int() const { if (big_) throw SymEngineException("as_int: Integer larger than int"); return i_; } unsigned long as_uint() const { if (i_ < 0) throw SymEngineException("as_uint: negative Integer"); return as_int(); }
    bool is_zero() const override { return i_ == 0; } bool is_one() const override { return i_ == 1; } bool is_minus_one() const override { return i_ == -1; } bool is_negative() const override { return i_ < 0; } bool is_positive() const override { return i_ > 0; } };
class Rational : public Number { public: int64_t n, d; SHIM_NODE(Rational, SYMENGINE_RATIONAL) Rational(int64_t n, int64_t d) : Number(type_code_id), n(n), d(d) {}
    bool is_zero() const override { return false; } bool is_one() const override { return false; } bool is_minus_one() const override { return false; } bool is_negative() const override { return n < 0; } bool is_positive() const override { return n > 0; }
    RCP<const Integer> get_num() const; RCP<const Integer> get_den() const; };
class Infty : public Number { int dir_; public: SHIM_NODE(Infty, SYMENGINE_INFTY) Infty(int d) : Number(type_code_id), dir_(d) {} int dir() const { return dir_; }
    bool is_unsigned_infinity() const { return dir_ == 0; } bool is_positive_infinity() const { return dir_ > 0; } bool is_negative_infinity() const { return dir_ < 0; }
    bool is_zero() const override { return false; } bool is_one() const override { return false; } bool is_minus_one() const override { return false; } bool is_negative() const override { return dir_ < 0; } bool is_positive() const override { return dir_ > 0; } };
class NaN : public Number { public: SHIM_NODE(NaN, SYMENGINE_NOT_A_NUMBER) NaN() : Number(type_code_id) {} bool is_zero() const override { return false; } bool is_one() const override { return false; } bool is_minus_one() const override { return false; } bool is_negative() const override { return false; } bool is_positive() const override { return false; } };
class RealDouble : public Number { public: double i; SHIM_NODE(RealDouble, SYMENGINE_REAL_DOUBLE) RealDouble(double d) : Number(type_code_id), i(d) {} double as_double() const { return i; } bool is_zero() const override { return i == 0; } bool is_one() const override { return false; } bool is_minus_one() const override { return false; } bool is_negative() const override { return i < 0; } bool is_positive() const override { return i > 0; } bool is_exact() const override { return false; } };
class Symbol : public Basic { std::string name_; public: SHIM_NODE(Symbol, SYMENGINE_SYMBOL) explicit Symbol(const std::string& n) : Basic(type_code_id), name_(n) {} const std::string& get_name() const { return name_; } };
class Constant : public Basic { std::string name_; public: SHIM_NODE(Constant, SYMENGINE_CONSTANT) explicit Constant(const std::string& n) : Basic(type_code_id), name_(n) {} const std::string& get_name() const { return name_; } };
class Add : public Basic { RCP<const Number> coef_; umap_basic_num dict_; public: SHIM_NODE(Add, SYMENGINE_ADD) Add(const RCP<const Number>& c, umap_basic_num&& d) : Basic(type_code_id), coef_(c), dict_(std::move(d)) {}
    const RCP<const Number>& get_coef() const { return coef_; } const umap_basic_num& get_dict() const { return dict_; } vec_basic get_args() const override; };
class Mul : public Basic { RCP<const Number> coef_; map_basic_basic dict_; public: SHIM_NODE(Mul, SYMENGINE_MUL) Mul(const RCP<const Number>& c, map_basic_basic&& d) : Basic(type_code_id), coef_(c), dict_(std::move(d)) {}
    const RCP<const Number>& get_coef() const { return coef_; } const map_basic_basic& get_dict() const { return dict_; } vec_basic get_args() const override; };
class Pow : public Basic { RCP<const Basic> b_, e_; public: SHIM_NODE(Pow, SYMENGINE_POW) Pow(const RCP<const Basic>& b, const RCP<const Basic>& e) : Basic(type_code_id), b_(b), e_(e) {} RCP<const Basic> get_base() const { return b_; } RCP<const Basic> get_exp() const { return e_; } vec_basic get_args() const override { return {b_, e_}; } };
class Function : public Basic { public: using Basic::Basic; };
class OneArgFunction : public Function { RCP<const Basic> a_; public: OneArgFunction(TypeID t, const RCP<const Basic>& a) : Function(t), a_(a) {} RCP<const Basic> get_arg() const { return a_; } vec_basic get_args() const override { return {a_}; } virtual RCP<const Basic> create(const RCP<const Basic>& a) const = 0; };
class Ceiling : public OneArgFunction { public: SHIM_NODE(Ceiling, SYMENGINE_CEILING) Ceiling(const RCP<const Basic>& a) : OneArgFunction(type_code_id, a) {} RCP<const Basic> create(const RCP<const Basic>& a) const override; };
class Floor : public OneArgFunction { public: SHIM_NODE(Floor, SYMENGINE_FLOOR) Floor(const RCP<const Basic>& a) : OneArgFunction(type_code_id, a) {} RCP<const Basic> create(const RCP<const Basic>& a) const override; };
class Abs : public OneArgFunction { public: SHIM_NODE(Abs, SYMENGINE_ABS) Abs(const RCP<const Basic>& a) : OneArgFunction(type_code_id, a) {} RCP<const Basic> create(const RCP<const Basic>& a) const override; };
class MultiArgFunction : public Function { vec_basic a_; public: MultiArgFunction(TypeID t, vec_basic a) : Function(t), a_(std::move(a)) {} const vec_basic& get_vec() const { return a_; } vec_basic get_args() const override { return a_; } virtual RCP<const Basic> create(const vec_basic& a) const = 0; };
class Max : public MultiArgFunction { public: SHIM_NODE(Max, SYMENGINE_MAX) Max(vec_basic a) : MultiArgFunction(type_code_id, std::move(a)) {} RCP<const Basic> create(const vec_basic& a) const override; };
class Min : public MultiArgFunction { public: SHIM_NODE(Min, SYMENGINE_MIN) Min(vec_basic a) : MultiArgFunction(type_code_id, std::move(a)) {} RCP<const Basic> create(const vec_basic& a) const override; };
class FunctionSymbol : public MultiArgFunction { protected: std::string name_; public: SHIM_NODE(FunctionSymbol, SYMENGINE_FUNCTIONSYMBOL) FunctionSymbol(std::string n, const vec_basic& a) : MultiArgFunction(type_code_id, a), name_(std::move(n)) {} FunctionSymbol(std::string n, const RCP<const Basic>& a) : MultiArgFunction(type_code_id, {a}), name_(std::move(n)) {}
    const std::string& get_name() const { return name_; } RCP<const Basic> create(const vec_basic& a) const override; };
class Boolean : public Basic { public: using Basic::Basic; virtual RCP<const Boolean> logical_not() const; };
class BooleanAtom : public Boolean { bool b_; public: SHIM_NODE(BooleanAtom, SYMENGINE_BOOLEAN_ATOM) BooleanAtom(bool b) : Boolean(type_code_id), b_(b) {} bool get_val() const { return b_; } RCP<const Boolean> logical_not() const override; };
class Relational : public Boolean { RCP<const Basic> l_, r_; public: Relational(TypeID t, const RCP<const Basic>& l, const RCP<const Basic>& r) : Boolean(t), l_(l), r_(r) {} RCP<const Basic> get_arg1() const { return l_; } RCP<const Basic> get_arg2() const { return r_; } vec_basic get_args() const override { return {l_, r_}; } virtual RCP<const Basic> create(const RCP<const Basic>& l, const RCP<const Basic>& r) const = 0; };
#define SHIM_REL(T, ID) class T : public Relational { public: SHIM_NODE(T, ID) T(const RCP<const Basic>& l, const RCP<const Basic>& r) : Relational(type_code_id, l, r) {} RCP<const Basic> create(const RCP<const Basic>& l, const RCP<const Basic>& r) const override; RCP<const Boolean> logical_not() const override; };
SHIM_REL(Equality, SYMENGINE_EQUALITY) SHIM_REL(Unequality, SYMENGINE_UNEQUALITY) SHIM_REL(LessThan, SYMENGINE_LESSTHAN) SHIM_REL(StrictLessThan, SYMENGINE_STRICTLESSTHAN)
class And : public Boolean { set_boolean c_; public: SHIM_NODE(And, SYMENGINE_AND) And(const set_boolean& c) : Boolean(type_code_id), c_(c) {} const set_boolean& get_container() const { return c_; } vec_basic get_args() const override { return vec_basic(c_.begin(), c_.end()); } RCP<const Boolean> logical_not() const override; };
class Or : public Boolean { set_boolean c_; public: SHIM_NODE(Or, SYMENGINE_OR) Or(const set_boolean& c) : Boolean(type_code_id), c_(c) {} const set_boolean& get_container() const { return c_; } vec_basic get_args() const override { return vec_basic(c_.begin(), c_.end()); } RCP<const Boolean> logical_not() const override; };
class Not : public Boolean { RCP<const Boolean> a_; public: SHIM_NODE(Not, SYMENGINE_NOT) Not(const RCP<const Boolean>& a) : Boolean(type_code_id), a_(a) {} RCP<const Boolean> get_arg() const { return a_; } vec_basic get_args() const override { return {a_}; } RCP<const Boolean> logical_not() const override; };

template<class T> inline bool is_a(const Basic& b) { return T::type_code_id == b.get_type_code(); }
template<class T> inline bool is_a_sub(const Basic& b) { return dynamic_cast<const T*>(&b) != nullptr; }
template<class T> inline const T& down_cast(const Basic& b) { return static_cast<const std::remove_reference_t<T>&>(b); }
inline bool is_a_Number(const Basic& b) { return b.get_type_code() <= SYMENGINE_REAL_DOUBLE; }
inline bool is_a_Boolean(const Basic& b) { return b.get_type_code() >= SYMENGINE_BOOLEAN_ATOM && b.get_type_code() <= SYMENGINE_NOT; }
inline bool is_a_Relational(const Basic& b) { return b.get_type_code() >= SYMENGINE_EQUALITY && b.get_type_code() <= SYMENGINE_STRICTLESSTHAN; }
inline bool eq(const Basic& a, const Basic& b) { return a.__eq__(b); }
inline bool neq(const Basic& a, const Basic& b) { return !a.__eq__(b); }
extern RCP<const Integer> zero, one, minus_one, two; extern RCP<const Infty> Inf, NegInf, ComplexInf; extern RCP<const NaN> Nan; extern RCP<const Constant> E, pi; extern RCP<const BooleanAtom> boolTrue, boolFalse;
inline RCP<const Infty> infty(int d = 1) { return d > 0 ? Inf : d < 0 ? NegInf : ComplexInf; } RCP<const Integer> integer(int64_t i); RCP<const Number> rational(long n, long d); RCP<const RealDouble> real_double(double);
RCP<const Symbol> symbol(const std::string& n); inline RCP<const BooleanAtom> boolean(bool b) { return b ? boolTrue : boolFalse; }
RCP<const Basic> add(const RCP<const Basic>&, const RCP<const Basic>&); RCP<const Basic> add(const vec_basic&);
RCP<const Basic> sub(const RCP<const Basic>&, const RCP<const Basic>&); RCP<const Basic> mul(const RCP<const Basic>&, const RCP<const Basic>&); RCP<const Basic> mul(const vec_basic&);
RCP<const Basic> div(const RCP<const Basic>&, const RCP<const Basic>&); RCP<const Basic> neg(const RCP<const Basic>&); RCP<const Basic> pow(const RCP<const Basic>&, const RCP<const Basic>&); RCP<const Basic> exp(const RCP<const Basic>&);
RCP<const Basic> max(const vec_basic&); RCP<const Basic> min(const vec_basic&); RCP<const Basic> ceiling(const RCP<const Basic>&); RCP<const Basic> floor(const RCP<const Basic>&); RCP<const Basic> abs(const RCP<const Basic>&);
RCP<const Basic> function_symbol(std::string n, const vec_basic& a); RCP<const Basic> function_symbol(std::string n, const RCP<const Basic>& a);
RCP<const Boolean> Eq(const RCP<const Basic>&, const RCP<const Basic>&); RCP<const Boolean> Ne(const RCP<const Basic>&, const RCP<const Basic>&); RCP<const Boolean> Le(const RCP<const Basic>&, const RCP<const Basic>&); RCP<const Boolean> Lt(const RCP<const Basic>&, const RCP<const Basic>&); RCP<const Boolean> Ge(const RCP<const Basic>&, const RCP<const Basic>&); RCP<const Boolean> Gt(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Boolean> logical_and(const set_boolean&); RCP<const Boolean> logical_or(const set_boolean&); RCP<const Boolean> logical_not(const RCP<const Boolean>&);
RCP<const Basic> expand(const RCP<const Basic>&, bool deep = true); RCP<const Basic> simplify(const RCP<const Basic>&); RCP<const Basic> subs(const RCP<const Basic>&, const map_basic_basic&); inline RCP<const Basic> xreplace(const RCP<const Basic>& x, const map_basic_basic& d) { return subs(x, d); }
bool has_symbol(const Basic& b, const Basic& s); set_basic free_symbols(const Basic& b); RCP<const Basic> parse(const std::string& s, bool convert_xor = true);
void as_numer_denom(const RCP<const Basic>& x, const Ptr<RCP<const Basic>>& n, const Ptr<RCP<const Basic>>& d);
template<class T, class... R> inline void atoms_into(const Basic& b, set_basic& s) { if (dynamic_cast<const T*>(&b) || (dynamic_cast<const R*>(&b) || ...)) s.insert(b.rcp_from_this()); for (auto& a : b.get_args()) atoms_into<T, R...>(*a, s); }
template<class T, class... R> inline set_basic atoms(const Basic& b) { set_basic s; atoms_into<T, R...>(b, s); return s; }

// multivariate polynomials with expression coefficients
class Expression { RCP<const Basic> b_; public: Expression() : b_(zero) {} Expression(int i) : b_(integer(i)) {} Expression(const RCP<const Basic>& b) : b_(b) {} Expression(const std::string& s); template<class T> Expression(const RCP<T>& b) : b_(b) {} const RCP<const Basic>& get_basic() const { return b_; } operator const RCP<const Basic>&() const { return b_; } bool operator==(const Expression& o) const { return eq(*b_, *o.b_); } };
struct vec_int_less { bool operator()(const vec_int& a, const vec_int& b) const { return a < b; } };
class MExprDict { public: typedef std::map<vec_int, Expression> dict_type; dict_type dict_; unsigned vec_size = 0; const dict_type& get_dict() const { return dict_; } bool empty() const { return dict_.empty(); } size_t size() const { return dict_.size(); } };
class MExprPoly : public Basic { set_basic vars_; MExprDict poly_; public: SHIM_NODE(MExprPoly, SYMENGINE_MEXPRPOLY) MExprPoly(const set_basic& v, MExprDict&& d) : Basic(type_code_id), vars_(v), poly_(std::move(d)) {} const MExprDict& get_poly() const { return poly_; } const set_basic& get_vars() const { return vars_; } };
RCP<const MExprPoly> mexpr_from_basic(const RCP<const Basic>& x, const set_basic& gens);
template<class P> inline RCP<const P> from_basic(const RCP<const Basic>& x, const set_basic& gens, bool ex = false) { (void)ex; static_assert(std::is_same_v<P, MExprPoly>); return mexpr_from_basic(x, gens); }

// visitors and printers
#define SHIM_ALL(X) X(Integer) X(Rational) X(Infty) X(NaN) X(RealDouble) X(Symbol) X(Constant) X(Add) X(Mul) X(Pow) X(Ceiling) X(Floor) X(Abs) X(Max) X(Min) X(FunctionSymbol) X(BooleanAtom) X(Equality) X(Unequality) X(LessThan) X(StrictLessThan) X(And) X(Or) X(Not) X(MExprPoly)
class Visitor { public: virtual ~Visitor() {}
#define X(T) virtual void visit(const T&) = 0;
    SHIM_ALL(X)
#undef X
};
template<class Derived, class Base = Visitor> class BaseVisitor : public Base { public:
    template<class... A> BaseVisitor(A&&... a) : Base(std::forward<A>(a)...) {}
#define X(T) void visit(const T& x) override { static_cast<Derived*>(this)->bvisit(x); }
    SHIM_ALL(X)
#undef X
};
enum class PrecedenceEnum { Relational, Add, Mul, Pow, Atom };
class StrPrinter : public BaseVisitor<StrPrinter> { protected: std::string str_;
    virtual void _print_pow(std::ostringstream& o, const RCP<const Basic>& a, const RCP<const Basic>& b); virtual bool split_mul_coef() { return false; } virtual std::string print_mul() { return "*"; } virtual std::string print_div(const std::string& n, const std::string& d, bool paren) { return paren ? n + "/(" + d + ")" : n + "/" + d; }
public: StrPrinter() {}
    std::string apply(const RCP<const Basic>& b) { b->accept(*this); return str_; } std::string apply(const Basic& b) { b.accept(*this); return str_; } std::string apply(const vec_basic& v);
    static std::string parenthesize(const std::string& s) { return "(" + s + ")"; }
    std::string parenthesizeLT(const RCP<const Basic>& x, PrecedenceEnum p); std::string parenthesizeLE(const RCP<const Basic>& x, PrecedenceEnum p);
    void bvisit(const Basic&); void bvisit(const Integer&); void bvisit(const Rational&); void bvisit(const Infty&); void bvisit(const NaN&); void bvisit(const RealDouble&); void bvisit(const Symbol&); void bvisit(const Constant&); void bvisit(const Add&); void bvisit(const Mul&); void bvisit(const Pow&); void bvisit(const Function&); void bvisit(const FunctionSymbol&); void bvisit(const BooleanAtom&); void bvisit(const Equality&); void bvisit(const Unequality&); void bvisit(const LessThan&); void bvisit(const StrictLessThan&); void bvisit(const And&); void bvisit(const Or&); void bvisit(const Not&); };
class CodePrinter : public BaseVisitor<CodePrinter, StrPrinter> { public: using StrPrinter::apply; using StrPrinter::bvisit; using StrPrinter::str_; 
    void bvisit(const Basic&); void bvisit(const Rational&); void bvisit(const Ceiling&); void bvisit(const Floor&); void bvisit(const Abs&); void bvisit(const Constant&); };
} // namespace SymEngine
