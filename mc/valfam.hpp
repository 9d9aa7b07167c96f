// valfam.hpp - a catalogue of operations of every type, with a model in which values share nothing.
// Used by the checks of value semantics (C31), of failures (C33) and of concurrent use (C34).
#pragma once
#include "confam.hpp"
#include "intfam.hpp"
#include "fracfam.hpp"
#include "pyincpp.hpp"
#include <optional>

namespace val
{
using namespace fam;
using namespace pyincpp;
using fam::Q;
using mc::quote;

// Ends the faulty phase (the operation is over) and writes the result down.
template <class R>
void emit(std::string* out, const R& r)
{
#ifndef MC_NO_NEW
    mc::A.disarm();
    mc::TS.disarm();
#endif
    if (!out)
        return;
    std::ostringstream o;
    o.precision(17);
    if constexpr (std::is_same_v<R, bool>)
        o << (r ? "true" : "false");
    else
        o << r;
    *out = o.str();
}
#define PROD(name, ...) {name, [](const V& a, const V& b, std::string* out) { (void)a; (void)b; auto&& r = (__VA_ARGS__); emit(out, r); }}
#define PROD_IF(name, cond, ...) {name, [](const V& a, const V& b, std::string* out) { (void)a; (void)b; auto&& r = (__VA_ARGS__); emit(out, r); }, cond}

template <class T, class M>
struct Type
{
    typedef T Value;
    typedef M Model;
    std::string name;
    std::vector<std::function<T()>> make;
    std::vector<M> model;                      // of make[i]
    M none{};                                  // of a moved-from object
    bool moved_known = true;                   // false: a moved-from object may hold anything
    std::function<std::string(const T&)> show; // by observers only
    std::function<std::string(const M&)> text;
    struct Un
    {
        std::string name;
        std::function<void(T&)> f;
        std::function<void(M&)> g;
        std::function<bool(const M&)> ok = nullptr; // may be applied
    };
    struct Bin
    {
        std::string name;
        std::function<void(T&, const T&)> f;
        std::function<void(M&, const M&)> g;
        std::function<bool(const M&, const M&)> ok = nullptr;
    };
    struct Prod // an operation that returns something and changes nothing; the result is written only if `out`
    {
        std::string name;
        std::function<void(const T&, const T&, std::string* out)> f;
        std::function<bool(const M&, const M&)> ok = nullptr;
    };
    std::vector<Un> un;
    std::vector<Bin> bin;
    std::vector<Prod> prod;
};

// ---- numbers ---------------------------------------------------------------------------------------------
typedef Type<Int, Ref> TInt;
inline TInt t_int()
{
    TInt t;
    for (const char* s : {"0", "7", "-98765432109876543210", "1000000000"})
    {
        t.make.push_back([s] { return Int(s); });
        t.model.push_back(Ref(s));
    }
    t.none = 0;
    t.show = [](const Int& v)
    {
        return mc::str(v) + (v.is_zero() ? "z" : v.is_positive() ? "p" : "n");
    };
    t.text = [](const Ref& r) { return r.str() + (r == 0 ? "z" : r > 0 ? "p" : "n"); };
    auto nz = [](const Ref&, const Ref& b) { return b != 0; };
    t.bin = {{"+=", [](Int& a, const Int& b) { a += b; }, [](Ref& a, const Ref& b) { a += b; }},
             {"-=", [](Int& a, const Int& b) { a -= b; }, [](Ref& a, const Ref& b) { a -= b; }},
             {"*=", [](Int& a, const Int& b) { a *= b; }, [](Ref& a, const Ref& b) { a *= b; }},
             {"/=", [](Int& a, const Int& b) { a /= b; }, [](Ref& a, const Ref& b) { a /= b; }, nz},
             {"%=", [](Int& a, const Int& b) { a %= b; }, [](Ref& a, const Ref& b) { a %= b; }, nz},
             {"= a - b of", [](Int& a, const Int& b) { a = a - b; }, [](Ref& a, const Ref& b) { a = a - b; }},
             {"= gcd with", [](Int& a, const Int& b) { a = Int::gcd(a, b); }, [](Ref& a, const Ref& b) { a = gcd(a, b); }}};
    t.un = {{"++", [](Int& a) { ++a; }, [](Ref& a) { ++a; }},
            {"--", [](Int& a) { --a; }, [](Ref& a) { --a; }},
            {"*= -3", [](Int& a) { a *= -3; }, [](Ref& a) { a *= -3; }},
            {"negated", [](Int& a) { a = -a; }, [](Ref& a) { a = -a; }},
            {"read", [](Int& a) { std::istringstream s("-100 "); s >> a; if (s.bad()) throw std::bad_alloc(); }, [](Ref& a) { a = -100; }}};
    typedef Int V;
    auto bnz = [](const Ref&, const Ref& b) { return b != 0; };
    auto sm = [](const Ref& a, const Ref&) { return a >= 0 && a < 1000; };
    t.prod = {PROD("+", a + b), PROD("-", a - b), PROD("*", a * b), PROD_IF("/", bnz, a / b), PROD_IF("%", bnz, a % b), PROD("neg", -a), PROD("pos", +a), PROD("abs", a.abs()),
              PROD("==", a == b), PROD("<", a < b), PROD(">=", a >= b), PROD("digits", a.digits()), PROD("even", a.is_even()), PROD("odd", a.is_odd()),
              PROD("gcd", Int::gcd(a, b)), PROD("lcm", Int::lcm(a, b)), PROD_IF("sqrt", sm, Int::sqrt(a)), PROD_IF("factorial", [](const Ref& a, const Ref&) { return a >= 0 && a < 20; }, a.factorial()),
              PROD_IF("pow", sm, Int::pow(b, a % 5)), PROD_IF("powmod", bnz, Int::pow(a, 5, b)), PROD_IF("log", sm, Int::log(a + 1, 3)), PROD_IF("next_prime", sm, a.next_prime()), PROD_IF("is_prime", sm, a.is_prime()),
              PROD_IF("to_integer", sm, a.to_integer<int>()), PROD("hash", std::hash<Int>{}(a)), PROD("print", mc::str(a)), PROD("parse", Int("-12345678901234567890")), PROD("copy", Int(a)), PROD("from int", Int(INT_MIN))};
    return t;
}
typedef Type<Fraction, Q> TFr;
inline TFr t_frac()
{
    TFr t;
    for (auto p : std::vector<std::pair<int, int>>{{0, 1}, {1, 2}, {-7, 3}, {30000, 1}})
    {
        t.make.push_back([p] { return Fraction(p.first, p.second); });
        t.model.push_back(Q(p.first, p.second));
    }
    t.show = [](const Fraction& v)
    {
        (void)(-v, +v, v.abs(), v < v, double(v));
        return sf(v);
    };
    t.text = sq;
    auto fits = [](auto op) { return [op](const Q& a, const Q& b) { return op(a, b).fits(); }; };
    auto nzfits = [](const Q& a, const Q& b) { return b.n != 0 && (a / b).fits(); };
    t.bin = {{"+=", [](Fraction& a, const Fraction& b) { a += b; }, [](Q& a, const Q& b) { a = a + b; }, fits([](Q a, Q b) { return a + b; })},
             {"-=", [](Fraction& a, const Fraction& b) { a -= b; }, [](Q& a, const Q& b) { a = a - b; }, fits([](Q a, Q b) { return a - b; })},
             {"*=", [](Fraction& a, const Fraction& b) { a *= b; }, [](Q& a, const Q& b) { a = a * b; }, fits([](Q a, Q b) { return a * b; })},
             {"/=", [](Fraction& a, const Fraction& b) { a /= b; }, [](Q& a, const Q& b) { a = a / b; }, nzfits},
             {"%=", [](Fraction& a, const Fraction& b) { a %= b; }, [](Q& a, const Q& b) { a = a - Q(trunc(a / b)) * b; }, [=](const Q& a, const Q& b) { return nzfits(a, b) && (a - Q(trunc(a / b)) * b).fits(); }}};
    auto small = [](const Q& a) { return wabs(a.n) < 1000000 && a.d < 1000000; };
    t.un = {{"++", [](Fraction& a) { ++a; }, [](Q& a) { a = a + Q(1); }, small},
            {"--", [](Fraction& a) { --a; }, [](Q& a) { a = a - Q(1); }, small},
            {"negated", [](Fraction& a) { a = -a; }, [](Q& a) { a.n = -a.n; }, small},
            {"read", [](Fraction& a) { std::istringstream s("4/-6 "); s >> a; if (s.bad()) throw std::bad_alloc(); }, [](Q& a) { a = Q(-2, 3); }}};
    typedef Fraction V;
    auto tiny = [](const Q& a, const Q& b) { return wabs(a.n) < 30000 && a.d < 30000 && wabs(b.n) < 30000 && b.d < 30000; };
    auto tinyz = [tiny](const Q& a, const Q& b) { return tiny(a, b) && b.n != 0; };
    t.prod = {PROD_IF("+", tiny, a + b), PROD_IF("-", tiny, a - b), PROD_IF("*", tiny, a * b), PROD_IF("/", tinyz, a / b), PROD_IF("%", tinyz, a % b), PROD_IF("neg", tiny, -a), PROD_IF("abs", tiny, a.abs()),
              PROD("<", a < b), PROD("==", a == b), PROD("double", double(a)), PROD_IF("gcd", tiny, Fraction::gcd(a, b)), PROD_IF("lcm", tiny, Fraction::lcm(a, b)), PROD("hash", std::hash<Fraction>{}(a)), PROD("print", mc::str(a))};
    return t;
}
struct Z
{
    double r = 0, i = 0;
};
typedef Type<Complex, Z> TCx;
inline TCx t_cx()
{
    TCx t;
    for (auto p : std::vector<std::pair<double, double>>{{0, 0}, {1, 2}, {-0.5, 3}})
    {
        t.make.push_back([p] { return Complex(p.first, p.second); });
        t.model.push_back(Z{p.first, p.second});
    }
    auto tx = [](double r, double i)
    {
        std::ostringstream o;
        o.precision(17);
        o << r + 0.0 << "," << i + 0.0; // no signed zeros
        return o.str();
    };
    t.show = [tx](const Complex& v)
    {
        (void)(-v, v.conjugate(), v.abs(), v.arg());
        return tx(v.real(), v.imag());
    };
    t.text = [tx](const Z& z) { return tx(z.r, z.i); };
    t.bin = {{"+=", [](Complex& a, const Complex& b) { a += b; }, [](Z& a, const Z& b) { a = Z{a.r + b.r, a.i + b.i}; }},
             {"-=", [](Complex& a, const Complex& b) { a -= b; }, [](Z& a, const Z& b) { a = Z{a.r - b.r, a.i - b.i}; }},
             {"*=", [](Complex& a, const Complex& b) { a *= b; }, [](Z& a, const Z& b) { a = Z{a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; }, [](const Z& a, const Z& b) { return std::abs(a.r) + std::abs(a.i) < 1e4 && std::abs(b.r) + std::abs(b.i) < 1e4; }},
             {"/=", [](Complex& a, const Complex& b) { a /= b; }, [](Z& a, const Z& b) { double n = b.r * b.r + b.i * b.i; a = Z{(a.r * b.r + a.i * b.i) / n, (a.i * b.r - a.r * b.i) / n}; },
              [](const Z& a, const Z& b) { double n = b.r * b.r + b.i * b.i; int e; return n != 0 && std::frexp(n, &e) == 0.5 && std::abs(e) < 20; }}};
    t.un = {{"negated", [](Complex& a) { a = -a; }, [](Z& a) { a = Z{-a.r, -a.i}; }},
            {"conjugated", [](Complex& a) { a = a.conjugate(); }, [](Z& a) { a.i = -a.i; }},
            {"*= 2", [](Complex& a) { a *= 2; }, [](Z& a) { a = Z{a.r * 2, a.i * 2}; }},
            {"read", [](Complex& a) { std::istringstream s("4-6j "); s >> a; if (s.bad()) throw std::bad_alloc(); }, [](Z& a) { a = Z{4, -6}; }}};
    typedef Complex V;
    auto bnz = [](const Z&, const Z& b) { return b.r != 0 || b.i != 0; };
    auto anz = [](const Z& a, const Z&) { return a.r != 0 || a.i != 0; };
    t.prod = {PROD("+", a + b), PROD("-", a - b), PROD("*", a * b), PROD_IF("/", bnz, a / b), PROD("neg", -a), PROD("conj", a.conjugate()), PROD("abs", a.abs()), PROD("arg", a.arg()), PROD("==", a == b),
              PROD_IF("pow", anz, Complex::pow(a, Complex(2, 1))), PROD("hash", std::hash<Complex>{}(a)), PROD("print", mc::str(a))};
    return t;
}
// ---- strings ---------------------------------------------------------------------------------------------
typedef Type<Str, std::string> TStr;
inline TStr t_str()
{
    TStr t;
    for (const std::string& s : {std::string(), std::string("Ab"), std::string("a string that is on the heap \0 Q", 32)})
    {
        t.make.push_back([s] { return Str(s); });
        t.model.push_back(s);
    }
    t.show = [](const Str& v)
    {
        return quote(std::string(v.begin(), v.end())) + std::to_string(v.size()) + (v.is_empty() ? "e" : "") + (v.data()[v.size()] == 0 ? "" : " not terminated");
    };
    t.text = [](const std::string& s) { return quote(s) + std::to_string(s.size()) + (s.empty() ? "e" : ""); };
    t.bin = {{"= a + b", [](Str& a, const Str& b) { a = a + b; }, [](std::string& a, const std::string& b) { a += b; }},
             {"= a.join([b, b])", [](Str& a, const Str& b) { a = a.join(List<Str>{b, b}); }, [](std::string& a, const std::string& b) { a = b + a + b; }},
             {"= a.replace(b, a)", [](Str& a, const Str& b) { a = a.replace(b, a); },
              [](std::string& a, const std::string& b)
              {
                  std::string r;
                  for (std::size_t i = 0; i < a.size();)
                      if (a.compare(i, b.size(), b) == 0)
                          r += a, i += b.size();
                      else
                          r += a[i++];
                  a = r; },
              [](const std::string&, const std::string& b) { return !b.empty(); }}};
    t.un = {{"reversed", [](Str& a) { a = a.reverse(); }, [](std::string& a) { std::reverse(a.begin(), a.end()); }},
            {"+ 'x'", [](Str& a) { a = a + 'x'; }, [](std::string& a) { a += 'x'; }},
            {"* 2", [](Str& a) { a = a * 2; }, [](std::string& a) { a += std::string(a); }},
            {"upper", [](Str& a) { a = a.upper(); }, [](std::string& a) { for (auto& c : a) c = c >= 'a' && c <= 'z' ? c - 32 : c; }},
            {"line read", [](Str& a) { std::istringstream s("a new line\n"); s >> a; if (s.bad()) throw std::bad_alloc(); }, [](std::string& a) { a = "a new line"; }}};
    typedef Str V;
    auto bsome = [](const std::string&, const std::string& b) { return !b.empty(); };
    auto asome = [](const std::string& a, const std::string&) { return !a.empty(); };
    t.prod = {PROD("+", a + b), PROD("+ char", a + 'x'), PROD("*", a * 2), PROD("reverse", a.reverse()), PROD("lower", a.lower()), PROD("upper", a.upper()), PROD("strip", a.strip()), PROD(">>", a >> 1), PROD("<<", a << 1),
              PROD_IF("split", bsome, a.split(b)), PROD_IF("split keep", bsome, a.split(b, true)), PROD("join", a.join(List<Str>{a, b, a})), PROD("replace", a.replace(Str("a"), b)), PROD("find", a.find(b)), PROD("count", a.count(Str("a"))),
              PROD("contains", a.contains(b)), PROD("starts", a.starts_with(b)), PROD("ends", a.ends_with(b)), PROD("==", a == b), PROD("<", a < b), PROD_IF("slice", asome, a.slice(0, a.size(), 2)), PROD("erase", a.erase(0, a.size() / 2)),
              PROD("format", Str("a format string that is on the heap: {} and {}, {}.").format(a, b, 42)), PROD("to_integer", Str(" -123456789012345678901 ").to_integer()), PROD("to_decimal", Str("-12.5e-3").to_decimal()),
              PROD("hash", std::hash<Str>{}(a)), PROD("print", mc::str(a)), PROD_IF("[]", asome, a[-1]), PROD("copy", Str(a)), PROD("from chars", Str("some longer text, on the heap"))};
    return t;
}
// ---- sequences -------------------------------------------------------------------------------------------
template <class C>
std::string seq_show(const C& l)
{
    std::string t = mc::show(keys(l)) + std::to_string(l.size()) + (l.is_empty() ? "e" : "");
    return t;
}
inline std::string seq_text(const Seq& s)
{
    return mc::show(s) + std::to_string(s.size()) + (s.empty() ? "e" : "");
}
template <class E>
Type<List<E>, Seq> t_list()
{
    typedef List<E> L;
    Type<L, Seq> t;
    for (const Seq& s : {Seq{}, Seq{1}, Seq{2, 0, 1}, Seq{1, 1, 2, 3, 3}})
    {
        t.make.push_back([s] { auto v = elems<E>(s); return L(v.begin(), v.end()); });
        t.model.push_back(s);
    }
    t.show = [](const L& l)
    {
        return seq_show(l);
    };
    t.text = seq_text;
    auto some = [](const Seq& m) { return !m.empty(); };
    auto shorter = [](const Seq& a, const Seq& b) { return a.size() + b.size() < 60; };
    t.bin = {{"+=", [](L& a, const L& b) { a += b; }, [](Seq& a, const Seq& b) { a.insert(a.end(), b.begin(), b.end()); }, shorter},
             {"extend with all of", [](L& a, const L& b) { a.extend(b.begin(), b.end()); }, [](Seq& a, const Seq& b) { a.insert(a.end(), b.begin(), b.end()); }, shorter},
             {"+= first element of", [](L& a, const L& b) { a += b[0]; }, [](Seq& a, const Seq& b) { a.push_back(b[0]); }, [](const Seq&, const Seq& b) { return !b.empty(); }},
             {"insert at 0 the last element of", [](L& a, const L& b) { a.insert(0, b[-1]); }, [](Seq& a, const Seq& b) { a.insert(a.begin(), b.back()); }, [](const Seq&, const Seq& b) { return !b.empty(); }},
             {"/= first element of", [](L& a, const L& b) { a /= b[0]; }, [](Seq& a, const Seq& b) { a.erase(std::remove(a.begin(), a.end(), int(b[0])), a.end()); }, [](const Seq&, const Seq& b) { return !b.empty(); }},
             {"-= last element of", [](L& a, const L& b) { a -= b[-1]; }, [](Seq& a, const Seq& b) { auto i = std::find(a.begin(), a.end(), b.back()); if (i != a.end()) a.erase(i); }, [](const Seq&, const Seq& b) { return !b.empty(); }},
             {"[0] = last element of", [](L& a, const L& b) { a[0] = b[-1]; }, [](Seq& a, const Seq& b) { a[0] = b.back(); }, [](const Seq& a, const Seq& b) { return !a.empty() && !b.empty(); }}};
    t.un = {{"+= 4", [](L& a) { a += El<E>::make(4); }, [](Seq& a) { a.push_back(4); }},
            {"remove(-1)", [](L& a) { a.remove(-1); }, [](Seq& a) { a.pop_back(); }, some},
            {"*= 2", [](L& a) { a *= 2; }, [](Seq& a) { Seq b = a; a.insert(a.end(), b.begin(), b.end()); }, [](const Seq& a) { return a.size() < 30; }},
            {"sort", [](L& a) { a.sort(); }, [](Seq& a) { std::sort(a.begin(), a.end()); }},
            {"uniquify", [](L& a) { a.uniquify(); }, [](Seq& a) { Seq b; for (int x : a) if (std::find(b.begin(), b.end(), x) == b.end()) b.push_back(x); a = b; }},
            {">>= 1", [](L& a) { a >>= 1; }, [](Seq& a) { if (!a.empty()) std::rotate(a.begin(), a.end() - 1, a.end()); }},
            {"clear", [](L& a) { a.clear(); }, [](Seq& a) { a.clear(); }},
            {"= itself without the first, by slice", [](L& a) { a = a.size() > 1 ? a.slice(1, a.size()) : L(); }, [](Seq& a) { a.erase(a.begin()); }, some}};
    typedef L V;
    auto asome = [](const Seq& a, const Seq&) { return !a.empty(); };
    auto bsome = [](const Seq&, const Seq& b) { return !b.empty(); };
    t.prod = {PROD("+ list", a + b), PROD_IF("+ element", bsome, a + b[0]), PROD_IF("- element", bsome, a - b[-1]), PROD_IF("/ element", bsome, a / b[0]), PROD("*", a * 2), PROD_IF("slice", asome, a.slice(-1, -a.size() - 1, -1)),
              PROD("==", a == b), PROD("<", a < b), PROD_IF("count", bsome, a.count(b[0])), PROD_IF("index", bsome, a.index(b[0])), PROD_IF("contains", bsome, a.contains(b[0])), PROD_IF("find", bsome, a.find(b[0]) == a.end()),
              PROD("size", a.size()), PROD_IF("[]", asome, a[-1]), PROD("print", mc::str(a)), PROD("copy", L(a)), PROD("from range", L(b.begin(), b.end()))};
    t.un.push_back({"erase(0, 1)", [](L& a) { a.erase(0, 1); }, [](Seq& a) { a.erase(a.begin()); }, some});
    t.un.push_back({"insert(0, 4)", [](L& a) { a.insert(0, El<E>::make(4)); }, [](Seq& a) { a.insert(a.begin(), 4); }});
    t.un.push_back({"reverse", [](L& a) { a.reverse(); }, [](Seq& a) { std::reverse(a.begin(), a.end()); }});
    t.un.push_back({"filter", [](L& a) { a.filter([](const E& e) { return El<E>::key(e) != 1; }); }, [](Seq& a) { std::erase(a, 1); }});
    return t;
}
template <class E>
Type<Deque<E>, Seq> t_deque()
{
    typedef Deque<E> D;
    Type<D, Seq> t;
    for (const Seq& s : {Seq{}, Seq{1}, Seq{2, 0, 1}, Seq{1, 1, 2, 3, 3}})
    {
        t.make.push_back([s] { auto v = elems<E>(s); return D(v.begin(), v.end()); });
        t.model.push_back(s);
    }
    t.show = [](const D& l)
    {
        (void)(l < l, l == l);
        return seq_show(l);
    };
    t.text = seq_text;
    auto some = [](const Seq& m) { return !m.empty(); };
    auto osome = [](const Seq&, const Seq& b) { return !b.empty(); };
    auto shorter = [](const Seq& a, const Seq& b) { return a.size() + b.size() < 60; };
    t.bin = {{"extend_back with", [](D& a, const D& b) { a.extend_back(b.begin(), b.end()); }, [](Seq& a, const Seq& b) { a.insert(a.end(), b.begin(), b.end()); }, shorter},
             {"extend_front with", [](D& a, const D& b) { a.extend_front(b.begin(), b.end()); }, [](Seq& a, const Seq& b) { a.insert(a.begin(), b.begin(), b.end()); }, shorter},
             {"push_back front of", [](D& a, const D& b) { a.push_back(b.front()); }, [](Seq& a, const Seq& b) { a.push_back(b.front()); }, osome},
             {"push_front back of", [](D& a, const D& b) { a.push_front(b.back()); }, [](Seq& a, const Seq& b) { a.insert(a.begin(), b.back()); }, osome},
             {"front() = back of", [](D& a, const D& b) { a.front() = b.back(); }, [](Seq& a, const Seq& b) { a.front() = b.back(); }, [](const Seq& a, const Seq& b) { return !a.empty() && !b.empty(); }}};
    t.un = {{"push_back(4)", [](D& a) { a.push_back(El<E>::make(4)); }, [](Seq& a) { a.push_back(4); }},
            {"push_front(4)", [](D& a) { a.push_front(El<E>::make(4)); }, [](Seq& a) { a.insert(a.begin(), 4); }},
            {"pop_back", [](D& a) { a.pop_back(); }, [](Seq& a) { a.pop_back(); }, some},
            {"pop_front", [](D& a) { a.pop_front(); }, [](Seq& a) { a.erase(a.begin()); }, some},
            {"reverse", [](D& a) { a.reverse(); }, [](Seq& a) { std::reverse(a.begin(), a.end()); }},
            {"<<= 1", [](D& a) { a <<= 1; }, [](Seq& a) { if (!a.empty()) std::rotate(a.begin(), a.begin() + 1, a.end()); }},
            {"clear", [](D& a) { a.clear(); }, [](Seq& a) { a.clear(); }}};
    typedef D V;
    auto asome = [](const Seq& a, const Seq&) { return !a.empty(); };
    t.prod = {PROD("==", a == b), PROD("<", a < b), PROD("size", a.size()), PROD_IF("[]", asome, a[-1]), PROD_IF("front", asome, a.front()), PROD_IF("back", asome, a.back()), PROD("print", mc::str(a)), PROD("copy", D(a)), PROD("from range", D(b.begin(), b.end()))};
    t.un.push_back({"[0] = 4", [](D& a) { a[0] = El<E>::make(4); }, [](Seq& a) { a[0] = 4; }, some});
    return t;
}
// ---- sets and dictionaries -------------------------------------------------------------------------------
typedef std::set<int> MSet;
template <class E>
Type<Set<E>, MSet> t_set()
{
    typedef Set<E> S;
    Type<S, MSet> t;
    for (const Seq& s : {Seq{}, Seq{1}, Seq{0, 1, 2}, Seq{2, 3, 5, 7}})
    {
        t.make.push_back([s] { auto v = elems<E>(s); return S(v.begin(), v.end()); });
        t.model.push_back(MSet(s.begin(), s.end()));
    }
    t.show = [](const S& s)
    {
        return seq_show(s);
    };
    t.text = [](const MSet& m) { return seq_text(Seq(m.begin(), m.end())); };
    auto osome = [](const MSet&, const MSet& b) { return !b.empty(); };
    auto some = [](const MSet& m) { return !m.empty(); };
    t.bin = {{"&=", [](S& a, const S& b) { a &= b; }, [](MSet& a, const MSet& b) { std::erase_if(a, [&](int x) { return !b.count(x); }); }},
             {"|=", [](S& a, const S& b) { a |= b; }, [](MSet& a, const MSet& b) { a.insert(b.begin(), b.end()); }},
             {"-=", [](S& a, const S& b) { a -= b; }, [](MSet& a, const MSet& b) { std::erase_if(a, [&](int x) { return b.count(x); }); }},
             {"^=", [](S& a, const S& b) { a ^= b; }, [](MSet& a, const MSet& b) { MSet r; for (int x : a) if (!b.count(x)) r.insert(x); for (int x : b) if (!a.count(x)) r.insert(x); a = r; }},
             {"extend with", [](S& a, const S& b) { a.extend(b.begin(), b.end()); }, [](MSet& a, const MSet& b) { a.insert(b.begin(), b.end()); }},
             {"remove first of", [](S& a, const S& b) { a.remove(*b.begin()); }, [](MSet& a, const MSet& b) { int x = *b.begin(); a.erase(x); }, osome},
             {"add last of", [](S& a, const S& b) { a.add(*b.rbegin()); }, [](MSet& a, const MSet& b) { a.insert(*b.rbegin()); }, osome}};
    t.un = {{"add(4)", [](S& a) { a.add(El<E>::make(4)); }, [](MSet& a) { a.insert(4); }},
            {"remove(1)", [](S& a) { a.remove(El<E>::make(1)); }, [](MSet& a) { a.erase(1); }},
            {"pop", [](S& a) { a.pop(); }, [](MSet& a) { a.erase(a.begin()); }, some},
            {"clear", [](S& a) { a.clear(); }, [](MSet& a) { a.clear(); }}};
    typedef S V;
    auto asome = [](const MSet& a, const MSet&) { return !a.empty(); };
    auto bsome2 = [](const MSet&, const MSet& b) { return !b.empty(); };
    t.prod = {PROD("&", a & b), PROD("|", a | b), PROD("-", a - b), PROD("^", a ^ b), PROD("==", a == b), PROD("<", a < b), PROD("<=", a <= b), PROD(">=", a >= b), PROD_IF("min", asome, a.min()), PROD_IF("max", asome, a.max()),
              PROD_IF("contains", bsome2, a.contains(*b.begin())), PROD_IF("find", bsome2, a.find(*b.begin()) == a.end()), PROD("size", a.size()), PROD("print", mc::str(a)), PROD("copy", S(a)), PROD("from range", S(b.begin(), b.end()))};
    return t;
}
typedef std::map<int, int> MMap;
template <class K, class X>
Type<Dict<K, X>, MMap> t_dict()
{
    typedef Dict<K, X> D;
    Type<D, MMap> t;
    for (const MMap& s : {MMap{}, MMap{{1, 1}}, MMap{{0, 2}, {1, 0}, {2, 2}}})
    {
        t.make.push_back([s] { D d; for (auto& [k, v] : s) d.add(El<K>::make(k), El<X>::make(v)); return d; });
        t.model.push_back(s);
    }
    auto text = [](const MMap& m)
    {
        std::string o;
        for (auto& [k, v] : m)
            o += std::to_string(k) + ":" + std::to_string(v) + " ";
        return o + std::to_string(m.size());
    };
    t.text = text;
    t.show = [](const D& d)
    {
        K e = El<K>::make(1);
        X z = El<X>::make(0);
        (void)(d.keys(), d.values(), d.items(), d.contains(e), d.find(e), d.get(e, z), d == d);
        if (!d.is_empty())
            (void)(d.min(), d.max(), d[d.min()]);
        std::string o;
        for (auto& [k, v] : d)
            o += std::to_string(El<K>::key(k)) + ":" + std::to_string(El<X>::key(v)) + " ";
        return o + std::to_string(d.size());
    };
    auto osome = [](const MMap&, const MMap& b) { return !b.empty(); };
    auto some = [](const MMap& m) { return !m.empty(); };
    t.bin = {{"extend with", [](D& a, const D& b) { a.extend(b.begin(), b.end()); }, [](MMap& a, const MMap& b) { a.insert(b.begin(), b.end()); }},
             {"remove first key of", [](D& a, const D& b) { a.remove(b.begin()->first); }, [](MMap& a, const MMap& b) { int k = b.begin()->first; a.erase(k); }, osome},
             {"add 4: first value of", [](D& a, const D& b) { a.add(El<K>::make(4), b.begin()->second); }, [](MMap& a, const MMap& b) { a.insert({4, b.begin()->second}); }, osome},
             {"[1] = last value of", [](D& a, const D& b) { a[El<K>::make(1)] = b.rbegin()->second; }, [](MMap& a, const MMap& b) { a[1] = b.rbegin()->second; }, [](const MMap& a, const MMap& b) { return a.count(1) && !b.empty(); }}};
    t.un = {{"add(4, 3)", [](D& a) { a.add(El<K>::make(4), El<X>::make(3)); }, [](MMap& a) { a.insert({4, 3}); }},
            {"[1] = 5", [](D& a) { a[El<K>::make(1)] = El<X>::make(5); }, [](MMap& a) { a[1] = 5; }, [](const MMap& a) { return a.count(1) == 1; }},
            {"remove(1)", [](D& a) { a.remove(El<K>::make(1)); }, [](MMap& a) { a.erase(1); }},
            {"pop", [](D& a) { a.pop(); }, [](MMap& a) { a.erase(a.begin()); }, some},
            {"clear", [](D& a) { a.clear(); }, [](MMap& a) { a.clear(); }}};
    {
        typedef D V;
        auto asome = [](const MMap& a, const MMap&) { return !a.empty(); };
        auto bsome = [](const MMap&, const MMap& b) { return !b.empty(); };
        t.prod = {PROD("keys", a.keys()), PROD("values", a.values()), PROD("items", a.items()), PROD("==", a == b), PROD_IF("min", asome, a.min()), PROD_IF("max", asome, a.max()), PROD_IF("[]", asome, a[a.begin()->first]),
                  PROD_IF("get", bsome, a.get(b.begin()->first, b.begin()->second)), PROD_IF("contains", bsome, a.contains(b.begin()->first)), PROD_IF("find", bsome, a.find(b.begin()->first) == a.end()), PROD("size", a.size()), PROD("print", mc::str(a)),
                  PROD("copy", D(a)), PROD("from range", D(b.begin(), b.end()))};
    }
    return t;
}
// ---- tuples ----------------------------------------------------------------------------------------------
template <class A, class B>
Type<Tuple<A, B>, Seq> t_tuple()
{
    typedef Tuple<A, B> T;
    Type<T, Seq> t;
    t.moved_known = false;
    for (const Seq& s : {Seq{0, 0}, Seq{1, 0}, Seq{1, 2}})
    {
        t.make.push_back([s] { return T(El<A>::make(s[0]), El<B>::make(s[1])); });
        t.model.push_back(s);
    }
    t.none = {0, 0};
    t.show = [](const T& v)
    {
        (void)(v == v, v != v, v.rest());
        return mc::show(Seq{El<A>::key(v.template get<0>()), El<B>::key(v.template get<1>())});
    };
    t.text = [](const Seq& s) { return mc::show(s); };
    typedef T V;
    t.prod = {PROD("==", a == b), PROD("!=", a != b), PROD("get", a.template get<0>()), PROD("rest", a.rest()), PROD("copy", T(a)), PROD("make_tuple", pyincpp::make_tuple(a, b)), PROD("print", mc::str(a))};
    return t;
}
// ---- nested containers: copies are deep ------------------------------------------------------------------
typedef std::vector<Seq> Nest;
inline Type<List<List<std::string>>, Nest> t_nested()
{
    typedef List<std::string> I;
    typedef List<I> L;
    Type<L, Nest> t;
    auto inner = [](const Seq& s) { auto v = elems<std::string>(s); return I(v.begin(), v.end()); };
    for (const Nest& n : {Nest{}, Nest{{1}}, Nest{{0, 1}, {}, {2}}})
    {
        t.make.push_back([n, inner] { L l; for (auto& s : n) l += inner(s); return l; });
        t.model.push_back(n);
    }
    t.text = [](const Nest& n) { std::string o; for (auto& s : n) o += seq_text(s) + " "; return o; };
    t.show = [](const L& l) { std::string o; for (auto& s : l) o += seq_show(s) + " "; return o; };
    auto some = [](const Nest& n) { return !n.empty(); };
    t.bin = {{"+=", [](L& a, const L& b) { a += b; }, [](Nest& a, const Nest& b) { a.insert(a.end(), b.begin(), b.end()); }, [](const Nest& a, const Nest& b) { return a.size() + b.size() < 20; }},
             {"+= first of", [](L& a, const L& b) { a += b[0]; }, [](Nest& a, const Nest& b) { a.push_back(b[0]); }, [](const Nest&, const Nest& b) { return !b.empty(); }},
             {"[-1] += first of", [](L& a, const L& b) { a[-1] += b[0]; }, [](Nest& a, const Nest& b) { Seq s = b[0]; a.back().insert(a.back().end(), s.begin(), s.end()); }, [](const Nest& a, const Nest& b) { return !a.empty() && !b.empty() && a.back().size() < 20; }}};
    t.un = {{"[0] += 4", [](L& a) { a[0] += El<std::string>::make(4); }, [](Nest& a) { a[0].push_back(4); }, some},
            {"[0] cleared", [](L& a) { a[0].clear(); }, [](Nest& a) { a[0].clear(); }, some},
            {"+= empty", [](L& a) { a += I(); }, [](Nest& a) { a.push_back({}); }},
            {"remove(0)", [](L& a) { a.remove(0); }, [](Nest& a) { a.erase(a.begin()); }, some},
            {"*= 2", [](L& a) { a *= 2; }, [](Nest& a) { Nest b = a; a.insert(a.end(), b.begin(), b.end()); }, [](const Nest& a) { return a.size() < 10; }}};
    typedef L V;
    auto asome = [](const Nest& a, const Nest&) { return !a.empty(); };
    t.prod = {PROD("+", a + b), PROD_IF("+ element", asome, b + a[0]), PROD("*", a * 2), PROD("==", a == b), PROD("<", a < b), PROD("copy", L(a)), PROD("print", mc::str(a)), PROD_IF("slice", asome, a.slice(0, 1))};
    return t;
}
} // namespace val
