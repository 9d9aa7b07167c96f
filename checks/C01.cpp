// C01: Int addition, subtraction and multiplication are exact.
#include "intfam.hpp"
using namespace fam;
using mc::Ctx;

static void dense(Ctx& c, int n)
{
    long long a = c.pick(-n, n), b = c.pick(-n, n);
    LOG(c, "a=" << a << " b=" << b);
    const Int x(static_cast<int>(a)), y(static_cast<int>(b));
    is_fast(x + y, a + b, "a+b", a, b);
    is_fast(x - y, a - b, "a-b", a, b);
    is_fast(x * y, a * b, "a*b", a, b);
    Int z = x;
    CHECK(&(z += y) == &z, "+= returns its object");
    is_fast(z, a + b, "a+=b", a, b);
    z -= y;
    is_fast(z, a, "(a+=b)-=b", a, b);
    z -= y;
    is_fast(z, a - b, "a-=b", a, b);
    z *= y;
    is_fast(z, (a - b) * b, "(a-b)*=b", a, b);
    is_fast(x, a, "left operand unchanged", a, b);
    is_fast(y, b, "right operand unchanged", a, b);
    c.step(7);
    c.state(mc::hash_str(std::to_string(a) + "," + std::to_string(b)));
}

// One pair of decimal strings through every operator, against boost::multiprecision.
static void pair_check(Ctx& c, const std::string& sa, const std::string& sb)
{
    LOG(c, "a=" << cut(sa) << " b=" << cut(sb));
    const Ref ra(sa), rb(sb);
    const Int x(sa.c_str()), y(sb.c_str());
    is(x + y, ra + rb, "a+b");
    is(x - y, ra - rb, "a-b");
    is(x * y, ra * rb, "a*b");
    Int z = x;
    CHECK(&(z += y) == &z, "");
    is(z, ra + rb, "a+=b");
    CHECK(&(z -= y) == &z, "");
    is(z, ra, "a+=b, a-=b");
    z -= y;
    is(z, ra - rb, "a-=b");
    Int w = x;
    CHECK(&(w *= y) == &w, "");
    is(w, ra * rb, "a*=b");
    is(x, sa, "left operand unchanged");
    is(y, sb, "right operand unchanged");
    c.step(7);
    c.state(mc::hash_str(sa + "," + sb));
}

static void unary_check(Ctx& c, const std::string& s)
{
    LOG(c, "a=" << cut(s));
    const Ref r(s);
    const Int x(s.c_str());
    is(-x, -r, "-a");
    is(+x, r, "+a");
    is(x.abs(), Ref(boost::multiprecision::abs(r)), "abs");
    is(x, s, "operand unchanged");
    Int a = x;
    CHECK(&(++a) == &a, "");
    is(a, Ref(r + 1), "++a");
    is(x, s, "copy source unchanged by ++");
    --a;
    is(a, r, "++ then --");
    CHECK(&(--a) == &a, "");
    is(a, Ref(r - 1), "--a");
    ++a;
    is(a, r, "-- then ++");
    Int s1 = x, s2 = x, s3 = x, s4 = x;
    s1 += s1;
    is(s1, Ref(r + r), "a+=a");
    s2 -= s2;
    is(s2, Ref(0), "a-=a");
    s3 *= s3;
    is(s3, Ref(r * r), "a*=a");
    is(x + x, Ref(r + r), "a+a");
    is(x - x, Ref(0), "a-a");
    is(x * x, Ref(r * r), "a*a");
    is(x, s, "operand unchanged");
    // chained use of the results
    s4 += s4;
    s4 -= x;
    is(s4, r, "(a+=a)-=a0");
    s2 += x;
    is(s2, r, "(a-=a)+=a0");
    // repeated increments across the boundary
    for (int i = 1; i <= 12; ++i)
    {
        ++s4;
        is(s4, Ref(r + i), "repeated ++");
    }
    for (int i = 11; i >= -12; --i)
    {
        --s4;
        is(s4, Ref(r + i), "repeated --");
    }
    c.step(60);
    c.state(mc::hash_str(s));
}

// Every history of operations on one accumulator.
static void history(Ctx& c, int depth)
{
    static const std::vector<std::string> start{"0", "1", "-1", "9", "-10", "99", "1000", "-999999999999"};
    static const std::vector<std::string> opnd{"1", "-1", "9", "-10", "100", "-999", "999999999999", "0"};
    std::string s = c.of(start);
    Int a(s.c_str());
    Ref r(s);
    LOG(c, "start " << s);
    for (int d = 0; d < depth; ++d)
    {
        int op = c.choose(3 * opnd.size() + 9);
        if (op < int(3 * opnd.size()))
        {
            const std::string& o = opnd[op / 3];
            Int b(o.c_str());
            Ref q(o);
            LOG(c, "+-*"[op % 3] << "= " << o);
            if (op % 3 == 0)
                a += b, r += q;
            else if (op % 3 == 1)
                a -= b, r -= q;
            else
                a *= b, r *= q;
            is(b, q, "right operand unchanged");
        }
        else
        {
            op -= 3 * opnd.size();
            LOG(c, "unary op " << op);
            Int b = a;
            Ref q = r;
            switch (op)
            {
                case 0: ++a; r += 1; break;
                case 1: --a; r -= 1; break;
                case 2: a = -a; r = -r; break;
                case 3: a += a; r += q; break;
                case 4: a -= a; r = 0; break;
                case 5: a *= a; r *= q; break;
                case 6: a = a + (-b); r = 0; break;
                case 7: a = std::move(b) - a.abs(); r = q - boost::multiprecision::abs(q); break;
                case 8: a = a.abs(); r = boost::multiprecision::abs(r); break;
            }
        }
        is(a, r, "accumulator");
        c.step();
        c.state(mc::hash_str(rs(r)));
    }
}

void register_scenarios()
{
    bool T = mc::G.tier;
#if MC_SAN
    int n = T ? 400 : 130;
    static auto run = runs3("0159", T ? std::vector<int>{1, 2, 3, 8} : std::vector<int>{1, 3, 8}, T ? 20 : 12);
    static auto ed = edges(T ? 40 : 22, 1);
    static auto un = edges(T ? 330 : 120, 3);
    static auto un2 = runs3("01289", {1, 2, 9, 20}, 60);
    static auto lg = longs(T ? std::vector<int>{10, 16, 19, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400}
                             : std::vector<int>{10, 19, 20, 32, 33, 64, 65, 128, 129, 257});
    static std::vector<std::string> huge = longs(T ? std::vector<int>{512, 513, 1023, 1024, 1025, 2050} : std::vector<int>{512, 513, 1024, 1025});
#else
    int n = T ? 2100 : 600;
    static auto run = runs3("0159", {1, 2, 3, 8}, T ? 24 : 20);
    static auto ed = edges(T ? 60 : 36, 2);
    static auto un = edges(T ? 400 : 250, 5);
    static auto un2 = runs3("0123456789", {1, 2, 9, 20}, 42);
    static auto lg = longs(T ? std::vector<int>{9, 10, 11, 16, 17, 18, 19, 20, 21, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 400, 511}
                             : std::vector<int>{9, 10, 11, 18, 19, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257});
    static std::vector<std::string> huge = longs(T ? std::vector<int>{511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4300} : std::vector<int>{511, 512, 513, 1000, 1023, 1024, 1025, 2049});
#endif
    mc::scenario("dense-pairs", 16, [n](Ctx& c) { dense(c, n); });
    mc::scenario("edge-pairs", 16, [](Ctx& c) { const auto& a = c.of(ed); const auto& b = c.of(ed); pair_check(c, a, b); });
    mc::scenario("digit-run-pairs", 32, [](Ctx& c)
                 {
                     // all values against a fixed set of partners, both ways
                     static const std::vector<std::string> part = runs3("019", {1, 8}, 12);
                     const auto& a = c.of(run);
                     const auto& b = c.of(part);
                     if (c.flip())
                         pair_check(c, a, b);
                     else
                         pair_check(c, b, a);
                 });
    mc::scenario("long-pairs", 16, [](Ctx& c) { const auto& a = c.of(lg); const auto& b = c.of(lg); pair_check(c, a, b); });
    mc::scenario("long-short-pairs", 16, [](Ctx& c)
                 {
                     static const std::vector<std::string> sh{"0", "1", "-1", "9", "-9", "10", "-10", "99", "-101", "500000000", "999999999", "-1000000000", "12345678901234567890"};
                     const auto& a = c.of(huge);
                     const auto& b = c.of(sh);
                     if (c.flip())
                         pair_check(c, a, b);
                     else
                         pair_check(c, b, a);
                 });
    mc::scenario("huge-pairs", 16, [](Ctx& c)
                 {
                     std::size_t i = c.choose(huge.size());
                     // neighbours in the family: same length, other sign, next length
                     static const std::vector<int> off{0, 1, 2, 5, 9, 14, 18, 19};
                     std::size_t j = (i + c.of(off)) % huge.size();
                     pair_check(c, huge[i], huge[j]);
                 });
    // longer than any 16-bit counter
    mc::scenario("very long", 32, [T](Ctx& c)
                 {
                     int n = c.of(T ? wide() : std::vector<int>{32768, 65537}), ka = c.choose(3), kb = c.choose(3);
                     const int lens[] = {1, 2, n - 1, n, n / 2};
                     int m = lens[c.choose(5)];
                     const std::string a = wide_number(n, ka), b = wide_number(m, kb);
                     LOG(c, "a of " << n << " digits, kind " << ka << "; b of " << m << " digits, kind " << kb);
                     bool less = dcmp(a, b) < 0;
                     const std::string sum = dadd(a, b), diff = less ? dsub(b, a) : dsub(a, b), neg = diff == "0" ? diff : "-" + diff;
                     const Int x(a.c_str()), y(b.c_str());
                     is_text(x + y, sum, "a+b");
                     is_text(y + x, sum, "b+a");
                     is_text(x - y, less ? neg : diff, "a-b");
                     is_text(y - x, less ? diff : neg, "b-a");
                     is_text(-x - y, "-" + sum, "-a-b");
                     is_text(-x + y, less ? diff : neg, "-a+b");
                     Int z = x;
                     z += y;
                     z -= x;
                     is_text(z, b, "a+=b, a-=a");
                     for (int k : {0, 1, 9, 10, 99, 12345678})
                     {
                         is_text(x * k, dmul(a, k), "a*" + std::to_string(k));
                         is_text(Int(k) * -x, k ? "-" + dmul(a, k) : "0", std::to_string(k) + "*-a");
                     }
                     z = x;
                     ++z;
                     is_text(z, dadd(a, "1"), "++a");
                     z = x;
                     --z;
                     is_text(z, dsub(a, "1"), "--a");
                     z = -x;
                     ++z;
                     is_text(z, "-" + dsub(a, "1"), "++-a");
                     --z;
                     --z;
                     is_text(z, "-" + dadd(a, "1"), "---a");
                     is_text(z.abs(), dadd(a, "1"), "abs");
                     is_text(x, a, "operand unchanged");
                     is_text(y, b, "operand unchanged");
                     c.step(20);
                     c.state(n * 100l + m * 10 + ka * 3 + kb);
                 });
    // so long that the sum of a column of the product is beyond 16 bits even after it was divided by ten
    mc::scenario("long times long", 6, [T](Ctx& c)
                 {
                     int n = c.of(MC_SAN ? std::vector<int>{4200} : T ? std::vector<int>{4200, 8300, 16500, 33000} : std::vector<int>{4200, 8300}), d = c.choose(3), kind = c.choose(4);
                     int m = d == 2 ? 4150 : n + d;
                     LOG(c, n << " times " << m << " digits, kind " << kind);
                     std::string a(n, '9'), b(m, '9'), w;
                     if (kind == 0) // (10^n - 1) * (10^m - 1) = 10^(n+m) - 10^n - 10^m + 1
                         w = dadd(dsub(dsub("1" + std::string(n + m, '0'), "1" + std::string(n, '0')), "1" + std::string(m, '0')), "1");
                     else
                     {
                         for (int i = 0; i < n; ++i)
                             a[i] = kind == 1 ? '9' : kind == 2 ? (i % 3 ? '9' : '8') : '1' + i * 7 % 9;
                         for (int i = 0; i < m; ++i)
                             b[i] = kind == 1 ? (i ? '8' : '1') : kind == 2 ? '9' : '1' + i * 5 % 9;
                         w = Ref(Ref(a) * Ref(b)).str();
                     }
                     const Int x(a.c_str()), y(b.c_str());
                     is_text(x * y, w, "a*b");
                     is_text(-y * x, "-" + w, "-b*a");
                     if (n == m)
                     {
                         Int z = x;
                         z *= z;
                         is_text(z, kind ? Ref(Ref(a) * Ref(a)).str() : w, "a*=a");
                     }
                     c.step(3);
                     c.state(n * 100l + d * 10 + kind);
                 });
    mc::scenario("unary-edges", 16, [](Ctx& c) { unary_check(c, c.of(un)); });
    mc::scenario("unary-runs", 16, [](Ctx& c) { unary_check(c, c.of(un2)); });
    mc::scenario("unary-huge", 8, [](Ctx& c) { unary_check(c, c.of(huge)); });
    int d = (MC_SAN ? 3 : 3) + (T ? 1 : 0);
    mc::scenario("histories", 64, [d](Ctx& c) { history(c, d); });
}
