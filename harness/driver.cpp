// Replays behaviours of the Quint specification on the real library, through its public API only.
//
//   driver run FILE PROGRESS [FROM]      replay the events of FILE in order
//   driver threads N ROUNDS SEED FILE PROGRESS   the same events from N threads at once, permuted and repeated
//   driver leak FILE PROGRESS            the events again and again, watching the storage that stays behind
//   driver nomem FILE PROGRESS [FROM]    every call with each of its requests for storage refused in turn
//   driver early FILE PROGRESS           the events replayed before main() by a static initializer
//
// An event line:  OP ROUTE ERR in in in | out out out
// Integers are hexadecimal with an optional minus sign. A mismatch is printed as
//   BAD <line number> <what>
// The index of the event being replayed is kept in PROGRESS (8 bytes), for the caller to see after a crash.
#include <bigintegercpp/BigInteger.h>

#include <atomic>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iterator>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <thread>
#include <typeinfo>
#include <unistd.h>
#include <vector>

using std::string;
using std::vector;
using B = BigInteger;

// ---------------------------------------------------------------- numbers independent of the library
struct Num {
    bool neg = false;
    vector<uint32_t> l; // magnitude, least significant limb first, no leading zeros

    bool operator==(const Num& o) const { return neg == o.neg && l == o.l; }
    bool operator!=(const Num& o) const { return !(*this == o); }
    bool zero() const { return l.empty(); }
    void trim() { while (!l.empty() && l.back() == 0) l.pop_back(); if (l.empty()) neg = false; }
    bool fits64() const { return l.size() <= 2; }
    uint64_t mag64() const { return (l.size() > 1 ? (uint64_t) l[1] << 32 : 0) | (l.empty() ? 0 : l[0]); }
    long long i64() const { uint64_t m = mag64(); return neg ? (long long) (0 - m) : (long long) m; }
    string hex() const {
        if (l.empty()) return "0";
        string s = neg ? "-" : "";
        char b[12];
        snprintf(b, sizeof b, "%x", l.back()); s += b;
        for (size_t i = l.size() - 1; i-- > 0;) { snprintf(b, sizeof b, "%08x", l[i]); s += b; }
        return s;
    }
    long double ld() const {
        long double r = 0;
        for (size_t i = l.size(); i-- > 0;) r = r * 4294967296.0L + l[i];
        return neg ? -r : r;
    }
    static Num parse(const string& h) {
        Num n;
        size_t p = 0;
        if (!h.empty() && h[0] == '-') { n.neg = true; p = 1; }
        size_t e = h.size();
        while (e > p) {
            size_t b = e >= p + 8 ? e - 8 : p;
            n.l.push_back((uint32_t) strtoul(h.substr(b, e - b).c_str(), nullptr, 16));
            e = b;
        }
        n.trim();
        return n;
    }
    static Num of(long long v) {
        Num n; n.neg = v < 0;
        uint64_t m = v < 0 ? 0 - (uint64_t) v : (uint64_t) v;
        n.l = {(uint32_t) m, (uint32_t) (m >> 32)}; n.trim();
        return n;
    }
    // magnitude bytes, little endian, n of them
    vector<unsigned char> bytesLE(size_t n) const {
        vector<unsigned char> b(n, 0);
        for (size_t i = 0; i < n && i / 4 < l.size(); i++) b[i] = (unsigned char) (l[i / 4] >> (8 * (i % 4)));
        return b;
    }
    // two's complement bytes, little endian, with one spare byte
    vector<unsigned char> twosLE() const {
        auto b = bytesLE(l.size() * 4 + 1);
        if (neg) {
            int c = 1;
            for (auto& x : b) { int y = (unsigned char) ~x + c; x = (unsigned char) y; c = y >> 8; }
        }
        return b;
    }
    string dec() const {
        vector<uint32_t> v = l;
        string s;
        while (!v.empty()) {
            uint64_t r = 0;
            for (size_t i = v.size(); i-- > 0;) { r = (r << 32) | v[i]; v[i] = (uint32_t) (r / 1000000000); r %= 1000000000; }
            while (!v.empty() && v.back() == 0) v.pop_back();
            for (int i = 0; i < 9; i++) { s += (char) ('0' + r % 10); r /= 10; }
        }
        while (s.size() > 1 && s.back() == '0') s.pop_back();
        if (s.empty()) s = "0";
        if (neg) s += '-';
        return string(s.rbegin(), s.rend());
    }
};

static string hexbytes(const vector<unsigned char>& b) {
    string s; char t[4];
    for (auto x : b) { snprintf(t, sizeof t, "%02x", x); s += t; }
    return s;
}

// the integer an object denotes, and whether it is in canonical form
static Num value(const B& x, bool* canonical = nullptr) {
    uint_array b = x.get_bits();
    int s = x.sign_internal();
    bool ok;
    Num n;
    if (b.empty()) {
        ok = s != INT_MIN;
        n = Num::of(s);
    } else {
        ok = (s == 1 || s == -1) && b.back() != 0 && (b.size() > 1 || b[0] >= 0x80000000u);
        n.neg = s < 0; n.l = b; n.trim();
    }
    if (canonical) *canonical = ok;
    return n;
}

// ---------------------------------------------------------------- mismatch reporting
static std::mutex out_mutex;
static std::atomic<int> bad_count{0};
static const int BAD_MAX = 40;
struct Ctx { size_t line = 0; };
static thread_local Ctx ctx;

// What a mismatch is about; a check asks for the kinds its property speaks of (BI_KINDS).
//   V value   K canonical form   R observers of equal numbers disagree   E how a call ended
//   O an object changed that is not assigned   A aliased call differs from the same call on separate objects
static const char* kinds = "VKREOA";
static void bad(char kind, const char* fmt, ...) {
    if (!strchr(kinds, kind)) return;
    std::lock_guard<std::mutex> g(out_mutex);
    if (++bad_count > BAD_MAX) return;
    printf("BAD %zu %c ", ctx.line, kind);
    va_list ap;
    va_start(ap, fmt);
    vprintf(fmt, ap);
    va_end(ap);
    printf("\n");
    fflush(stdout);
}

static void same(const char* what, const B& x, const Num& e) {
    bool canon;
    Num v = value(x, &canon);
    if (v != e) bad('V', "%s: got %s, specification says %s", what, v.hex().c_str(), e.hex().c_str());
    if (!canon) bad('K', "%s: %s is not in canonical form (sign %d, %zu limbs)", what, v.hex().c_str(), x.sign_internal(), x.get_bits().size());
}
static void num(const char* what, long long got, long long e) {
    if (got != e) bad('V', "%s: got %lld, specification says %lld", what, got, e);
}
static void str(const char* what, const string& got, const string& e) {
    if (got != e) bad('V', "%s: got \"%s\", specification says \"%s\"", what, got.c_str(), e.c_str());
}

// the way a call ended: "" or the kind of its exception
static string kind_of_current() {
    try { throw; }
    catch (const std::overflow_error&) { return "overflow"; }
    catch (const std::out_of_range&) { return "range"; }
    catch (const std::runtime_error&) { return "runtime"; }
    catch (const std::exception& e) {
        int st; char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        string n = d ? d : typeid(e).name();
        free(d);
        if (n.find("ivideByZero") != string::npos || n.find("ivisionByZero") != string::npos) return "div0";
        return "exception " + n + " (" + e.what() + ")";
    } catch (...) { return "unknown exception"; }
}
static thread_local bool starving = false; // see starve(): running out of storage ends the whole event then
template <class F> static string outcome(F f) {
    try { f(); return ""; }
    catch (const std::bad_alloc&) { if (starving) throw; return kind_of_current(); }
    catch (...) { return kind_of_current(); }
}
// run f, which must end as `err`; on success g checks
template <class F> static bool ends(const char* what, const string& err, F f) {
    string k = outcome(f);
    if (k != err) {
        bad('E', "%s: ended with '%s', specification says '%s'", what, k.empty() ? "a result" : k.c_str(), err.empty() ? "a result" : err.c_str());
        return false;
    }
    return true;
}

// ---------------------------------------------------------------- making an object that denotes a number
enum { ROUTES = 16 };
static B limbs(const Num& n) { return B(n.l, n.neg); }
static B make_by(const Num& n, int route) {
    switch (route) {
        case 1: { uint_array p = n.l; p.resize(p.size() + 1 + n.l.size() % 3, 0); return B(p, n.neg); }
        case 2: return B(n.twosLE(), false, false);
        case 3: { auto b = n.twosLE(); return B(byte_array(b.rbegin(), b.rend()), false, true); }
        case 4: if (n.l.size() <= 300) return B::parse(n.dec()); break;
        case 5:
            if (n.fits64()) {
                uint64_t m = n.mag64();
                if (!n.neg && m <= INT32_MAX) return B((int32_t) m);
                if (n.neg && m <= 2147483648ull) return B((int32_t) (0 - (int64_t) m));
                if (!n.neg && m <= UINT32_MAX) return B((uint32_t) m);
                if (!n.neg && m > INT64_MAX) return B((uint64_t) m);
                if (m <= INT64_MAX) return B((int64_t) (n.neg ? 0 - (int64_t) m : (int64_t) m));
            }
            break;
        case 6: { B k = limbs(Num::parse("7fffffffffffffffffffffff00000001")); B x = limbs(n); x += k; x -= k; return x; }
        case 7: { B x = limbs(n); x <<= 45; return x >> 45; }
        case 8: { B x = limbs(n); B y = -x; return -y; }
        case 9: // the raw constructor, already canonical
            if (n.l.size() > 1 || (n.l.size() == 1 && n.l[0] >= 0x80000000u)) return B(n.neg ? -1 : 1, n.l);
            return B((int) n.i64(), uint_array());
        case 10:
            if (n.fits64() && n.mag64() < (1ull << 53)) return B((double) n.i64());
            break;
        case 11: { B x = limbs(Num::parse("123456789abcdef0123456789abcdef")); x = limbs(n); return x; }
        case 12: { B x = limbs(n); B y = ~x; return ~y; }
        case 13: { B x = limbs(n); B m = limbs(Num::parse("fffffffffffffffb0000000000000001")); x ^= m; x ^= m; return x; }
        case 14: { B x = limbs(n); B y = x * B(-7); return y / B(-7); }
        case 15: { B x = limbs(n); ++x; x--; return x; }
        default: break;
    }
    return limbs(n);
}
static bool routes_are_checked = false; // otherwise a faulty route falls back to the limb constructor
static B make(const Num& n, int route) {
    if (route == 0) return limbs(n);
    string k;
    try {
        B x = make_by(n, route);
        bool canon;
        if (value(x, &canon) == n && canon) return x;
        if (routes_are_checked) bad('V', "construction route %d of %s gives %s", route, n.hex().c_str(), value(x).hex().c_str());
    } catch (...) {
        if (routes_are_checked) bad('V', "construction route %d of %s: %s", route, n.hex().c_str(), kind_of_current().c_str());
    }
    return limbs(n);
}

// every observer of two objects that denote the same integer must agree
static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static uint32_t fbits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
template <class T> static string conv(const B& x) {
    B y = x;
    try { T t = static_cast<T>(y); return std::to_string(t); } catch (...) { return kind_of_current(); }
}
struct Observed {
    uint_array bits; int si; string s; byte_array le, be, us; string use; int count; int hash; uint_array u32;
    uint64_t bl; bool even, one, zero, p2; int sign; string i, u, l, ul; uint64_t d; uint32_t f; uint64_t lg;
    explicit Observed(const B& x) {
        bits = x.get_bits(); si = x.sign_internal(); s = x.to_string(); le = x.to_byte_array(); be = x.to_byte_array(false, true);
        use = outcome([&] { us = x.to_byte_array(true); });
        count = x.get_byte_count(); hash = x.get_hash_code(); u32 = x.to_uint32_array(); bl = x.get_bit_length();
        even = x.is_even(); one = x.is_one(); zero = x.is_zero(); p2 = x.is_power_of_two(); sign = x.sign();
        i = conv<int>(x); u = conv<unsigned>(x); l = conv<long>(x); ul = conv<unsigned long>(x);
        B y = x; d = dbits((double) y); f = fbits((float) y);
        lg = dbits(B::log(x, 2.0));
    }
};
static void agree(const char* what, const B& x, const B& y) {
    Observed a(x), b(y);
#define AGREE(f) if (a.f != b.f) bad('R', "%s: observer " #f " differs between two objects that denote %s", what, value(x).hex().c_str())
    AGREE(bits); AGREE(si); AGREE(s); AGREE(le); AGREE(be); AGREE(us); AGREE(use); AGREE(count); AGREE(hash); AGREE(u32); AGREE(bl);
    AGREE(even); AGREE(one); AGREE(zero); AGREE(p2); AGREE(sign); AGREE(i); AGREE(u); AGREE(l); AGREE(ul); AGREE(d); AGREE(f); AGREE(lg);
#undef AGREE
    if (!(x == y) || x != y || !x.equals(y) || x.compare_to(y) != 0 || y.compare_to(x) != 0 || x < y || x > y || !(x <= y) || !(x >= y))
        bad('R', "%s: two objects that denote %s do not compare equal", what, value(x).hex().c_str());
}

// ---------------------------------------------------------------- events
struct Event {
    size_t line = 0;
    string op, err;
    int route = 0;
    vector<Num> a, r;
};

// Operands: fresh objects made by the event's route, or (threads) shared read-only ones.
struct Operands {
    vector<B> v;
    vector<Num> n;
    Operands(const Event& e, size_t k) {
        for (size_t i = 0; i < k; i++) { v.push_back(make(e.a[i], e.route ? (e.route + 5 * (int) i) % ROUTES : 0)); n.push_back(e.a[i]); }
    }
    void unchanged(const char* what) {
        for (size_t i = 0; i < v.size(); i++) {
            bool canon;
            if (value(v[i], &canon) != n[i] || !canon) {
                bad('O', "%s: operand %zu was %s and is now %s", what, i, n[i].hex().c_str(), value(v[i]).hex().c_str());
                v[i] = limbs(n[i]);
            }
        }
    }
};

// One operation in all its forms. `bin(a,b)` by value, `comp(a,b)` compound on the left, `stat(a,b)` static.
static void three(const char* what, const string& err, Operands& o, int i, int j, const Num& e,
                  std::function<B(B&, B&)> bin, std::function<B&(B&, B&)> comp, std::function<B(B&, B&)> stat) {
    string w = what;
    if (bin) { B x; if (ends((w + " binary").c_str(), err, [&] { x = bin(o.v[i], o.v[j]); }) && err.empty()) same((w + " binary").c_str(), x, e); }
    o.unchanged((w + " binary").c_str());
    if (comp) {
        B x = o.v[i];
        B* ret = nullptr;
        if (ends((w + " compound").c_str(), err, [&] { ret = &comp(x, o.v[j]); })) {
            if (err.empty()) {
                same((w + " compound").c_str(), x, e);
                same((w + " compound, returned").c_str(), *ret, e);
            } else if (value(x) != o.n[i]) bad('O', "%s compound: refused, but changed its left operand to %s", what, value(x).hex().c_str());
        }
        o.unchanged((w + " compound").c_str());
        if (o.n[i] == o.n[j]) { // aliased: a op= a
            B y = o.v[i];
            if (ends((w + " compound aliased").c_str(), err, [&] { comp(y, y); }) && err.empty()) same((w + " compound aliased").c_str(), y, e);
        }
    }
    if (stat) { B x; if (ends((w + " static").c_str(), err, [&] { x = stat(o.v[i], o.v[j]); }) && err.empty()) same((w + " static").c_str(), x, e);
        o.unchanged((w + " static").c_str()); }
}
#define BIN(op) [](B& x, B& y) -> B { return x op y; }
#define COMP(op) [](B& x, B& y) -> B& { return x op y; }
#define STAT(f) [](B& x, B& y) -> B { return B::f(x, y); }

static int gcmp(const Num& n) { return n.zero() ? 0 : n.neg ? -1 : 1; }

static bool mag_ge(const Num& a, const Num& b) {
    if (a.l.size() != b.l.size()) return a.l.size() > b.l.size();
    for (size_t i = a.l.size(); i-- > 0;) if (a.l[i] != b.l[i]) return a.l[i] > b.l[i];
    return true;
}

static double as_double(const Num& n) { uint64_t u = n.mag64(); double d; memcpy(&d, &u, 8); return d; }

static string groups_text(const vector<Num>& g, size_t from, bool neg) {
    string s = neg ? "-" : "";
    char b[16];
    for (size_t i = g.size(); i-- > from;) {
        snprintf(b, sizeof b, i + 1 == g.size() ? "%u" : "%09u", (unsigned) g[i].mag64());
        s += b;
    }
    return s;
}

static void check_log(const char* what, double got, int kind, const Num& fp) {
    // kind: 0 finite (fp / 2^60), 1 +inf, 2 -inf, 3 NaN
    bool ok;
    long double e = ldexpl(fp.ld(), -60);
    if (kind == 0) ok = std::isfinite(got) && fabsl((long double) got - e) <= 1e-12L + 1e-12L * fabsl(e);
    else if (kind == 1) ok = got == INFINITY;
    else if (kind == 2) ok = got == -INFINITY;
    else ok = std::isnan(got);
    if (!ok) bad('V', "%s: got %.17g, specification says kind %d value %.17Lg", what, got, kind, e);
}

static void history(const Event& e);

static void replay(const Event& e) {
    ctx.line = e.line;
    const string& op = e.op;
    if (op == "addsub") {
        Operands o(e, 2);
        three("a+b", "", o, 0, 1, e.r[0], BIN(+), COMP(+=), STAT(add));
        three("b+a", "", o, 1, 0, e.r[0], BIN(+), COMP(+=), STAT(add));
        three("a-b", "", o, 0, 1, e.r[1], BIN(-), COMP(-=), STAT(subtract));
        three("b-a", "", o, 1, 0, e.r[2], BIN(-), COMP(-=), STAT(subtract));
        B& x = o.v[0]; B& y = o.v[1]; // on the parts of two numbers of one sign; the object it is called on plays no part
        if ((x.sign_internal() < 0) == (y.sign_internal() < 0)) {
            B any(77);
            same("add(parts)", any.add(x.get_bits(), x.sign_internal(), y.get_bits(), y.sign_internal()), e.r[0]);
            same("subtract(parts)", any.subtract(x.get_bits(), x.sign_internal(), y.get_bits(), y.sign_internal()), e.r[1]);
            same("subtract(parts) the other way", any.subtract(y.get_bits(), y.sign_internal(), x.get_bits(), x.sign_internal()), e.r[2]);
            num("add(parts), object", any.sign_internal(), 77);
        }
    } else if (op == "unary") {
        Operands o(e, 1);
        B& a = o.v[0];
        same("-a", -a, e.r[0]); o.unchanged("-a");
        same("negate(a)", B::negate(a), e.r[0]);
        same("+a", +a, e.a[0]); o.unchanged("+a");
        same("abs(a)", B::abs(a), e.r[1]); o.unchanged("abs");
        { B x = a; B& y = ++x; same("++a", x, e.r[2]); same("++a, returned", y, e.r[2]); }
        { B x = a; B& y = --x; same("--a", x, e.r[3]); same("--a, returned", y, e.r[3]); }
        { B x = a; B y = x++; same("a++", x, e.r[2]); same("a++, returned", y, e.a[0]); }
        { B x = a; B y = x--; same("a--", x, e.r[3]); same("a--, returned", y, e.a[0]); }
        same("~a", ~a, e.r[4]); o.unchanged("~a");
        { B x = a; B y = -x; B z = x + y; same("a + -a", z, Num()); }
    } else if (op == "mul") {
        Operands o(e, 2);
        three("a*b", "", o, 0, 1, e.r[0], BIN(*), COMP(*=), STAT(multiply));
        three("b*a", "", o, 1, 0, e.r[0], BIN(*), COMP(*=), STAT(multiply));
    } else if (op == "sq") {
        Operands o(e, 1);
        B& a = o.v[0];
        same("a*a", a * a, e.r[0]); o.unchanged("a*a");
        { B x = a; x *= x; same("a*=a", x, e.r[0]); }
        { B x = a; same("a*copy", a * x, e.r[0]); }
        { B x = -a; Num n = e.r[0]; if (!n.zero()) n.neg = !n.neg; same("a*-a", a * x, n); same("-a*a", x * a, n); same("-a*-a", x * x, e.r[0]); }
        same("multiply(a,a)", B::multiply(a, a), e.r[0]); o.unchanged("multiply");
    } else if (op == "divmod") {
        Operands o(e, 2);
        Num q, r;
        if (e.err.empty()) { q = e.r[0]; r = e.r[1]; }
        three("a/b", e.err, o, 0, 1, q, BIN(/), COMP(/=), STAT(divide));
        three("a%b", e.err, o, 0, 1, r, BIN(%), COMP(%=), STAT(remainder));
        B rem = limbs(Num::parse("-deadbeefdeadbeef1"));
        B quo;
        if (ends("div_rem", e.err, [&] { quo = B::div_rem(o.v[0], o.v[1], rem); })) {
            if (e.err.empty()) { same("div_rem quotient", quo, q); same("div_rem remainder", rem, r); }
            else same("div_rem remainder after a refusal", rem, Num::parse("-deadbeefdeadbeef1"));
        }
        o.unchanged("div_rem");
        if (e.err.empty()) {
            { B x = o.v[0]; B z = B::div_rem(x, o.v[1], x); same("div_rem(a,b,a) quotient", z, q); same("div_rem(a,b,a) remainder", x, r); }
            { B y = o.v[1]; B z = B::div_rem(o.v[0], y, y); same("div_rem(a,b,b) quotient", z, q); same("div_rem(a,b,b) remainder", y, r); }
            same("q*b+r", quo * o.v[1] + rem, e.a[0]);
        }
    } else if (op == "pow") {
        Operands o(e, 1);
        B x;
        int n = (int) e.a[1].i64();
        if (ends("pow", e.err, [&] { x = B::pow(o.v[0], n); }) && e.err.empty()) same("pow", x, e.r[0]);
        o.unchanged("pow");
    } else if (op == "modpow") {
        Operands o(e, 3);
        B x;
        if (ends("mod_pow", e.err, [&] { x = B::mod_pow(o.v[0], o.v[1], o.v[2]); }) && e.err.empty()) same("mod_pow", x, e.r[0]);
        o.unchanged("mod_pow");
    } else if (op == "gcd") {
        Operands o(e, 2);
        same("gcd(a,b)", B::greatest_common_divisor(o.v[0], o.v[1]), e.r[0]); o.unchanged("gcd");
        same("gcd(b,a)", B::greatest_common_divisor(o.v[1], o.v[0]), e.r[0]); o.unchanged("gcd");
        B na = -o.v[0], nb = -o.v[1];
        same("gcd(-a,b)", B::greatest_common_divisor(na, o.v[1]), e.r[0]);
        same("gcd(a,-b)", B::greatest_common_divisor(o.v[0], nb), e.r[0]);
        const Num &x = e.a[0], &y = e.a[1];
        auto big = [](const Num& n) { return n.l.size() > 1 || (n.l.size() == 1 && n.l[0] >= 0x80000000u); };
        if (big(x) && big(y)) { // the public overload on magnitudes, larger first
            if (mag_ge(x, y)) same("gcd(limbs)", B::greatest_common_divisor(x.l, y.l), e.r[0]);
            else same("gcd(limbs)", B::greatest_common_divisor(y.l, x.l), e.r[0]);
        }
    } else if (op == "shl" || op == "shr") {
        Operands o(e, 1);
        bool left = op == "shl";
        int n = (int) e.a[1].i64();
        B& a = o.v[0];
        same(left ? "a<<n" : "a>>n", left ? a << n : a >> n, e.r[0]); o.unchanged("shift");
        { B x = a; B& y = left ? (x <<= n) : (x >>= n); same("compound shift", x, e.r[0]); same("compound shift, returned", y, e.r[0]); }
        if (n != INT_MIN) same(left ? "a>>-n" : "a<<-n", left ? a >> -n : a << -n, e.r[0]);
    } else if (op == "hugeshift") { // v, n, m: v << n, then >> m; r: the first result is r[0] * 2^(32 r[1]), the second r[2] * 2^(32 r[3]); bit length of the first
        const B a = limbs(e.a[0]);
        int n = (int) e.a[1].i64(), m = (int) e.a[2].i64();
        auto is = [&](const char* what, const B& x, const Num& t, size_t z) {
            uint_array b = x.get_bits();
            if (b.empty()) { B y = x; Num g = Num::of(x.sign_internal()); if (z != 0 || g != t) bad('V', "%s: got %s, specification says %s followed by %zu zero limbs", what, g.hex().c_str(), t.hex().c_str(), z); return; }
            size_t zs = 0;
            while (zs < b.size() && b[zs] == 0) zs++;
            Num top;
            top.l.assign(b.begin() + std::min(z, b.size()), b.end());
            top.neg = x.sign_internal() < 0;
            if (zs < z || top != t) bad('V', "%s: got %s, %zu limbs of which %zu are zero at the end, specification says %s and %zu", what, top.l.size() < 9 ? top.hex().c_str() : "many limbs", b.size(), zs, t.hex().c_str(), z);
        };
        B x;
        if (!ends("huge shift", "", [&] { x = a << n; })) return;
        is("a << n", x, e.r[0], e.r[1].mag64());
        if (!a.is_zero()) num("get_bit_length of a << n", (long long) x.get_bit_length(), (long long) e.r[4].mag64());
        num("is_even of a << n", x.is_even(), 1);
        num("sign of a << n", x.sign(), gcmp(e.a[0]));
        if (!ends("huge shift", "", [&] { x >>= m; })) return;
        is("(a << n) >> m", x, e.r[2], e.r[3].mag64());
        if (n > 0) { x = B(); is("a >> -n", a >> -n, e.r[0], e.r[1].mag64()); }
    } else if (op == "bit") {
        Operands o(e, 2);
        three("a&b", "", o, 0, 1, e.r[0], BIN(&), COMP(&=), nullptr);
        three("b&a", "", o, 1, 0, e.r[0], BIN(&), COMP(&=), nullptr);
        three("a|b", "", o, 0, 1, e.r[1], BIN(|), COMP(|=), nullptr);
        three("b|a", "", o, 1, 0, e.r[1], BIN(|), COMP(|=), nullptr);
        three("a^b", "", o, 0, 1, e.r[2], BIN(^), COMP(^=), nullptr);
        three("b^a", "", o, 1, 0, e.r[2], BIN(^), COMP(^=), nullptr);
        same("~a", ~o.v[0], e.r[3]); o.unchanged("~a");
    } else if (op == "cmp") {
        Operands o(e, 2);
        const B &a = o.v[0], &b = o.v[1];
        int s = (int) e.r[0].i64();
        auto sg = [](int x) { return (x > 0) - (x < 0); };
        num("compare_to(a,b)", sg(a.compare_to(b)), s);
        num("compare_to(b,a)", sg(b.compare_to(a)), -s);
        num("a==b", a == b, s == 0); num("a!=b", a != b, s != 0); num("a<b", a < b, s < 0); num("a<=b", a <= b, s <= 0);
        num("a>b", a > b, s > 0); num("a>=b", a >= b, s >= 0); num("equals", a.equals(b), s == 0); num("b.equals", b.equals(a), s == 0);
        num("b==a", b == a, s == 0); num("b<a", b < a, s > 0); num("b>a", b > a, s < 0); num("b<=a", b <= a, s >= 0); num("b>=a", b >= a, s <= 0);
        B c = a;
        num("a.compare_to(copy)", a.compare_to(c), 0); num("a.compare_to(a)", a.compare_to(a), 0); num("a==a", a == a, 1); num("a.equals(copy)", a.equals(c), 1);
        B f = limbs(e.a[0]);
        num("hash equal for equal values", a.get_hash_code() == f.get_hash_code() && c.get_hash_code() == a.get_hash_code(), 1);
        num("fresh == made", f == a && a.compare_to(f) == 0, 1);
        if (s == 0) num("hash(a)==hash(b)", a.get_hash_code() == b.get_hash_code(), 1);
        o.unchanged("comparison");
    } else if (op == "bytes") {
        // r: n, two's complement word, the same with bytes swapped, unsigned n, unsigned word, swapped, limbs n, limb word
        Operands o(e, 1);
        const B& a = o.v[0];
        size_t n = e.r[0].mag64();
        str("to_byte_array()", hexbytes(a.to_byte_array()), hexbytes(e.r[1].bytesLE(n)));
        str("to_byte_array(false,true)", hexbytes(a.to_byte_array(false, true)), hexbytes(e.r[2].bytesLE(n)));
        num("get_byte_count()", a.get_byte_count(), n);
        int written = -1;
        a.to_byte_array(B::Count, false, false, &written); num("to_byte_array(Count)", written, n);
        str("to_byte_array(AllocateArray)", hexbytes(a.to_byte_array(B::AllocateArray)), hexbytes(e.r[1].bytesLE(n)));
        str("to_byte_array(AllocateArray,false,true)", hexbytes(a.to_byte_array(B::AllocateArray, false, true, &written)), hexbytes(e.r[2].bytesLE(n)));
        num("to_byte_array(Count), size", (long long) a.to_byte_array(B::Count).size(), 0);
        written = -1; a.to_byte_array(B::Count, false, true, &written); num("to_byte_array(Count,false,true)", written, n);
        byte_array u, v;
        string want = gcmp(e.a[0]) < 0 ? "runtime" : "";
        if (ends("to_byte_array(true)", want, [&] { u = a.to_byte_array(true); v = a.to_byte_array(true, true); }) && want.empty()) {
            size_t m = e.r[3].mag64();
            str("to_byte_array(true)", hexbytes(u), hexbytes(e.r[4].bytesLE(m)));
            str("to_byte_array(true,true)", hexbytes(v), hexbytes(e.r[5].bytesLE(m)));
            num("get_byte_count(true)", a.get_byte_count(true), m);
            str("to_byte_array(AllocateArray,true)", hexbytes(a.to_byte_array(B::AllocateArray, true)), hexbytes(e.r[4].bytesLE(m)));
            str("to_byte_array(AllocateArray,true,true)", hexbytes(a.to_byte_array(B::AllocateArray, true, true)), hexbytes(e.r[5].bytesLE(m)));
            written = -1; a.to_byte_array(B::Count, true, true, &written); num("to_byte_array(Count,true,true)", written, m);
        } else if (!want.empty()) { ends("get_byte_count(true)", want, [&] { a.get_byte_count(true); }); ends("to_byte_array(AllocateArray,true)", want, [&] { a.to_byte_array(B::AllocateArray, true); }); }
        // to_uint32_array of zero is empty
        uint_array w = a.to_uint32_array(), x = e.r[7].l;
        if (e.a[0].zero()) x.clear(); else x.resize(e.r[6].mag64(), 0);
        if (w != x) { Num g; g.l = w; bad('V', "to_uint32_array: got %zu limbs %s, specification says %zu limbs %s", w.size(), (g.trim(), g.hex()).c_str(), x.size(), e.r[7].hex().c_str()); }
        same("from to_byte_array()", B(a.to_byte_array()), e.a[0]);
        same("from to_byte_array(false,true)", B(a.to_byte_array(false, true), false, true), e.a[0]);
        if (want.empty()) { same("from to_byte_array(true)", B(u, true), e.a[0]); same("from to_byte_array(true,true)", B(v, true, true), e.a[0]); }
        o.unchanged("encoding");
    } else if (op == "frombytes") { // word n unsigned bigendian
        byte_array b = e.a[0].bytesLE(e.a[1].mag64());
        bool us = !e.a[2].zero(), be = !e.a[3].zero();
        if (be) b = byte_array(b.rbegin(), b.rend());
        byte_array c = b;
        same("BigInteger(bytes)", B(b, us, be), e.r[0]);
        if (b != c) bad('O', "BigInteger(bytes) changed its argument");
    } else if (op == "fromlimbs") { // word n negative
        uint_array l = e.a[0].l; l.resize(e.a[1].mag64(), 0);
        same("BigInteger(limbs, negative)", B(l, !e.a[2].zero()), e.r[0]);
    } else if (op == "text") {
        Operands o(e, 1);
        string t = groups_text(e.r, 0, gcmp(e.a[0]) < 0);
        str("to_string", o.v[0].to_string(), t); o.unchanged("to_string");
        same("parse(to_string)", B::parse(t), e.a[0]);
    } else if (op == "parse") { // sign form, zeros, suffix kind, groups...
        static const char* suffix[] = {"", " ", "\n", " 12", "x", ".5", "\t7", "-3", "e5", "_1", ",000", "\v9", "/1", ":1", "\xb2" "3", "\xff", "+1"};
        vector<Num> g(e.a.begin() + 3, e.a.end());
        int sf = (int) e.a[0].i64();
        string t = (sf == 1 ? "+" : sf == 2 ? "-" : "") + string(e.a[1].mag64(), '0') + groups_text(g, 0, false) + (e.a[2].mag64() == 17 ? string("\05", 2) : string(suffix[e.a[2].mag64() % 17]));
        same(("parse(\"" + t + "\")").c_str(), B::parse(t), e.r[0]);
        B x = limbs(Num::of(77));
        bool parsed = B::try_parse(t, x);
        if (starving && !parsed) throw std::bad_alloc(); // it says no for lack of storage, too
        num("try_parse", parsed, 1);
        same("try_parse", x, e.r[0]);
    } else if (op == "machine") { // r: fits int32, uint32, int64, uint64
        Operands o(e, 1);
        B& a = o.v[0];
        auto err = [&](int i) { return e.r[i].zero() ? string("overflow") : string(); };
        { int v = 0; if (ends("(int)", err(0), [&] { v = (int) a; }) && !e.r[0].zero()) { num("(int)", v, e.a[0].i64()); same("BigInteger(int)", B((int32_t) v), e.a[0]); B t; t = (int32_t) v; same("= int", t, e.a[0]); } }
        { unsigned v = 0; if (ends("(unsigned)", err(1), [&] { v = (unsigned) a; }) && !e.r[1].zero()) { num("(unsigned)", v, (long long) e.a[0].mag64()); same("BigInteger(unsigned)", B((uint32_t) v), e.a[0]); } }
        { long v = 0; if (ends("(long)", err(2), [&] { v = (long) a; }) && !e.r[2].zero()) { num("(long)", v, e.a[0].i64()); same("BigInteger(long)", B((int64_t) v), e.a[0]); } }
        { unsigned long v = 0; if (ends("(unsigned long)", err(3), [&] { v = (unsigned long) a; }) && !e.r[3].zero()) { if (v != e.a[0].mag64()) bad('V', "(unsigned long): got %lu", v); same("BigInteger(unsigned long)", B((uint64_t) v), e.a[0]); } }
        o.unchanged("conversion");
    } else if (op == "todbl") {
        Operands o(e, 1);
        B& a = o.v[0];
        uint64_t d = dbits((double) a);
        if (d != e.r[0].mag64()) bad('V', "(double): got bits %016lx, specification says %016lx", d, e.r[0].mag64());
        uint32_t f = fbits((float) a);
        if (f != e.r[1].mag64()) bad('V', "(float): got bits %08x, specification says %08lx", f, e.r[1].mag64());
        o.unchanged("conversion");
    } else if (op == "fromdbl") {
        double d = as_double(e.a[0]);
        B x;
        if (ends("BigInteger(double)", e.err, [&] { x = B(d); }) && e.err.empty()) same("BigInteger(double)", x, e.r[0]);
        num("double_IsFinite", B::double_IsFinite(d), (long long) e.r[1].mag64());
        num("double_IsInfinity", B::double_IsInfinity(d), (long long) e.r[2].mag64());
        num("double_IsNaN", B::double_IsNaN(d), (long long) e.r[3].mag64());
    } else if (op == "log") { // v, base bits; r: kind, fp
        Operands o(e, 1);
        check_log("log(v,b)", B::log(o.v[0], as_double(e.a[1])), (int) e.r[0].i64(), e.r[1]);
        o.unchanged("log");
    } else if (op == "ln") { // v; r: kind, ln, kind, log10
        Operands o(e, 1);
        check_log("log(v)", B::log(o.v[0]), (int) e.r[0].i64(), e.r[1]);
        check_log("log10(v)", B::log10(o.v[0]), (int) e.r[2].i64(), e.r[3]);
        o.unchanged("log");
    } else if (op == "pred") { // even one zero pow2 sign bitlen
        Operands o(e, 1);
        const B& a = o.v[0];
        num("is_even", a.is_even(), e.r[0].i64()); num("is_one", a.is_one(), e.r[1].i64()); num("is_zero", a.is_zero(), e.r[2].i64());
        num("is_power_of_two", a.is_power_of_two(), e.r[3].i64()); num("sign", a.sign(), e.r[4].i64());
        num("get_bit_length", (long long) a.get_bit_length(), e.r[5].i64());
        o.unchanged("predicate");
    } else if (op == "canon") { // the same integer made by every route
        B f = limbs(e.a[0]);
        same("limbs", f, e.a[0]);
        for (int r = 1; r < ROUTES; r++) {
            B x = make(e.a[0], r);
            char w[40]; snprintf(w, sizeof w, "route %d", r);
            agree(w, x, f);
        }
        Observed ob(f);
        str("text", ob.s, groups_text(vector<Num>(e.r.begin() + 4, e.r.end()), 0, gcmp(e.a[0]) < 0));
        str("bytes", hexbytes(ob.le), hexbytes(e.r[1].bytesLE(e.r[0].mag64())));
        num("bit length", (long long) ob.bl, e.r[2].i64());
        if (ob.d != e.r[3].mag64()) bad('V', "double: got %016lx, specification says %016lx", ob.d, e.r[3].mag64());
    } else if (op == "consts") {
        same("BigInteger()", B(), Num()); same("zero", B::zero(), Num()); same("one", B::one(), Num::of(1)); same("minus_one", B::minus_one(), Num::of(-1));
    } else if (op == "h") {
        history(e);
    } else if (op == "init" || op == "skip") {
    } else {
        fprintf(stderr, "unknown operation %s\n", op.c_str());
        _exit(9);
    }
}

// ---------------------------------------------------------------- the register file machine
// a: opcode-specific  [name is in the op code number], d, i, j, k, imm ; r: all registers after the step
enum HOp { H_LOAD, H_COPY, H_ADD, H_SUB, H_MUL, H_DIV, H_REM, H_AND, H_OR, H_XOR, H_CADD, H_CSUB, H_CMUL, H_CDIV, H_CREM,
    H_CAND, H_COR, H_CXOR, H_SADD, H_SSUB, H_SMUL, H_SDIV, H_SREM, H_DIVREM, H_NEG, H_NEGATE, H_POS, H_ABS, H_NOT, H_INC, H_DEC, H_PINC, H_PDEC,
    H_SHL, H_SHR, H_CSHL, H_CSHR, H_POW, H_MODPOW, H_GCD, H_TEXT, H_BYTES, H_OBS, H_TOINT, H_UBYTES, H_RESET, H_TRYPARSE, H_SELF, H_SET };
static thread_local vector<B> regs;
static thread_local vector<Num> regsExpect;

static void apply(int op, B& d, B& i, B& j, B& k, const Num& imm, int route) {
    int im = (int) imm.i64();
    switch (op) {
        case H_LOAD: d = make(imm, route); break;
        case H_COPY: d = i; break;
        case H_ADD: d = i + j; break;
        case H_SUB: d = i - j; break;
        case H_MUL: d = i * j; break;
        case H_DIV: d = i / j; break;
        case H_REM: d = i % j; break;
        case H_AND: d = i & j; break;
        case H_OR: d = i | j; break;
        case H_XOR: d = i ^ j; break;
        case H_CADD: d += j; break;
        case H_CSUB: d -= j; break;
        case H_CMUL: d *= j; break;
        case H_CDIV: d /= j; break;
        case H_CREM: d %= j; break;
        case H_CAND: d &= j; break;
        case H_COR: d |= j; break;
        case H_CXOR: d ^= j; break;
        case H_SADD: d = B::add(i, j); break;
        case H_SSUB: d = B::subtract(i, j); break;
        case H_SMUL: d = B::multiply(i, j); break;
        case H_SDIV: d = B::divide(i, j); break;
        case H_SREM: d = B::remainder(i, j); break;
        case H_DIVREM: { B q = B::div_rem(i, j, k); d = q; break; }
        case H_NEG: d = -i; break;
        case H_NEGATE: d = B::negate(i); break;
        case H_POS: d = +i; break;
        case H_ABS: d = B::abs(i); break;
        case H_NOT: d = ~i; break;
        case H_INC: ++d; break;
        case H_DEC: --d; break;
        case H_PINC: { B t = i++; d = t; break; }
        case H_PDEC: { B t = i--; d = t; break; }
        case H_SHL: d = i << im; break;
        case H_SHR: d = i >> im; break;
        case H_CSHL: d <<= im; break;
        case H_CSHR: d >>= im; break;
        case H_POW: d = B::pow(i, im); break;
        case H_MODPOW: d = B::mod_pow(i, j, k); break;
        case H_GCD: d = B::greatest_common_divisor(i, j); break;
        case H_TEXT: d = B::parse(i.to_string()); break;
        case H_BYTES: { bool be = im & 1, us = (im & 2) != 0; d = B(i.to_byte_array(us, be), us, be); break; }
        case H_OBS: { Observed o(i); (void) o; (void) (i == j); (void) (i < j); (void) i.compare_to(j); (void) i.equals(k); break; }
        case H_TOINT: { long v = (long) i; d = B((int64_t) v); break; }
        case H_UBYTES: { d = B(i.to_byte_array(true), true); break; }
        case H_TRYPARSE: { if (!B::try_parse(i.to_string(), d)) throw std::bad_alloc(); break; }
        case H_SELF: { B& t = d; d = t; d = std::move(B(d)); break; }
        default: fprintf(stderr, "unknown history operation %d\n", op); _exit(9);
    }
}

static void history(const Event& e) {
    int op = (int) e.a[0].i64();
    size_t n = e.r.size();
    if (op == H_RESET) { regs.assign(n, B()); regsExpect.assign(n, Num()); return; }
    if (op == H_SET) { regs.clear(); for (auto& x : e.r) regs.push_back(limbs(x)); regsExpect = e.r; return; }
    if (regs.size() != n) return; // resumed in the middle of a history: wait for the next one
    size_t x[4] = {(size_t) e.a[1].i64(), (size_t) e.a[2].i64(), (size_t) e.a[3].i64(), (size_t) e.a[4].i64()};
    const Num& imm = e.a[5];
    char call[200];
    snprintf(call, sizeof call, "history step %d(d=%zu,i=%zu,j=%zu,k=%zu,imm=%.80s)", op, x[0], x[1], x[2], x[3], imm.hex().c_str());
    // the same call on four separate objects
    B sd = regs[x[0]], si = regs[x[1]], sj = regs[x[2]], sk = regs[x[3]];
    string apart = outcome([&] { apply(op, sd, si, sj, sk, imm, e.route); });
    string kk = outcome([&] { apply(op, regs[x[0]], regs[x[1]], regs[x[2]], regs[x[3]], imm, e.route); });
    if (kk != e.err) bad('E', "%s: ended with '%s', specification says '%s'", call, kk.empty() ? "a result" : kk.c_str(), e.err.empty() ? "a result" : e.err.c_str());
    if (kk != apart) bad('A', "%s: ended with '%s', but with '%s' on separate objects", call, kk.c_str(), apart.c_str());
    for (size_t t = 0; t < n; t++) {
        bool canon;
        Num v = value(regs[t], &canon);
        const B* s = nullptr; // what the call assigns to this register
        if (kk.empty() && op != H_OBS) {
            if ((op == H_PINC || op == H_PDEC) && t == x[1]) s = &si;
            if (op == H_DIVREM && t == x[3]) s = &sk;
            if (t == x[0]) s = &sd;
        }
        if (s) { if (apart.empty() && value(*s) != v) bad('A', "%s: register %zu is %s, but %s on separate objects", call, t, v.hex().c_str(), value(*s).hex().c_str()); }
        else if (v != regsExpect[t]) bad('O', "%s: register %zu was %s and is now %s", call, t, regsExpect[t].hex().c_str(), v.hex().c_str());
        if (v != e.r[t]) bad('V', "%s: register %zu is %s, specification says %s (was %s)", call, t, v.hex().c_str(), e.r[t].hex().c_str(), regsExpect[t].hex().c_str());
        if (!canon) bad('K', "%s: register %zu, %s, is not in canonical form (sign %d, %zu limbs)", call, t, v.hex().c_str(), regs[t].sign_internal(), regs[t].get_bits().size());
        else if (s) agree(call, regs[t], limbs(v));
        if (v != e.r[t] || !canon) regs[t] = limbs(e.r[t]); // go on from what the specification says
    }
    regsExpect = e.r;
}

// ---------------------------------------------------------------- reading, replaying
static vector<Event> read_events(const char* path, size_t from = 0) {
    std::ifstream f(path);
    if (!f) { fprintf(stderr, "cannot read %s\n", path); _exit(9); }
    vector<Event> v;
    string line;
    size_t no = 0;
    while (std::getline(f, line)) {
        no++;
        if (line.empty() || line[0] == '#') continue;
        if (no < from) continue;
        Event e;
        e.line = no;
        std::istringstream is(line);
        string t;
        is >> e.op >> e.route >> e.err;
        if (e.err == "-") e.err = "";
        bool out = false;
        while (is >> t) {
            if (t == "|") out = true;
            else (out ? e.r : e.a).push_back(Num::parse(t));
        }
        v.push_back(e);
    }
    return v;
}

static volatile uint64_t* progress = nullptr;
static void open_progress(const char* path) {
    int fd = open(path, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, 8) != 0) { perror("progress"); _exit(9); }
    progress = (volatile uint64_t*) mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
}

static unsigned watchdog = 60;
static void guarded(const Event& e) {
    if (progress) *progress = e.line;
    alarm(watchdog); // a call that does not return ends the process
    string k = outcome([&] { replay(e); });
    if (!k.empty()) { ctx.line = e.line; bad('E', "%s: unexpected exception: %s", e.op.c_str(), k.c_str()); }
}

static uint64_t mix64(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }

// Calls on shared read-only objects, compared with what the specification says.
static void shared_calls(const Event& e, const vector<B>& v) {
    ctx.line = e.line;
    const string& op = e.op;
    if (op == "addsub") { same("shared a+b", v[0] + v[1], e.r[0]); same("shared a-b", v[0] - v[1], e.r[1]); }
    else if (op == "mul") same("shared a*b", v[0] * v[1], e.r[0]);
    else if (op == "divmod" && e.err.empty()) { same("shared a/b", v[0] / v[1], e.r[0]); same("shared a%b", v[0] % v[1], e.r[1]); }
    else if (op == "bit") { same("shared a&b", v[0] & v[1], e.r[0]); same("shared a|b", v[0] | v[1], e.r[1]); same("shared a^b", v[0] ^ v[1], e.r[2]); }
    else if (op == "cmp") { int s = v[0].compare_to(v[1]); num("shared compare", (s > 0) - (s < 0), e.r[0].i64()); num("shared ==", v[0] == v[1], e.r[0].zero()); (void) v[0].get_hash_code(); }
    else if (op == "modpow" && e.err.empty()) same("shared mod_pow", B::mod_pow(v[0], v[1], v[2]), e.r[0]);
    else if (op == "gcd") same("shared gcd", B::greatest_common_divisor(v[0], v[1]), e.r[0]);
    else if (op == "shl" || op == "shr") { int n = (int) e.a[1].i64(); same("shared shift", op == "shl" ? v[0] << n : v[0] >> n, e.r[0]); }
    else if (op == "pow" && e.err.empty()) same("shared pow", B::pow(v[0], (int) e.a[1].i64()), e.r[0]);
    else if (op == "bytes") { str("shared bytes", hexbytes(v[0].to_byte_array()), hexbytes(e.r[1].bytesLE(e.r[0].mag64()))); (void) v[0].to_uint32_array(); (void) v[0].get_byte_count(); }
    else if (op == "text") str("shared to_string", v[0].to_string(), groups_text(e.r, 0, gcmp(e.a[0]) < 0));
    else if (op == "pred") { num("shared is_even", v[0].is_even(), e.r[0].i64()); num("shared bit length", (long long) v[0].get_bit_length(), e.r[5].i64()); (void) v[0].is_power_of_two(); }
    else if (op == "unary") same("shared negate", B::negate(v[0]), e.r[0]);
    else if (op == "log") { double x = B::log(v[0], as_double(e.a[1])); check_log("shared log", x, (int) e.r[0].i64(), e.r[1]); }
}

struct Early { // replays before main(): the library must not depend on its own initialisation order
    Early() {
        const char* f = getenv("BI_EARLY_FILE");
        if (!f || !getenv("BI_EARLY_PROGRESS")) return;
        open_progress(getenv("BI_EARLY_PROGRESS"));
        watchdog = 120;
        if (getenv("BI_KINDS")) kinds = getenv("BI_KINDS");
        for (auto& e : read_events(f)) guarded(e);
        printf("EARLY-DONE %d\n", (int) bad_count);
        fflush(stdout);
    }
} early;

#ifdef BI_COUNT
extern "C" long long bi_blocks();
extern "C" long long bi_bytes();
// Eight rounds of the same calls; all objects are destroyed at the end of each. What a round leaves behind would be
// left again by the next: storage kept for reuse stops growing after the first rounds, storage lost does not.
static void leak(const vector<Event>& ev) {
    const int ROUNDS = 8;
    vector<long long> grown(ev.size(), 0), rounds(ev.size(), 0);
    long long blocks[ROUNDS + 1] = {0}, bytes[ROUNDS + 1] = {0};
    std::map<string, vector<size_t>> kept; // calls made for the first time after which more is held than before
    for (int r = 1; r <= ROUNDS; r++) {
        for (size_t i = 0; i < ev.size(); i++) {
            long long b = bi_blocks();
            guarded(ev[i]);
            b = bi_blocks() - b;
            if (r > 2 && b > 0) { grown[i] += b; rounds[i]++; }
            if (r == 1 && b > 0 && ev[i].op != "h") kept[ev[i].op].push_back(i);
        }
        vector<B>().swap(regs);
        vector<Num>().swap(regsExpect);
        blocks[r] = bi_blocks();
        bytes[r] = bi_bytes();
    }
    alarm(0);
    long long b1 = blocks[4] - blocks[2], b2 = blocks[8] - blocks[4], y1 = bytes[4] - bytes[2], y2 = bytes[8] - bytes[4];
    bool lost = b1 > 0 && b2 >= 2 * b1;
    bool more = y1 > 0 && y2 >= y1 && y1 + y2 > 4096;
    if (getenv("BI_LEAK_VERBOSE")) for (auto& k : kept) fprintf(stderr, "first calls of %s: %zu leave blocks\n", k.first.c_str(), k.second.size());
    if (getenv("BI_LEAK_VERBOSE")) for (int r = 1; r <= ROUNDS; r++) fprintf(stderr, "round %d: %lld blocks, %lld bytes\n", r, blocks[r], bytes[r]);
    int told = 0;
    for (auto& k : kept)
        if (k.second.size() >= 24) {
            ctx.line = ev[k.second.back()].line;
            bad('M', "%s: of the calls made for the first time, %zu left storage behind: it grows with every new operand", k.first.c_str(), k.second.size());
            told++;
        }
    if (told || (!lost && !more)) return;
    for (size_t i = 0; i < ev.size() && told < 6; i++)
        if (ev[i].op != "h" && rounds[i] == ROUNDS - 2) {
            ctx.line = ev[i].line;
            bad('M', "%s: every time this call is made, %lld more blocks of storage stay behind", ev[i].op.c_str(), grown[i] / rounds[i]);
            told++;
        }
    if (!told) { ctx.line = 0; bad('M', "the same calls made again leave more storage behind each time: %lld blocks (%lld bytes) after 4 more rounds, %lld (%lld) after 8", b1, y1, b2, y2); }
}
#endif

#ifdef BI_FAULT
extern "C" void bi_arm(long long n, int all);
extern "C" int bi_disarm();
#ifdef BI_COUNT
static long long held() { return bi_blocks(); }
#else
static long long held() { return 0; }
#endif
static long long next_request(long long k) { return k < 48 ? k + 1 : k + 1 + k / 6; }
static long long denied = 0; // calls in which a request was refused

// f with its k-th request for storage (and all later ones) refused; *fired says if it came to that
template <class F> static string starved(long long k, bool lasting, bool* fired, F f) {
    string kind;
    starving = true;
    try {
        bi_arm(k, lasting);
        f();
        *fired = bi_disarm();
    } catch (const std::bad_alloc&) { *fired = bi_disarm(); kind = "nomem"; }
    catch (...) { *fired = bi_disarm(); kind = kind_of_current(); }
    starving = false;
    return kind;
}

// One call of a history, starved at request k: it ends "nomem" (or never needed the storage), an object it assigns has
// its old value or its new one, all others have theirs, nothing stays behind, and made again it does what it should.
static bool starve_step(const Event& e, long long k, bool lasting, const char* call, long long* grown) {
    int op = (int) e.a[0].i64();
    size_t x[4] = {(size_t) e.a[1].i64(), (size_t) e.a[2].i64(), (size_t) e.a[3].i64(), (size_t) e.a[4].i64()};
    bool fired = false;
    long long before = held();
    {
        vector<B> w(regs);
        string kind = starved(k, lasting, &fired, [&] { apply(op, w[x[0]], w[x[1]], w[x[2]], w[x[3]], e.a[5], e.route); });
        if (!fired) return false;
        denied++;
        if (kind != "nomem" && kind != e.err) bad('N', "%s: without storage it ended with '%s'", call, kind.c_str());
        bool same_as_before = true;
        for (size_t t = 0; t < w.size(); t++) {
            bool canon, assigned = t == x[0] || ((op == H_PINC || op == H_PDEC) && t == x[1]) || (op == H_DIVREM && t == x[3]);
            Num v = value(w[t], &canon);
            if (!canon) bad('N', "%s: without storage it left register %zu, %s, not in canonical form", call, t, v.hex().c_str());
            // d = d++ and div_rem(i, j, d) into d assign an object twice: in between it holds the first of the two values
            bool twice = t == x[0] && (((op == H_PINC || op == H_PDEC) && x[0] == x[1]) || (op == H_DIVREM && x[0] == x[3]));
            if (kind.empty() ? v != e.r[t] : v != regsExpect[t] && !twice && !(assigned && v == e.r[t]))
                bad('N', "%s: without storage for its request %lld it left %s in register %zu, which was %s%s%s", call, k, v.hex().c_str(), t, regsExpect[t].hex().c_str(),
                    assigned ? " and was to be " : "", assigned ? e.r[t].hex().c_str() : "");
            same_as_before &= v == regsExpect[t];
        }
        if (same_as_before) {
            string again = outcome([&] { apply(op, w[x[0]], w[x[1]], w[x[2]], w[x[3]], e.a[5], e.route); });
            if (again != e.err) bad('N', "%s: after a refused request it ended with '%s'", call, again.c_str());
            for (size_t t = 0; t < w.size(); t++)
                if (value(w[t]) != e.r[t]) bad('N', "%s: after a refused request, register %zu is %s, specification says %s", call, t, value(w[t]).hex().c_str(), e.r[t].hex().c_str());
        }
    }
    *grown = held() - before;
    return true;
}

static void starve(const Event& e) {
    if (progress) *progress = e.line;
    ctx.line = e.line;
    if (e.op != "h") { // every form of the call, as in `run`; here only what it returns is looked at
        for (int lasting = 0; lasting < 2; lasting++)
            for (long long k = 0;; k = next_request(k)) {
                alarm(watchdog);
                bool fired = false;
                starved(k, lasting, &fired, [&] { replay(e); });
                if (!fired) break;
                denied++;
            }
        return;
    }
    int op = (int) e.a[0].i64();
    if (op != H_RESET && op != H_SET && regs.size() == e.r.size()) {
        char call[200];
        snprintf(call, sizeof call, "history step %d(d=%d,i=%d,j=%d,k=%d,imm=%.80s)", op, (int) e.a[1].i64(), (int) e.a[2].i64(), (int) e.a[3].i64(), (int) e.a[4].i64(), e.a[5].hex().c_str());
        for (int lasting = 0; lasting < 2; lasting++)
            for (long long k = 0; bad_count <= BAD_MAX; k = next_request(k)) {
                alarm(watchdog);
                long long g = 0, h = 0;
                if (!starve_step(e, k, lasting, call, &g)) break;
                if (g > 0) {
                    starve_step(e, k, lasting, call, &g);
                    starve_step(e, k, lasting, call, &h);
                    if (g > 0 && h > 0) bad('N', "%s: its request %lld refused, %lld blocks of storage stay behind", call, k, h);
                }
            }
    }
    regs.clear();
    for (auto& n : e.r) regs.push_back(limbs(n));
    regsExpect = e.r;
}
#endif

int main(int argc, char** argv) {
    string mode = argc > 1 ? argv[1] : "";
    if (getenv("BI_KINDS")) kinds = getenv("BI_KINDS");
    if (getenv("BI_CHECK_ROUTES")) routes_are_checked = true;
    if (getenv("BI_WATCHDOG")) watchdog = (unsigned) atoi(getenv("BI_WATCHDOG"));
    if (mode == "run" && argc >= 4) {
        auto ev = read_events(argv[2], argc > 4 ? strtoul(argv[4], nullptr, 10) : 0);
        open_progress(argv[3]);
        size_t n = 0;
        for (auto& e : ev) { guarded(e); n++; if (bad_count > BAD_MAX) break; }
        printf("DONE %zu %d\n", n, (int) bad_count);
#ifdef BI_COUNT
    } else if (mode == "leak" && argc >= 4) {
        auto ev = read_events(argv[2]);
        open_progress(argv[3]);
        leak(ev);
        printf("DONE %zu %d\n", ev.size() * 8, (int) bad_count);
#endif
#ifdef BI_FAULT
    } else if (mode == "nomem" && argc >= 4) {
        auto ev = read_events(argv[2], argc > 4 ? strtoul(argv[4], nullptr, 10) : 0);
        open_progress(argv[3]);
        for (auto& e : ev) { starve(e); if (bad_count > BAD_MAX) break; }
        printf("DONE %lld %d\n", denied, (int) bad_count);
#endif
    } else if (mode == "threads" && argc >= 7) {
        int nt = atoi(argv[2]), rounds = atoi(argv[3]);
        uint64_t seed = strtoull(argv[4], nullptr, 10);
        auto ev = read_events(argv[5]);
        open_progress(argv[6]);
        vector<vector<B>> shared(ev.size());
        for (size_t i = 0; i < ev.size(); i++)
            if (ev[i].op != "h" && ev[i].op != "frombytes" && ev[i].op != "fromlimbs" && ev[i].op != "fromdbl" && ev[i].op != "parse")
                for (auto& n : ev[i].a) shared[i].push_back(limbs(n));
        std::atomic<size_t> done{0};
        std::atomic<int> ready{0};
        vector<std::thread> ts;
        for (int t = 0; t < nt; t++)
            ts.emplace_back([&, t] {
                ready++;
                while (ready < nt) std::this_thread::yield();
                for (int r = 0; r < rounds; r++) {
                    // every thread walks the events in its own order; in even rounds all start together
                    uint64_t off = r % 2 ? mix64(seed * 1000 + t * 100 + r) % ev.size() : 0;
                    uint64_t stride = 1;
                    if (r % 4 >= 2)
                        for (uint64_t n = 0; n == 0 || std::__gcd((uint64_t) ev.size(), stride) != 1; n++) stride = mix64(seed + t * 7919 + r + n * 1000003) % ev.size();
                    for (size_t i = 0; i < ev.size() && bad_count <= BAD_MAX; i++) {
                        size_t q = (off + i * stride) % ev.size();
                        if (t == 0) *progress = ev[q].line;
                        alarm(watchdog);
                        ctx.line = ev[q].line;
                        string k = outcome([&] { shared_calls(ev[q], shared[q]); replay(ev[q]); });
                        if (!k.empty()) bad('E', "%s: unexpected exception: %s", ev[q].op.c_str(), k.c_str());
                        done++;
                    }
                }
            });
        for (auto& t : ts) t.join();
        for (size_t i = 0; i < ev.size(); i++) { ctx.line = ev[i].line; for (size_t j = 0; j < shared[i].size(); j++) same("shared object afterwards", shared[i][j], ev[i].a[j]); }
        printf("DONE %zu %d\n", done.load(), (int) bad_count);
    } else if (mode == "early") {
        return 0;
    } else {
        fprintf(stderr, "usage: driver run|threads|early ...\n");
        return 9;
    }
    return bad_count ? 1 : 0;
}
