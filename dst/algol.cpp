#include "algol.h"
#include <cmath>

namespace {
enum class T { INT, REAL, BOOL };
enum K {
    // expressions
    E_LIT, E_VAR, E_ELEM, E_BIN, E_NEG, E_POS, E_NOT, E_COND, E_CALL, E_BUILTIN, E_STR, E_NAMEREF,
    // statements
    S_ASSIGN, S_IF, S_FOR, S_GOTO, S_CALL, S_BLOCK, S_COMPOUND, S_PRINT, S_NLCR, S_TAB, S_SPACE, S_TEXT, S_FIXT, S_FLOT, S_PRSYM, S_STOP, S_DUMMY,
    S_PRINTARR, S_WRONG,
    // for list elements
    F_EXPR, F_STEP, F_WHILE,
};
struct Node;
struct Decl;
using NP = std::shared_ptr<Node>;
using DP = std::shared_ptr<Decl>;
struct Node {
    K kind;
    T type = T::INT;
    std::string s;        // operator, builtin, text
    std::vector<NP> k;    // children
    DP d;
    std::vector<DP> decls;  // S_BLOCK
    std::vector<DP> labels; // on a statement
    int id = -1;
    bool isreal = false;
    long long iv = 0;
    long double rv = 0;
    bool keep = false;    // not to be deleted (initialisation, loop counters)
};
enum DK { D_VAR, D_ARRAY, D_PROC, D_LABEL, D_SWITCH, D_FORMAL };
enum FK { F_VALUE, F_NAME, F_NAMELV, F_ARR, F_ARRV, F_LABEL, F_SWITCH, F_STRING, F_PROCP };
struct Decl {
    DK k = D_VAR;
    FK f = F_VALUE;
    T type = T::INT;
    std::string name;
    bool own = false, readonly = false, typed = true;
    int dims = 0;
    std::vector<NP> bounds;             // 2 per dimension
    std::vector<std::pair<long, long>> cb; // constant bounds, as known to the generator
    std::vector<DP> formals;
    NP body;
    bool global = false, recursive = false, impure = false, reads = false;
    NP owner; // LABEL: its block
    std::vector<NP> sw; // SWITCH: designators
    int group = 0;      // arrays declared together
};

struct Reject { std::string why; };
struct RtError { std::string kind; };
struct Stop {};

// ------------------------------------------------------------------ values
struct Val {
    char t = 'i'; // i r b
    long long i = 0;
    long double r = 0;
    bool b = false;
    bool whole = false; // a real that the machine may hold as an integer
    static Val I(long long v) { Val x; x.t = 'i'; x.i = v; return x; }
    static Val R(long double v) { Val x; x.t = 'r'; x.r = v; return x; }
    static Val B(bool v) { Val x; x.t = 'b'; x.b = v; return x; }
    long double num() const { return t == 'r' ? r : (long double)i; }
};
const long long IMAX = 67108863;
} // namespace

long double round40(long double x)
{
    if (x == 0) return x;
    int e;
    long double a = fabsl(x);
    if (!std::isfinite(a)) throw RtError{ "real overflow" };
    long double m = ldexpl(frexpl(a, &e), 40);
    long double f = floorl(m);
    if (m - f >= 0.5L) f += 1;
    if (f >= 1099511627776.0L) { f /= 2; e++; }
    if (e > 2047) throw RtError{ "real overflow" };
    if (e < -2048) return x < 0 ? -0.0L : 0.0L;
    f = ldexpl(f, e - 40);
    return x < 0 ? -f : f;
}
std::string show_real(long double x)
{
    char b[64];
    snprintf(b, sizeof b, "%.13Lg", x);
    return b;
}

namespace {
Val mkint(long long v)
{
    if (v > IMAX || v < -IMAX) throw RtError{ "integer overflow" };
    return Val::I(v);
}
Val mkreal(long double v)
{
    long double r = round40(v);
    if (r == 0 && std::signbit(r)) throw Reject{ "negative zero" };
    return Val::R(r);
}
long long to_int(const Val &v)
{
    if (v.t == 'i') return v.i;
    if (v.t == 'b') throw Reject{ "boolean as number" };
    long double f = roundl(v.r);
    if (fabsl(f) > (long double)IMAX) throw RtError{ "integer overflow" };
    if (f == 0 && std::signbit(v.r)) return 0;
    return (long long)f;
}
// Arguments of standard procedures that are not converted: a formal integer may stand for a real.
long long need_int(const Val &v)
{
    if (v.t != 'i') throw Reject{ "an integer is needed" };
    return v.i;
}
Val arith(const std::string &op, const Val &a, const Val &b)
{
    if (a.t == 'b' || b.t == 'b') throw Reject{ "boolean in arithmetic" };
    if ((a.whole || b.whole) && (a.whole || a.t == 'i') && (b.whole || b.t == 'i')) {
        // the machine may add integers here
        long double big = op == "+" ? a.num() + b.num() : op == "-" ? a.num() - b.num() : op == "^" ? powl(a.num(), b.num()) : 0;
        if (!(fabsl(big) <= (long double)IMAX)) throw Reject{ "integer result of a real procedure" };
    }
    if (op == "/") {
        if (b.num() == 0) throw RtError{ "division by zero" };
        return mkreal(a.num() / b.num());
    }
    if (op == "div") {
        if (a.t != 'i' || b.t != 'i') throw Reject{ "div on reals" };
        if (b.i == 0) throw RtError{ "division by zero" };
        return mkint(a.i / b.i);
    }
    if (op == "^") {
        if (b.t != 'i') {
            long double x = a.num();
            if (x > 0) return mkreal(expl(b.r * logl(x)));
            if (x == 0) {
                if (b.r <= 0) throw RtError{ "zero to a power" };
                return Val::R(0);
            }
            throw RtError{ "negative to real power" };
        }
        if (b.i == 0) {
            if (a.num() == 0) throw RtError{ "0^0" };
            return a.t == 'i' ? Val::I(1) : Val::R(1);
        }
        if (b.i < 0 && a.num() == 0) throw RtError{ "division by zero" };
        if (a.t == 'i' && b.i > 0) {
            long long v = 1;
            for (long long k = 0; k < b.i && v && !(k > 1 && (a.i == 1 || a.i == -1)); k++) {
                v *= a.i;
                if (v > IMAX || v < -IMAX) throw RtError{ "integer overflow" };
            }
            if (a.i == -1) v = b.i & 1 ? -1 : 1;
            return Val::I(v);
        }
        if (b.i > 40 || b.i < -8) throw Reject{ "large power" };
        long double base = b.i > 0 ? a.num() : 1.0L / a.num();
        long double v = 1;
        unsigned n = (unsigned)(b.i > 0 ? b.i : -b.i);
        long double x = base;
        while (n) { if (n & 1) v *= x; n >>= 1; x *= x; }
        return mkreal(v);
    }
    if (a.t == 'i' && b.t == 'i') {
        if (op == "+") { return mkint(a.i + b.i); }
        if (op == "-") { return mkint(a.i - b.i); }
        long long p = a.i * b.i;
        if (p > IMAX || p < -IMAX) return mkreal((long double)p);
        if (p == 0 && (a.i < 0 || b.i < 0)) { } // plain zero
        return Val::I(p);
    }
    if (op == "+") return mkreal(a.num() + b.num());
    if (op == "-") return mkreal(a.num() - b.num());
    return mkreal(a.num() * b.num());
}

// -------------------------------------------------------------- interpreter
struct ArrayObj {
    T type;
    std::vector<std::pair<long, long>> b;
    std::vector<Val> v;
    std::vector<bool> set;
    // a value array is filled when the arrays of the procedure's block have been made: until then it is not to be touched
    std::shared_ptr<ArrayObj> from;
};
struct Frame;
using FP = std::shared_ptr<Frame>;
struct Cell {
    Val v;
    bool set = false;
    std::shared_ptr<ArrayObj> arr;
    NP expr; // thunk or designator
    FP env;
    DP proc; // procedure or label or switch
};
struct Frame {
    FP up;
    NP block;       // block or procedure body owner
    DP proc;
    std::map<Decl *, Cell> c;
    int serial = 0;
    std::vector<std::shared_ptr<ArrayObj>> late; // value arrays not filled yet
};
struct Jump { Decl *label; int serial; };

std::string text_of(const std::string &s) { return s; }

struct Interp {
    Program &P;
    ModelRun &m;
    const std::set<int> &del;
    Rng in;
    int cut, bad, items = 0;
    bool tty = false;
    int depth = 0, serial = 0;
    std::map<Decl *, Cell> owns;
    bool switches_valid = false;
    long long switches = 0;
    bool pending_delim = false;
    bool last_was_number = false;

    Interp(Program &p, const std::set<int> &d, uint64_t inseed, int cut_, int bad_) : P(p), m(p.model), del(d), in(inseed), cut(cut_), bad(bad_) {}

    void step()
    {
        if (++m.steps > 60000) throw Reject{ "too long" };
    }
    Cell &find(const FP &f, const DP &d)
    {
        if (d->own) return owns[d.get()];
        for (Frame *p = f.get(); p; p = p->up.get()) {
            auto i = p->c.find(d.get());
            if (i != p->c.end()) return i->second;
        }
        throw Reject{ "no binding for " + d->name };
    }
    FP frame_of(const FP &f, const DP &d)
    {
        for (FP p = f; p; p = p->up)
            if (p->c.count(d.get())) return p;
        throw Reject{ "no frame for " + d->name };
    }
    // What an l-value is: a cell of a variable or of an array element.
    struct LV { Cell *c = nullptr; std::shared_ptr<ArrayObj> a; size_t i = 0; T type = T::INT; };

    LV elem(const std::shared_ptr<ArrayObj> &a, const std::vector<Val> &idx)
    {
        if (!a) throw Reject{ "not an array" };
        if (a->from) throw Reject{ "value array in the bounds of the block it is local to" };
        if (idx.size() != a->b.size()) throw Reject{ "wrong number of subscripts" };
        size_t off = 0;
        long long stride = 1, lin = 0, total = 1;
        bool out = false;
        for (size_t k = 0; k < idx.size(); k++) {
            if (idx[k].t == 'r' && idx[k].r < 0 && idx[k].r - floorl(idx[k].r) == 0.5L) throw Reject{ "negative half as subscript" };
            long long v = to_int(idx[k]);
            if (v < a->b[k].first || v > a->b[k].second) out = true;
            lin += (v - a->b[k].first) * stride;
            stride *= a->b[k].second - a->b[k].first + 1;
            total = stride;
        }
        if (out) {
            // the machine checks the whole array, not each subscript
            if (lin >= 0 && lin < total) throw Reject{ "subscript out of bounds, address inside" };
            throw RtError{ "subscript" };
        }
        off = (size_t)lin;
        LV l;
        l.a = a; l.i = off; l.type = a->type;
        return l;
    }
    LV lval(const NP &e, const FP &f)
    {
        step();
        LV l;
        if (e->kind == E_VAR) {
            Cell &c = find(f, e->d);
            if (e->d->k == D_FORMAL && (e->d->f == F_NAME || e->d->f == F_NAMELV)) {
                m.thunks++;
                NP x = c.expr;
                FP env = c.env;
                return lval(x, env);
            }
            l.c = &c;
            l.type = e->d->type;
            return l;
        }
        if (e->kind == E_ELEM) {
            std::vector<Val> idx;
            for (auto &k : e->k) idx.push_back(eval(k, f));
            return elem(find(f, e->d).arr, idx);
        }
        throw Reject{ "not an l-value" };
    }
    // While step and limit of a loop are evaluated, its controlled variable is not to be used:
    // the machine stores the new value afterwards.
    std::vector<LV> watch;
    static bool same(const LV &a, const LV &b) { return a.c == b.c && a.a == b.a && a.i == b.i; }
    void watched(const LV &l) { for (auto &w : watch) if (same(w, l)) throw Reject{ "controlled variable in step or limit" }; }
    Val load(const LV &l)
    {
        if (!watch.empty()) watched(l);
        if (l.a) {
            if (!l.a->set[l.i]) throw Reject{ "uninitialised element" };
            return l.a->v[l.i];
        }
        if (!l.c->set) throw Reject{ "uninitialised variable" };
        return l.c->v;
    }
    void store(const LV &l, const Val &v)
    {
        if (!watch.empty()) watched(l);
        Val x = v;
        if (l.type == T::INT) x = Val::I(0), x.i = to_int(v);
        else if (l.type == T::REAL) {
            if (v.t == 'b') throw Reject{ "boolean into real" };
            x = v.t == 'r' ? v : Val::R((long double)v.i);
        } else if (v.t != 'b') throw Reject{ "number into boolean" };
        if (l.a) { l.a->v[l.i] = x; l.a->set[l.i] = true; }
        else { l.c->v = x; l.c->set = true; }
    }

    // ---- input
    void need(char kind)
    {
        m.needs.push_back({ m.in.size(), m.out.size(), kind });
    }
    bool exhausted() { return cut >= 0 && items >= cut; }
    std::string ws()
    {
        static const std::vector<std::string> w = { "", "", " ", "  ", "\n", "\t", " \n " };
        return in.pick(w);
    }
    Val read_number()
    {
        if (tty) m.out += "Enter number: ";
        if (exhausted()) { need('E'); throw RtError{ "no input" }; }
        items++;
        if (is_bad()) {
            static const std::vector<std::string> b = { "abc ", "x1\n", "?\n", "-z\n", ";", "--1\n" };
            if (!tty) {
                m.in += ws();
                m.in += in.chance(15) ? std::string((size_t)in.range(20, 3000), 'x') + "\n" : in.pick(b);
                need('B');
                throw RtError{ "bad input" };
            }
            static const std::vector<std::string> bt = { "abc \n", "x1\n", " ?\n", "-z 12 13\n", "1e\n", "-\n", "1e9999\n", "2E+ 5\n", ";\n", "--1\n", "\n\nq 5\n", ".\n", "hello world 42\n" };
            for (int n = (int)in.range(1, 3); n > 0; n--) {
                m.in += in.chance(15) ? "qx" + std::string((size_t)in.range(20, 3000), in.chance(50) ? '7' : ' ') + " 31\n" : in.pick(bt);
                need('B');
                m.out += "Bad input, try again.\nEnter number: ";
            }
            if (in.chance(25)) { need('E'); throw RtError{ "no input" }; }
        }
        m.in += ws();
        std::string tok;
        long double v = 0;
        switch (in.below(9)) {
        case 8: {
            static const std::vector<std::string> odd = { "5.", ".5", "-.25", "1E-2", "00012", "+.5e1", "3e0", "-0.0", "0", "1e-7", "67108863", "-67108863", "12345678.5", "0.1",
                "1e300", "-1e300", "1e-300", "1e616", "-1e616", "1e-617", "0.9999999999999", "0.99999999999999", "549755813887.9", "549755813888.5", "1099511627775.4", "1099511627775.6", "67108864", "-67108864", "33554431.5", "8192",
                "999999999999", "-999999999999", "1000000000000", "-1000000000000", "1099511627775", "-1099511627775", "1099511627776", "1e12", "1e9", "9.5e99", "1e100", "1e-99", "1e-100", "99999.5", "9999.95", "0.995", "999.9999", "134217727", "549755813887", "1e-9", "1e-10" };
            tok = in.pick(odd);
            v = strtold(tok.c_str(), nullptr);
            break;
        }
        case 0: case 1: case 2: case 3: {
            long n = in.range(-60, 120);
            if (n == 0) n = 7;
            tok = std::to_string(n);
            if (n > 0 && in.chance(15)) tok = "+" + tok;
            v = n;
            break;
        }
        case 4: {
            long n = in.range(1, 4000);
            tok = fmt("%ld.%s", n / 4, n % 4 == 0 ? "0" : n % 4 == 1 ? "25" : n % 4 == 2 ? "5" : "75");
            if (in.chance(30)) tok = "-" + tok;
            v = strtold(tok.c_str(), nullptr);
            break;
        }
        case 5: {
            tok = fmt("%ld\xe2\x8f\xa8%ld", in.range(1, 9), in.range(0, 3)); // with the subscript ten
            std::string t = tok;
            auto k = t.find("\xe2\x8f\xa8");
            t.replace(k, 3, "E");
            v = strtold(t.c_str(), nullptr);
            break;
        }
        case 6: tok = fmt("%ld.5e%ld", in.range(1, 9), in.range(1, 2)); v = strtold(tok.c_str(), nullptr); break;
        default: tok = fmt("%ld.%02ld", in.range(0, 99), in.range(1, 99)); v = strtold(tok.c_str(), nullptr); break;
        }
        static const std::vector<std::string> d = { "\n", "\n", "\n", " ", ",", ";", "\t" };
        m.in += tok;
        m.in += in.pick(d);
        need('n');
        return mkreal(v);
    }
    long long xeen(long long mask)
    {
        if (!switches_valid) {
            static const std::string prompt = "\nEnter console switches (up to 27 binary digits)\n> ";
            if (tty) m.out += prompt;
            if (exhausted()) { need('X'); throw RtError{ "no input" }; }
            items++;
            if (is_bad()) {
                static const std::vector<std::string> b = { "abc\n", "2\n", "\n", "x01\n", "012\n", "1 0\n", "-1\n", "+1\n", "1111111111111111111111111111\n", "0b1\n", "10x\n", "  \n" };
                for (int n = tty ? (int)in.range(1, 3) : 1; n > 0; n--) {
                    m.in += in.chance(15) ? std::string((size_t)in.range(28, 3000), in.chance(50) ? '1' : '2') + "\n" : in.pick(b);
                    need('Y');
                    if (!tty) throw RtError{ "bad input" };
                    m.out += "Bad input, try again.\n" + prompt;
                }
                if (in.chance(25)) { need('X'); throw RtError{ "no input" }; }
            }
            std::string s;
            int n = (int)in.range(1, 27);
            long long v = 0;
            for (int i = 0; i < n; i++) { int b = (int)in.below(2); s += (char)('0' + b); v = v * 2 + b; }
            if (in.chance(10)) s = " " + s;
            if (in.chance(10)) s += in.chance(50) ? " " : "\r";
            m.in += s + "\n";
            need('x');
            switches = v;
            switches_valid = true;
        }
        // the argument in one's complement, zero as a row of ones
        const long long ones = (1ll << 27) - 1;
        long long w = mask == 0 ? ones : mask < 0 ? mask + ones : mask;
        w &= switches;
        return w >> 26 ? w - ones : w;
    }
    bool is_bad()
    {
        if (bad >= 100) return in.below(100) < (uint64_t)(bad - 100);
        return items - 1 == bad;
    }
    long long resym()
    {
        static const struct { const char *s; int v; } t[] = {
            { "+", 64 }, { "-", 65 }, { "\xc3\x97", 66 }, { "/", 67 }, { "\xc3\xb7", 68 }, { "\xe2\x86\x91", 69 }, { ">", 70 }, { "\xe2\x89\xa5", 71 },
            { "=", 72 }, { "\xe2\x89\xa4", 73 }, { "<", 74 }, { "\xe2\x89\xa0", 75 }, { "\xc2\xac", 76 }, { "\xe2\x88\xa7", 77 }, { "\xe2\x88\xa8", 78 },
            { "\xe2\x8a\x83", 79 }, { "\xe2\x89\xa1", 80 }, { ",", 87 }, { ".", 88 }, { "\xe2\x8f\xa8", 89 }, { ":", 90 }, { ";", 91 }, { " ", 93 },
            { "(", 98 }, { ")", 99 }, { "[", 100 }, { "]", 101 }, { "`", 102 }, { "'", 103 }, { "\t", 118 }, { "\n", 119 }, { "|", 162 }, { "_", 163 }, { "@", 89 }, { "*", 66 },
            { "\"", 121 }, { "?", 122 } };
        if (exhausted()) { need('e'); return 255; }
        items++;
        while (in.chance(8)) m.in += "\r"; // ignored
        if (is_bad()) {
            static const std::vector<std::string> b = { "!", "#", "$", "%", "&", "\\", "^", "{", "}", "~", "\x01", "\x1b", "\x7f", "\x80", "\xff", "\xc2\xa0", "\xc3\xa9", "\xe2\x82", "\xe2\x88\xa9", "\xe2\x86\x90", "\xf0", "\xcc", std::string(1, '\0') };
            m.in += in.pick(b);
            need('c');
            throw RtError{ "bad character" };
        }
        if (in.chance(50)) {
            // letters and digits
            const int k = (int)in.below(62);
            m.in += (char)(k < 10 ? '0' + k : k < 36 ? 'a' + k - 10 : 'A' + k - 36);
            need('c');
            return k < 36 ? k : k + 1;
        }
        auto &e = t[in.below(sizeof t / sizeof *t)];
        m.in += e.s;
        need('c');
        return e.v;
    }

    Val call(const NP &e, const FP &f, bool fun)
    {
        step();
        m.calls++;
        FP env = f;
        DP p = e->d;
        if (p->k == D_FORMAL) {
            Cell &c = find(f, p);
            DP q = c.proc;
            FP qe = c.env;
            p = q;
            env = qe;
            return invoke(p, env, e->k, f, fun);
        }
        FP home = frame_of(f, p);
        return invoke(p, home, e->k, f, fun);
    }
    Val invoke(const DP &p, const FP &home, const std::vector<NP> &args, const FP &caller, bool fun)
    {
        if (++depth > 120) throw Reject{ "too deep" };
        m.maxdepth = std::max<long>(m.maxdepth, depth);
        auto fr = std::make_shared<Frame>();
        fr->up = home;
        fr->proc = p;
        fr->serial = ++serial;
        for (size_t i = 0; i < p->formals.size(); i++) {
            auto &fd = p->formals[i];
            Cell &c = fr->c[fd.get()];
            const NP &a = args[i];
            switch (fd->f) {
            case F_VALUE: break;
            case F_NAME: case F_NAMELV: c.expr = a; c.env = caller; break;
            case F_ARR: case F_ARRV: c.arr = find(caller, a->d).arr; break;
            case F_LABEL: case F_SWITCH: {
                // a label or switch name, or a formal that stands for one
                if (a->d->k == D_FORMAL) c = Cell(find(caller, a->d));
                else { c.proc = a->d; c.env = frame_of(caller, a->d); }
                break;
            }
            case F_STRING: {
                if (a->kind == E_STR) c.expr = a;
                else c = find(caller, a->d);
                break;
            }
            case F_PROCP:
                if (a->d->k == D_FORMAL) c = Cell(find(caller, a->d));
                else { c.proc = a->d; c.env = frame_of(caller, a->d); }
                break;
            }
        }
        for (size_t i = 0; i < p->formals.size(); i++) {
            auto &fd = p->formals[i];
            if (fd->f == F_VALUE) {
                Val v = eval(args[i], caller);
                LV l;
                Cell &c = fr->c[fd.get()];
                l.c = &c;
                l.type = fd->type;
                store(l, v);
            }
        }
        // arrays are copied when the values of all the others are there
        for (auto &fd : p->formals) {
            if (fd->f == F_ARRV) {
                Cell &c = fr->c[fd.get()];
                if (c.arr->from) throw Reject{ "value array in the bounds of the block it is local to" };
                auto copy = std::make_shared<ArrayObj>(*c.arr);
                copy->type = fd->type;
                copy->from = c.arr;
                c.arr = copy;
                fr->late.push_back(copy);
            }
        }
        if (p->body->kind != S_BLOCK) settle(fr);
        Cell &res = fr->c[p.get()]; // the function's own result; shadows the name for assignment
        (void)res;
        exec(p->body, fr);
        depth--;
        Cell &r2 = fr->c[p.get()];
        if (fun && !r2.set) throw Reject{ "function without a value" };
        return r2.v;
    }
    void settle(const FP &fr)
    {
        if (!fr) return;
        for (auto &a : fr->late) {
            for (bool s : a->from->set) if (!s) throw Reject{ "value array not filled" };
            a->set = a->from->set;
            a->v = a->from->v;
            if (a->type != a->from->type)
                for (auto &v : a->v) v = a->type == T::INT ? Val::I(to_int(v)) : Val::R(v.num());
            a->from = nullptr;
        }
        fr->late.clear();
    }
    Val eval(const NP &e, const FP &f)
    {
        step();
        switch (e->kind) {
        case E_LIT:
            if (e->type == T::BOOL) return Val::B(e->iv != 0);
            return e->isreal ? Val::R(e->rv) : Val::I(e->iv);
        case E_VAR: {
            if (e->d->k == D_FORMAL && (e->d->f == F_NAME || e->d->f == F_NAMELV)) {
                m.thunks++;
                Cell &c = find(f, e->d);
                NP x = c.expr;
                FP env = c.env;
                if (++depth > 200) throw Reject{ "too deep" };
                Val v = eval(x, env);
                depth--;
                return v;
            }
            LV l = lval(e, f);
            return load(l);
        }
        case E_ELEM: return load(lval(e, f));
        case E_BIN: {
            const std::string &o = e->s;
            Val a = eval(e->k[0], f);
            Val b = eval(e->k[1], f);
            if (o == "and") return Val::B(a.b & b.b);
            if (o == "or") return Val::B(a.b | b.b);
            if (o == "imp") return Val::B(!a.b || b.b);
            if (o == "eqv") return Val::B(a.b == b.b);
            if (o == "<" || o == "<=" || o == "=" || o == ">=" || o == ">" || o == "!=") {
                long double x = a.num(), y = b.num();
                return Val::B(o == "<" ? x < y : o == "<=" ? x <= y : o == "=" ? x == y : o == ">=" ? x >= y : o == ">" ? x > y : x != y);
            }
            return arith(o, a, b);
        }
        case E_POS: return eval(e->k[0], f);
        case E_NEG: {
            Val a = eval(e->k[0], f);
            if (a.num() == 0) throw Reject{ "negative zero" };
            if (a.t == 'i') return Val::I(-a.i);
            return Val::R(-a.r);
        }
        case E_NOT: return Val::B(!eval(e->k[0], f).b);
        case E_COND: return eval(e->k[0], f).b ? eval(e->k[1], f) : eval(e->k[2], f);
        case E_CALL: return call(e, f, true);
        case E_BUILTIN: return builtin(e, f);
        default: throw Reject{ "cannot evaluate" };
        }
    }
    Val builtin(const NP &e, const FP &f)
    {
        const std::string &n = e->s;
        if (n == "read") return read_number();
        if (n == "XEEN") return Val::I(xeen(need_int(eval(e->k[0], f))));
        if (n == "RESYM") return Val::I(resym());
        if (n == "SUM") {
            // SUM(i, a, b, x): a and b by value
            m.loops++;
            Val a = eval(e->k[1], f), b = eval(e->k[2], f);
            long long lo = to_int(a), hi = to_int(b);
            long double s = 0;
            store(lval(e->k[0], f), Val::I(lo));
            for (;;) {
                long long i = load(lval(e->k[0], f)).i;
                if (i > hi) break;
                Val x = eval(e->k[3], f);
                s = mkreal(s + x.num()).r;
                LV l = lval(e->k[0], f);
                store(l, arith("+", load(l), Val::I(1)));
            }
            return Val::R(s);
        }
        Val a = eval(e->k[0], f);
        if (n == "abs") { return Val::R(fabsl(a.num())); }
        if (n == "sign") return Val::I(a.num() > 0 ? 1 : a.num() < 0 ? -1 : 0);
        if (n == "entier") {
            if (a.t == 'i') return a;
            if (a.r < -67108863.0L || a.r >= 67108864.0L) throw RtError{ "entier overflow" };
            return mkint((long long)floorl(a.r));
        }
        if (n == "sqrt") {
            if (a.num() < 0) throw RtError{ "sqrt of negative" };
            return mkreal(sqrtl(a.num()));
        }
        if (n == "sin") return mkreal(sinl(a.num()));
        if (n == "cos") return mkreal(cosl(a.num()));
        if (n == "arctan") return mkreal(atanl(a.num()));
        if (n == "ln") {
            if (a.num() <= 0) throw RtError{ "ln of non-positive" };
            return mkreal(logl(a.num()));
        }
        if (n == "exp") {
            if (a.num() > 11000) throw RtError{ "exp overflow" };
            return mkreal(expl(a.num()));
        }
        if (n == "EVEN") {
            if (a.t != 'i') throw Reject{ "EVEN of a real" };
            long long v = to_int(a);
            return Val::I(v % 2 == 0 ? 1 : -1);
        }
        throw Reject{ "builtin " + n };
    }

    // ---- statements
    void designate(const NP &e, const FP &f)
    {
        // e: E_NAMEREF label/formal label; E_ELEM on a switch; E_COND
        step();
        if (e->kind == E_COND) { designate(eval(e->k[0], f).b ? e->k[1] : e->k[2], f); return; }
        if (e->kind == E_NAMEREF) {
            DP d = e->d;
            FP home;
            if (d->k == D_FORMAL) { Cell c = find(f, d); d = c.proc; home = c.env; }
            else home = frame_of(f, d);
            m.jumps++;
            throw Jump{ d.get(), home->serial };
        }
        if (e->kind == E_ELEM) {
            DP d = e->d;
            FP home = f;
            long long i = to_int(eval(e->k[0], f));
            if (d->k == D_FORMAL) { Cell c = find(f, d); d = c.proc; home = c.env; }
            else home = frame_of(f, d);
            if (i < 1 || i > (long long)d->sw.size()) throw Reject{ "switch index" };
            designate(d->sw[(size_t)i - 1], home);
            return;
        }
        throw Reject{ "designator" };
    }
    void put(const std::string &s)
    {
        m.out += s;
        if (m.out.size() > 20000) throw Reject{ "too much output" };
    }
    std::string show(const Val &v)
    {
        if (v.t == 'i') return std::to_string(v.i);
        if (v.t == 'r') return show_real(v.r);
        throw Reject{ "print boolean" };
    }
    static std::string float_text(int n, int mm, long double x0);
    static std::string fixed_text(int n, int mm, long double x0, bool sign);

    void run_block(const NP &b, const FP &fr)
    {
        size_t pc = 0;
        for (;;) {
            try {
                for (; pc < b->k.size(); pc++) exec(b->k[pc], fr);
                return;
            } catch (Jump &j) {
                if (j.serial != fr->serial) throw;
                bool found = false;
                for (size_t i = 0; i < b->k.size(); i++)
                    for (auto &l : b->k[i]->labels)
                        if (l.get() == j.label) { pc = i; found = true; }
                if (!found) throw;
            }
        }
    }
    void exec(const NP &s, const FP &f)
    {
        step();
        if (s->id >= 0 && !s->keep && del.count(s->id)) return;
        switch (s->kind) {
        case S_DUMMY: break;
        case S_ASSIGN: {
            // k: targets..., value
            std::vector<LV> ls;
            for (size_t i = 0; i + 1 < s->k.size(); i++) {
                auto &t = s->k[i];
                if (t->kind == E_VAR && t->d->k == D_PROC) {
                    LV l;
                    FP g = f;
                    while (g && g->proc != t->d) g = g->up;
                    if (!g) throw Reject{ "result outside of function" };
                    l.c = &g->c[t->d.get()];
                    l.type = t->d->type;
                    ls.push_back(l);
                } else ls.push_back(lval(t, f));
            }
            Val v = eval(s->k.back(), f);
            for (size_t i = 0; i + 1 < s->k.size(); i++)
                if (s->k[i]->kind == E_VAR && s->k[i]->d->k == D_PROC && ls[i].type == T::INT && v.t == 'r') throw Reject{ "real result of integer procedure" };
            for (size_t i = ls.size(); i-- > 0;) {
                // All targets have the same type; a function result keeps what it is given.
                store(ls[i], v);
                if (s->k[i]->kind == E_VAR && s->k[i]->d->k == D_PROC && v.t == 'i' && ls[i].type == T::REAL) ls[i].c->v.whole = true;
            }
            break;
        }
        case S_IF:
            if (eval(s->k[0], f).b) exec(s->k[1], f);
            else if (s->k.size() > 2) exec(s->k[2], f);
            break;
        case S_FOR: {
            m.loops++;
            // k[0] variable, k[1] body, k[2..] list
            for (size_t i = 2; i < s->k.size(); i++) {
                auto &l = s->k[i];
                if (l->kind == F_EXPR) {
                    LV v = lval(s->k[0], f);
                    Val x = eval(l->k[0], f);
                    if (!same(lval(s->k[0], f), v)) throw Reject{ "another controlled variable" };
                    store(v, x);
                    exec(s->k[1], f);
                } else if (l->kind == F_WHILE) {
                    for (;;) {
                        step();
                        LV v = lval(s->k[0], f);
                        store(v, eval(l->k[0], f));
                        if (!eval(l->k[1], f).b) break;
                        exec(s->k[1], f);
                    }
                } else {
                    const LV v = lval(s->k[0], f);
                    Val cur = eval(l->k[0], f);
                    if (!same(lval(s->k[0], f), v)) throw Reject{ "another controlled variable" };
                    for (bool first = true;; first = false) {
                        step();
                        if (!same(lval(s->k[0], f), v)) throw Reject{ "another controlled variable" };
                        if (!first) cur = load(v);
                        Val st, lim;
                        {
                            struct Watch { std::vector<LV> &w; Watch(std::vector<LV> &a, const LV &v) : w(a) { w.push_back(v); } ~Watch() { w.pop_back(); } } guard(watch, v);
                            st = eval(l->k[1], f);
                            if (!first) cur = arith("+", cur, st); // an overflow comes before the limit is asked for
                            lim = eval(l->k[2], f);
                            if (!same(lval(s->k[0], f), v)) throw Reject{ "another controlled variable" };
                        }
                        store(v, cur);
                        cur = load(v);
                        if (st.num() > 0 ? cur.num() > lim.num() : st.num() < 0 ? cur.num() < lim.num() : false) break;
                        exec(s->k[1], f);
                    }
                }
            }
            break;
        }
        case S_GOTO: designate(s->k[0], f); break;
        case S_CALL: {
            int d0 = depth;
            call(s, f, false);
            depth = d0;
            break;
        }
        case S_COMPOUND:
            for (auto &x : s->k) exec(x, f);
            break;
        case S_BLOCK: {
            auto fr = std::make_shared<Frame>();
            fr->up = f;
            fr->block = s;
            fr->serial = ++serial;
            for (auto &d : s->decls) {
                if (d->own) {
                    if (!owns.count(d.get())) {
                        Cell &c = owns[d.get()];
                        c.v = d->type == T::INT ? Val::I(0) : d->type == T::REAL ? Val::R(0) : Val::B(true);
                        c.set = false; // must be initialised by the program
                        if (d->k == D_ARRAY) c.arr = make_array(d, fr);
                    }
                    continue;
                }
                fr->c[d.get()];
            }
            for (auto &d : s->decls)
                if (d->k == D_ARRAY && !d->own) {
                    // bounds are evaluated outside, and once for all that share them
                    std::shared_ptr<ArrayObj> a;
                    if (d->group)
                        for (auto &x : s->decls) if (x->group == d->group && fr->c[x.get()].arr) { a = std::make_shared<ArrayObj>(*fr->c[x.get()].arr); a->set.assign(a->set.size(), false); break; }
                    if (!a) a = make_array(d, f);
                    fr->c[d.get()].arr = a;
                }
            settle(f);
            int d0 = depth;
            try { run_block(s, fr); } catch (Jump &) { depth = d0; throw; }
            break;
        }
        case S_PRINT: {
            std::vector<std::string> o;
            for (auto &x : s->k) o.push_back(show(eval(x, f)));
            for (size_t i = 0; i < o.size(); i++) put((i ? " " : "") + o[i]);
            break;
        }
        case S_PRINTARR: break;
        case S_NLCR: put("\n"); break;
        case S_WRONG: put(text_of(s->k[0]->s) + "\n"); throw RtError{ "wrong parameter" };
        case S_TAB: put("\t"); break;
        case S_SPACE: { long long n = need_int(eval(s->k[0], f)); put(std::string(n > 0 ? (size_t)n : 0, ' ')); break; }
        case S_TEXT: {
            const NP &a = s->k[0];
            if (a->kind == E_STR) put(text_of(a->s));
            else { Cell c = find(f, a->d); put(text_of(c.expr->s)); }
            break;
        }
        case S_FIXT: {
            long long n = need_int(eval(s->k[0], f)), mm = need_int(eval(s->k[1], f));
            Val x = eval(s->k[2], f);
            put(fixed_text((int)n, (int)mm, x.num(), s->s == "FIXT"));
            break;
        }
        case S_FLOT: {
            bool two = s->k.size() == 2; // FLOT(n, x): two digits of exponent
            long long n = need_int(eval(s->k[0], f)), mm = two ? 2 : need_int(eval(s->k[1], f));
            Val x = eval(s->k.back(), f);
            put(float_text((int)n, (int)mm, x.num()));
            break;
        }
        case S_PRSYM: {
            long long v = to_int(eval(s->k[0], f));
            if (v < 0 || v > 127) throw Reject{ "symbol" };
            static const std::map<int, std::string> t = {
                { 64, "+" }, { 65, "-" }, { 66, "\xc3\x97" }, { 67, "/" }, { 68, "\xc3\xb7" }, { 69, "\xe2\x86\x91" }, { 70, ">" }, { 71, "\xe2\x89\xa5" },
                { 72, "=" }, { 73, "\xe2\x89\xa4" }, { 74, "<" }, { 75, "\xe2\x89\xa0" }, { 76, "\xc2\xac" }, { 77, "\xe2\x88\xa7" }, { 78, "\xe2\x88\xa8" },
                { 79, "\xe2\x8a\x83" }, { 80, "\xe2\x89\xa1" }, { 87, "," }, { 88, "." }, { 89, "\xe2\x8f\xa8" }, { 90, ":" }, { 91, ";" }, { 92, ":=" }, { 93, " " },
                { 98, "(" }, { 99, ")" }, { 100, "[" }, { 101, "]" }, { 102, "`" }, { 103, "'" }, { 118, "\t" }, { 119, "\n" }, { 121, "\"" }, { 122, "?" } };
            auto i = t.find((int)v);
            put(v <= 62 && v != 36 ? std::string(1, (char)(v < 10 ? '0' + v : v < 36 ? 'a' + (v - 10) : 'A' + (v - 37))) : i != t.end() ? i->second : "\xe2\x8e\x95");
            break;
        }
        case S_STOP: switches_valid = false; break;
        default: throw Reject{ "statement" };
        }
    }
    std::shared_ptr<ArrayObj> make_array(const DP &d, const FP &f)
    {
        auto a = std::make_shared<ArrayObj>();
        a->type = d->type;
        size_t n = 1;
        for (int i = 0; i < d->dims; i++) {
            long lo = (long)to_int(eval(d->bounds[2 * i], f)), hi = (long)to_int(eval(d->bounds[2 * i + 1], f));
            if (hi < lo || hi - lo > 60) throw Reject{ "array bounds" };
            a->b.push_back({ lo, hi });
            n *= (size_t)(hi - lo + 1);
        }
        if (n > 400) throw Reject{ "array too large" };
        a->v.resize(n);
        a->set.assign(n, false);
        return a;
    }
};
// Digits by exact decimal expansion of the value (independent of the implementation's loop).
std::string dec(long double x, int m) // |x| rounded half up to m decimals, as digits without point
{
    long double s = x * powl(10.0L, m);
    long double f = floorl(s);
    long double r = s - f;
    if (fabsl(r - 0.5L) < (x > 1e-3L && fabsl(x * powl(10.0L, m)) < 1e6L ? 1e-6L : 1e-3L)) throw Reject{ "near half" };
    if (r >= 0.5L) f += 1;
    if (f > 1e17L) throw Reject{ "too many digits" };
    return std::to_string((long long)f);
}
std::string Interp::fixed_text(int n, int mm, long double x0, bool sign)
{
    long double x = fabsl(x0);
    if (n < 0 || mm < 0 || n + mm > 21 || n + mm < 1) return float_text(13, 3, x0);
    if (n + mm > 15) throw Reject{ "more digits than the machine has" };
    if (x >= powl(10.0L, n)) return float_text(13, 3, x0);
    std::string d = dec(x, mm);
    while ((int)d.size() < n + mm) d = "0" + d;
    if ((int)d.size() > n + mm) return float_text(13, 3, x0);
    std::string o(1, sign ? (x0 < 0 ? '-' : '+') : ' ');
    bool supp = true;
    for (int i = 0; i < n + mm; i++) {
        if (i + 1 == n) supp = false;
        if (i == n && mm > 0) o += '.';
        if (d[i] == '0' && supp) o += ' ';
        else { o += d[i]; supp = false; }
    }
    return o + " ";
}
std::string Interp::float_text(int n, int mm, long double x0)
{
    if (n < 1 || n > 13 || mm < 1 || mm > 3) n = 13, mm = 3;
    long double x = fabsl(x0);
    int e = 0;
    if (x != 0) {
        while (x >= 1) { x /= 10; e++; }
        while (x < 0.1L) { x *= 10; e--; }
        x = fabsl(x0);
    }
    // digits = x * 10^(n-e)
    std::string d = x == 0 ? std::string((size_t)n, '0') : dec(e > 0 ? x / powl(10.0L, e) : x * powl(10.0L, -e), n);
    if (x != 0 && (int)d.size() > n) { d = d.substr(0, (size_t)n); e++; }
    if (x != 0 && (int)d.size() < n) throw Reject{ "digits" };
    const int lim = mm == 1 ? 9 : mm == 2 ? 99 : 999;
    if (e > lim || e < -lim) {
        if (mm == 3) throw Reject{ "exponent" };
        return float_text(13, 3, x0);
    }
    std::string o(1, x0 < 0 ? '-' : '+');
    o += "." + d + "\xe2\x8f\xa8";
    o += e < 0 ? '-' : '+';
    std::string ed = std::to_string(e < 0 ? -e : e);
    while ((int)ed.size() < mm) ed = " " + ed;
    return o + ed + " ";
}

// ----------------------------------------------------------------- printing
struct Printer {
    int style; // 0 combining underline, 1 underscores
    int ops;
    const std::set<int> &del;
    bool joint;
    std::string kw(const std::string &w)
    {
        std::string o;
        for (char c : w) {
            if (c == ' ') { o += ' '; continue; }
            if (style == 0) { o += c; o += "\xcc\xb2"; }
            else { o += '_'; o += c; }
        }
        return o;
    }
    std::string op(const std::string &o)
    {
        static const std::map<std::string, std::pair<std::string, std::string>> t = {
            { "*", { "\xc3\x97", "*" } }, { "div", { "\xc3\xb7", "_:" } }, { "^", { "\xe2\x86\x91", "|\xe2\x88\xa7" } }, { "<=", { "\xe2\x89\xa4", "_<" } },
            { ">=", { "\xe2\x89\xa5", "_>" } }, { "!=", { "\xe2\x89\xa0", "|=" } }, { "and", { "\xe2\x88\xa7", "\xe2\x88\xa7" } },
            { "or", { "\xe2\x88\xa8", "\xe2\x88\xa8" } }, { "imp", { "\xe2\x8a\x83", "_\xc2\xac" } }, { "eqv", { "\xe2\x89\xa1", "_=" } } };
        auto i = t.find(o);
        if (i == t.end()) return o;
        return ops ? i->second.second : i->second.first;
    }
    static int prec(const NP &e)
    {
        if (e->kind == E_COND) return 0;
        if (e->kind == E_NOT) return 5;
        if (e->kind == E_NEG || e->kind == E_POS) return 7;
        if (e->kind == E_LIT && e->type != T::BOOL && (e->isreal ? e->rv < 0 : e->iv < 0)) return 7;
        if (e->kind != E_BIN) return 20;
        const std::string &o = e->s;
        if (o == "eqv") return 1;
        if (o == "imp") return 2;
        if (o == "or") return 3;
        if (o == "and") return 4;
        if (o == "<" || o == "<=" || o == "=" || o == ">=" || o == ">" || o == "!=") return 6;
        if (o == "+" || o == "-") return 7;
        if (o == "*" || o == "/" || o == "div") return 8;
        return 9; // ^
    }
    std::string ex(const NP &e, int min = 0)
    {
        std::string s = ex0(e);
        if (prec(e) < min) return "(" + s + ")";
        return s;
    }
    std::string args(const std::vector<NP> &k)
    {
        std::string o;
        for (size_t i = 0; i < k.size(); i++) o += (i ? ", " : "") + ex(k[i]);
        return o;
    }
    std::string ex0(const NP &e)
    {
        switch (e->kind) {
        case E_LIT:
            if (e->type == T::BOOL) return kw(e->iv ? "true" : "false");
            if (e->isreal) return e->s;
            return std::to_string(e->iv);
        case E_VAR: case E_NAMEREF: return e->d->name;
        case E_STR: return "`" + e->s + "'";
        case E_ELEM: return e->d->name + "[" + args(e->k) + "]";
        case E_BIN: {
            int p = prec(e);
            // left associative; the right operand binds tighter
            std::string l = ex(e->k[0], p == 6 ? 7 : p), r = ex(e->k[1], p + 1);
            return l + " " + op(e->s) + " " + r;
        }
        case E_NEG: return "-" + ex(e->k[0], 8);
        case E_POS: return "+" + ex(e->k[0], 8);
        case E_NOT: return std::string("\xc2\xac") + " " + ex(e->k[0], 6);
        case E_COND: return kw("if") + " " + ex(e->k[0]) + " " + kw("then") + " " + ex(e->k[1], 1) + " " + kw("else") + " " + ex(e->k[2]);
        case E_CALL: return e->d->name + (e->k.empty() ? "" : "(" + args(e->k) + ")");
        case E_BUILTIN: return e->s + (e->k.empty() ? "" : "(" + args(e->k) + ")");
        default: return "?";
        }
    }
    static const char *tname(T t) { return t == T::INT ? "integer" : t == T::REAL ? "real" : "Boolean"; }
    std::string tkw(T t)
    {
        if (t == T::BOOL) return kw("boolean");
        return kw(tname(t));
    }
    std::string ind(int n) { return std::string((size_t)n * 2, ' '); }
    std::string stm(const NP &s, int in)
    {
        std::string l;
        for (auto &d : s->labels) l += d->name + ": ";
        if (s->id >= 0 && !s->keep && del.count(s->id)) return l;
        return l + stm0(s, in);
    }
    std::string stm0(const NP &s, int in)
    {
        switch (s->kind) {
        case S_DUMMY: return "";
        case S_ASSIGN: {
            std::string o;
            for (size_t i = 0; i + 1 < s->k.size(); i++) o += ex(s->k[i]) + " := ";
            return o + ex(s->k.back());
        }
        case S_IF: {
            std::string o = kw("if") + " " + ex(s->k[0]) + " " + kw("then") + " " + stm(s->k[1], in);
            if (s->k.size() > 2) o += " " + kw("else") + " " + stm(s->k[2], in);
            return o;
        }
        case S_FOR: {
            std::string o = kw("for") + " " + ex(s->k[0]) + " := ";
            for (size_t i = 2; i < s->k.size(); i++) {
                auto &l = s->k[i];
                if (i > 2) o += ", ";
                o += ex(l->k[0]);
                if (l->kind == F_WHILE) o += " " + kw("while") + " " + ex(l->k[1]);
                if (l->kind == F_STEP) o += " " + kw("step") + " " + ex(l->k[1]) + " " + kw("until") + " " + ex(l->k[2]);
            }
            return o + " " + kw("do") + " " + stm(s->k[1], in);
        }
        case S_GOTO: return kw("goto") + " " + ex(s->k[0]);
        case S_CALL: return s->d->name + (s->k.empty() ? "" : "(" + args(s->k) + ")");
        case S_COMPOUND: {
            std::string o = kw("begin") + " ";
            for (size_t i = 0; i < s->k.size(); i++) o += (i ? "; " : "") + stm(s->k[i], in + 1);
            return o + " " + kw("end");
        }
        case S_BLOCK: {
            std::string o = kw("begin") + "\n";
            std::set<Decl *> taken;
            // variables, then switches and procedures: the order this compiler asks for
            // (scalars, arrays, then switches and procedures)
            // own declarations come before or after the others (arrays: after), as each run of scalars is reserved at once
            for (int pass = -2; pass < 5; pass++)
                for (size_t i = 0; i < s->decls.size(); i++) {
                    auto &d = s->decls[i];
                    if (d->k == D_LABEL || d->group < 0) continue;
                    if ((d->k == D_VAR ? 0 : d->k == D_ARRAY ? 1 : 4) + (!d->own ? 0 : ops || d->k == D_ARRAY ? 2 : -2) != pass) continue;
                    if (taken.count(d.get())) continue;
                    o += ind(in + 1) + decl(s->decls, i, in + 1);
                    size_t at = o.size() - (d->k == D_ARRAY ? bounds(*d).size() : 0);
                    for (size_t j = i + 1; j < s->decls.size(); j++) {
                        // more of the same
                        auto &x = s->decls[j];
                        if (pass == 4 || taken.count(x.get()) || x->k != d->k || x->type != d->type || x->own != d->own) continue;
                        if (x->group && x->group == d->group) { std::string more = ", " + x->name; o.insert(at, more); at += more.size(); taken.insert(x.get()); }
                        else if (joint && !d->group && !x->group && (j + d->name.size()) % 2) { o += ", " + x->name + (d->k == D_ARRAY ? bounds(*x) : ""); taken.insert(x.get()); }
                    }
                    o += ";\n";
                }
            for (size_t i = 0; i < s->k.size(); i++) o += ind(in + 1) + stm(s->k[i], in + 1) + (i + 1 < s->k.size() ? ";" : "") + "\n";
            return o + ind(in) + kw("end");
        }
        case S_PRINT: return "print(" + args(s->k) + ")";
        case S_NLCR: return "NLCR";
        case S_TAB: return "TAB";
        case S_SPACE: return "SPACE(" + args(s->k) + ")";
        case S_TEXT: return "PRINTTEXT(" + ex(s->k[0]) + ")";
        case S_FIXT: case S_FLOT: return s->s + "(" + args(s->k) + ")";
        case S_PRSYM: return "PRSYM(" + args(s->k) + ")";
        case S_STOP: return "stop";
        case S_WRONG: {
            // text of its own: @word is a word of the language, %T is where something is printed
            std::string o;
            for (size_t i = 0; i < s->s.size(); i++) {
                if (s->s[i] == '%') { o += "PRINTTEXT(" + ex(s->k[0]) + "); NLCR"; i++; continue; }
                if (s->s[i] != '@') { o += s->s[i]; continue; }
                std::string w;
                while (i + 1 < s->s.size() && isalpha((unsigned char)s->s[i + 1])) w += s->s[++i];
                o += kw(w);
            }
            return o;
        }
        default: return "";
        }
    }
    std::string bounds(const Decl &d)
    {
        std::string o = "[";
        for (int i = 0; i < d.dims; i++)
            for (int k = 0; k < 2; k++) {
                const auto &x = d.bounds[2 * i + k];
                o += k ? ":" : i ? ", " : "";
                if (x->kind == E_LIT && ops && (d.name.size() + i + k) % 3 == 0) o += "+";
                o += ex(x);
            }
        return o + "]";
    }
    std::string decl(const std::vector<DP> &all, size_t i, int in)
    {
        const Decl &d = *all[i];
        switch (d.k) {
        case D_VAR: return (d.own ? kw("own") + " " : "") + tkw(d.type) + " " + d.name;
        case D_ARRAY: {
            std::string o = (d.own ? kw("own") + " " : "") + (d.type == T::REAL && style == 1 && !d.own ? "" : tkw(d.type) + " ") + kw("array") + " " + d.name;
            return o + bounds(d);
        }
        case D_SWITCH: {
            std::string o = kw("switch") + " " + d.name + " := ";
            for (size_t k = 0; k < d.sw.size(); k++) o += (k ? ", " : "") + ex(d.sw[k]);
            return o;
        }
        case D_PROC: {
            std::string o = (d.typed ? tkw(d.type) + " " : "") + kw("procedure") + " " + d.name;
            if (!d.formals.empty()) {
                o += "(";
                for (size_t k = 0; k < d.formals.size(); k++) o += (k ? ", " : "") + d.formals[k]->name;
                o += ");";
                std::string v;
                for (auto &f : d.formals) if (f->f == F_VALUE || f->f == F_ARRV) v += (v.empty() ? "" : ", ") + f->name;
                if (!v.empty()) o += " " + kw("value") + " " + v + ";";
                auto spec = [](const Decl &f) {
                    switch (f.f) {
                    case F_VALUE: case F_NAME: case F_NAMELV: return fmt("v%d", (int)f.type);
                    case F_ARR: case F_ARRV: return fmt("a%d", (int)f.type);
                    case F_PROCP: return fmt("p%d", f.typed ? (int)f.type : -1);
                    default: return fmt("%d", (int)f.f);
                    }
                };
                std::set<size_t> done;
                for (size_t fi = 0; fi < d.formals.size(); fi++) {
                    auto &f = d.formals[fi];
                    if (done.count(fi)) continue;
                    o += " ";
                    switch (f->f) {
                    case F_VALUE: case F_NAME: case F_NAMELV: o += tkw(f->type); break;
                    case F_ARR: case F_ARRV: o += tkw(f->type) + " " + kw("array"); break;
                    case F_LABEL: o += kw("label"); break;
                    case F_SWITCH: o += kw("switch"); break;
                    case F_STRING: o += kw("string"); break;
                    case F_PROCP: o += (f->typed ? tkw(f->type) + " " : "") + kw("procedure"); break;
                    }
                    o += " " + f->name;
                    for (size_t fj = fi + 1; joint && fj < d.formals.size(); fj++)
                        // in the order of their positions: values are taken in the order of the specifications
                        if (spec(*d.formals[fj]) != spec(*f)) break;
                        else { o += ", " + d.formals[fj]->name; done.insert(fj); }
                    o += ";";
                }
                o.pop_back();
            }
            const bool one = d.body->kind == S_BLOCK && d.body->decls.empty() && d.body->k.size() == 1 && d.body->labels.empty();
            return o + ";\n" + ind(in + 1) + stm(one ? d.body->k[0] : d.body, in + 1);
        }
        default: return "";
        }
    }
};

// ---------------------------------------------------------------- generation
struct Scope {
    Scope *up = nullptr;
    std::vector<DP> d;
    NP block;
    DP proc;     // this scope is the formals of proc
    bool label_ok = false;
};
struct Gen {
    Rng r;
    const Profile &pf;
    Program &P;
    int ids = 0, names = 0, depth = 0, loop_depth = 0, level = 0;
    bool in_fun = false;
    std::set<std::string> used;
    int procs_left;
    bool no_input = false; // inside functions evaluated in odd places
    int error_at = -1, stmt_no = 0;
    int nolabels = 0;
    bool pure = false, noshadow = false;
    std::vector<DP> cur; // procedures being defined
    bool big = false;    // integers about the limits of the machine
    bool odd_names = false; // names of any letters and digits
    NP mainblock;
    int groups = 0, errs = 0;

    Gen(uint64_t seed, const Profile &p, Program &pr) : r(seed), pf(p), P(pr), procs_left(p.procs) { big = r.chance(p.big); odd_names = r.chance(25); }

    static NP mk(K k) { auto n = std::make_shared<Node>(); n->kind = k; return n; }
    NP lit(long v) { auto n = mk(E_LIT); n->iv = v; return n; }
    NP litb(bool v) { auto n = mk(E_LIT); n->type = T::BOOL; n->iv = v; return n; }
    NP litr()
    {
        auto n = mk(E_LIT);
        n->type = T::REAL; n->isreal = true;
        if (big && r.chance(30)) {
            // about the limits of the formats, of the exact whole numbers and of the powers of ten
            static const std::vector<std::string> edge = { "999999999999.0", "1000000000000.0", "1000000000001.0", "1099511627775.0", "1099511627776.0", "1099511627774", "999999999999", "1000000000000", "1099511627775", "1099511627776",
                "999999999998.5", "549755813887.5", "549755813888.5", "549755813887", "99999.5", "9999.95", "999.5", "9.5", "0.95", "0.995", "99.9999", "9.99999", "67108863.5", "67108864.0", "67108863.0", "67108864", "134217727", "134217728.0", "33554431.5",
                "1.0\xe2\x8f\xa8" "12", "1.0\xe2\x8f\xa8" "9", "9.5\xe2\x8f\xa8" "99", "1.0\xe2\x8f\xa8" "-9", "1.0\xe2\x8f\xa8" "-10", "9.75\xe2\x8f\xa8" "9", "1.0\xe2\x8f\xa8" "-99", "1.0\xe2\x8f\xa8" "-100", "1.0\xe2\x8f\xa8" "99", "1.0\xe2\x8f\xa8" "100", "5.0\xe2\x8f\xa8" "-324", "2.0\xe2\x8f\xa8" "308", "2.0\xe2\x8f\xa8" "400", "10000000.0", "100000.0", "1000.0" };
            do { n->s = r.pick(edge); set_real(n); } while (doubtful(n));
            P.features["edge-real"]++;
            return n;
        }
        if (r.chance(15)) {
            const std::string ten = r.chance(50) ? "\xe2\x8f\xa8" : "@";
            do {
                switch (r.below(7)) {
                case 0: n->s = fmt(".%ld", r.range(1, 9999)); break;
                case 1: n->s = ten + fmt("%ld", r.range(0, 6)); break;
                case 2: n->s = ten + fmt("-%ld", r.range(1, 6)); break;
                case 3: n->s = fmt("%ld.%09ld%09ld", r.range(0, 99), r.range(0, 999999999), r.range(0, 999999999)); break;
                case 4: n->s = fmt("%ld%09ld%09ld%s-%ld", r.range(0, 99), r.range(0, 999999999), r.range(0, 999999999), ten.c_str(), r.range(16, 20)); break;
                case 5: n->s = fmt("0.%0*ld", (int)r.range(4, 20), r.range(1, 9999)); break;
                default: n->s = fmt(".%ld%s+0%ld", r.range(1, 99999), ten.c_str(), r.range(0, 9)); break;
                }
                set_real(n);
            } while (doubtful(n) || n->rv == 0);
            P.features["odd-real"]++;
            return n;
        }
        long q = r.range(1, 399);
        switch (r.below(4)) {
        case 0: n->s = fmt("%ld.%s", q / 4, q % 4 == 0 ? "0" : q % 4 == 1 ? "25" : q % 4 == 2 ? "5" : "75"); break;
        case 1: n->s = fmt("%ld.%ld", q / 10, q % 10); break;
        case 2: { long e = r.range(-3, 4); n->s = fmt("%ld.%ld%s%ld", q / 100 + 1, q % 10, "\xe2\x8f\xa8", e); if (e >= 0 && r.chance(50)) n->s = fmt("%ld.%ld@+%ld", q / 100 + 1, q % 10, e); break; }
        default: n->s = fmt("%ld.5", q); break;
        }
        set_real(n);
        return n;
    }
    static void set_real(const NP &n)
    {
        std::string t = n->s;
        auto k = t.find("\xe2\x8f\xa8");
        if (k != std::string::npos) t.replace(k, 3, "E");
        k = t.find('@');
        if (k != std::string::npos) t[k] = 'E';
        if (t[0] == 'E') t = "1" + t;
        n->rv = round40(strtold(t.c_str(), nullptr));
    }
    // The compiler converts constants with some bits more than the format has:
    // avoid those that are half way between two numbers as far as it can tell.
    static bool doubtful(const NP &n)
    {
        int e;
        std::string t = n->s;
        auto k = t.find("\xe2\x8f\xa8");
        if (k != std::string::npos) t.replace(k, 3, "E");
        k = t.find('@');
        if (k != std::string::npos) t[k] = 'E';
        if (t[0] == 'E') t = "1" + t;
        long double m = ldexpl(frexpl(strtold(t.c_str(), nullptr), &e), 40);
        return fabsl(m - floorl(m) - 0.5L) < 0.03L;
    }
    NP slit(long v) { return v < 0 ? neg(lit(-v)) : lit(v); }
    std::string fresh()
    {
        static const std::vector<std::string> base = { "a", "b", "c", "x", "y", "z", "val", "num", "tot", "acc", "k", "n", "q", "w", "top", "Len", "M", "Qx", "idx", "sum" };
        for (;;) {
            std::string s = r.pick(base) + (r.chance(80) ? std::to_string(++names) : "");
            if (odd_names && r.chance(40)) {
                // any letters and digits
                static const std::string alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789zZaA09";
                auto some = [&](size_t n) { std::string o; while (o.size() < n) o += alnum[r.below(o.empty() ? 52 : alnum.size())]; return o; };
                s = some((size_t)r.range(1, 9));
                // labels and switches have names of their own
                if ((s[0] == 'L' || s[0] == 'S' || s[0] == 'B') && s.find_first_not_of("0123456789", 1) == std::string::npos) continue;
                if (!used.insert(s).second) continue;
                if (s.size() == 9 && r.chance(60)) s += some((size_t)r.range(1, r.chance(10) ? 60 : 8)), P.features["long-name"]++;
                P.features["odd-name"]++;
                return s;
            }
            // the first nine characters count
            if (s.size() > 9 || !used.insert(s).second) continue;
            if (r.chance(6)) {
                static const std::vector<std::string> tails = { "total", "X", "extraordinarily", "0123456789", "ofThePreviousLine", "ab", "abc" };
                const std::string l = s + r.pick(tails);
                if (l.size() <= 9) { if (!used.insert(l).second) continue; }
                else if (!used.insert(l.substr(0, 9)).second) continue;
                P.features["long-name"]++;
                return l;
            }
            return s;
        }
    }
    DP var(T t, bool ro = false)
    {
        auto d = std::make_shared<Decl>();
        d->type = t; d->name = fresh(); d->readonly = ro;
        return d;
    }
    // visible declarations, inner first
    template <class F> std::vector<DP> vis(Scope *s, F ok)
    {
        std::vector<DP> o;
        std::set<std::string> seen;
        for (; s; s = s->up)
            for (auto &d : s->d) {
                if (!seen.insert(d->name).second) continue;
                if (ok(*d)) o.push_back(d);
            }
        return o;
    }
    NP vref(const DP &d) { auto n = mk(E_VAR); n->d = d; n->type = d->type; return n; }

    static bool scalar(const Decl &d) { return d.k == D_VAR || (d.k == D_FORMAL && (d.f == F_VALUE || d.f == F_NAME || d.f == F_NAMELV)); }
    static bool isarr(const Decl &d) { return d.k == D_ARRAY || (d.k == D_FORMAL && (d.f == F_ARR || d.f == F_ARRV)); }

    NP index(Scope *s, long lo, long hi, int dp)
    {
        // a subscript within [lo, hi]
        auto loops = vis(s, [&](const Decl &d) { return d.k == D_VAR && d.readonly && !d.cb.empty() && d.cb[0].first >= lo && d.cb[0].second <= hi; });
        if (!loops.empty() && r.chance(60)) return vref(r.pick(loops));
        if (dp > 0 && r.chance(25) && hi - lo >= 2) {
            // lo + (expr mod n) made from div
            auto vs = vis(s, [&](const Decl &d) { return scalar(d) && d.type == T::INT && !(d.k == D_FORMAL && d.f != F_VALUE); });
            if (!vs.empty()) {
                auto a = vref(r.pick(vs));
                long n = hi - lo + 1;
                // entier(abs(a)) - n * (entier(abs(a)) div n) + lo
                auto ab = mk(E_BUILTIN); ab->s = "abs"; ab->type = T::REAL; ab->k = { a };
                auto en = mk(E_BUILTIN); en->s = "entier"; en->type = T::INT; en->k = { ab };
                auto dv = bin("div", en, lit(n));
                auto e = bin("-", en, bin("*", lit(n), dv));
                return lo == 0 ? e : bin("+", e, lit(lo));
            }
        }
        long v = r.range(lo, hi);
        if (pf.reals && r.chance(12)) {
            // a real subscript is rounded
            static const std::vector<std::string> fr = { "0.25", "0.49", "0.4", "0.125", "0.01" };
            auto x = mk(E_LIT);
            x->type = T::REAL; x->isreal = true; x->s = r.pick(fr);
            set_real(x);
            P.features["real-subscript"]++;
            return bin(r.chance(50) ? "+" : "-", slit(v), x);
        }
        return slit(v);
    }
    // An integer constant.
    NP number()
    {
        static const std::vector<long> edge = { 8191, 8192, 16384, 4096, 67108863, 67108862, 33554432, 33554431, 32767, 32768, 65536, 1048576, 5792, 5793, 46340 };
        if (big && r.chance(35)) { P.features["edge"]++; return lit(r.pick(edge)); }
        return lit(r.range(0, 20));
    }
    NP bin(const std::string &o, NP a, NP b)
    {
        auto n = mk(E_BIN);
        n->s = o; n->k = { a, b };
        n->type = o == "/" ? T::REAL : (a->type == T::REAL || b->type == T::REAL) ? T::REAL : T::INT;
        if (o == "and" || o == "or" || o == "imp" || o == "eqv" || o == "<" || o == "<=" || o == "=" || o == ">=" || o == ">" || o == "!=") n->type = T::BOOL;
        return n;
    }
    NP elem(Scope *s, const DP &a, int dp)
    {
        auto n = mk(E_ELEM);
        n->d = a; n->type = a->type;
        for (int i = 0; i < a->dims; i++) n->k.push_back(index(s, a->cb[i].first, a->cb[i].second, dp));
        return n;
    }
    NP expr(Scope *s, T t, int dp)
    {
        if (t == T::BOOL) return bexpr(s, dp);
        if (pf.error && errs < 3 && dp > 0 && r.chance(2)) {
            NP e = error_stmt(s);
            if (e->kind == S_ASSIGN && e->k.size() == 2 && (e->k[1]->type == t || t == T::REAL) && e->k[1]->type != T::BOOL) { errs++; P.features["error-in-expression"]++; return e->k[1]; }
        }
        auto vs = vis(s, [&](const Decl &d) { return scalar(d) && (d.type == t || (t == T::REAL && d.type == T::INT)); });
        int w = (int)r.below(100);
        if (!vs.empty()) {
            std::vector<DP> fs;
            for (auto &v : vs) if (v->k == D_FORMAL && v->f != F_VALUE) fs.push_back(v);
            if (!fs.empty() && r.chance(50)) vs = fs;
        }
        if (dp <= 0 || w < 30) {
            if (!vs.empty() && r.chance(75)) return vref(r.pick(vs));
            if (t == T::REAL && r.chance(60) && pf.reals) return litr();
            return number();
        }
        if (w < 62) {
            static const std::vector<std::string> oi = { "+", "+", "-", "-", "*", "div" }, orr = { "+", "-", "*", "/", "+", "-" };
            std::string o = r.pick(t == T::INT ? oi : orr);
            if (big && r.chance(15)) {
                // about the limit of integers: 67108863
                static const std::vector<std::pair<long, long>> pr = { { 8192, 8192 }, { 4096, 16384 }, { 33554432, 2 }, { 67108863, 1 }, { 67108863, 2 }, { 8191, 8193 }, { 5793, 11585 }, { 8191, 8191 }, { 22369621, 3 }, { 67108863, 67108863 } };
                auto q = r.pick(pr);
                static const std::vector<std::pair<long, long>> sm = { { 67108863, 0 }, { 67108862, 1 }, { 33554432, 33554431 }, { 60000000, 7108863 }, { 67108860, 2 } };
                P.features["edge-pair"]++;
                const bool sum = r.chance(30);
                if (sum) q = r.pick(sm);
                NP x = slit(r.chance(20) ? -q.first : q.first), y = slit(r.chance(20) ? -q.second : q.second);
                auto vs2 = vis(s, [&](const Decl &d) { return scalar(d) && d.type == T::INT; });
                if (!vs2.empty() && r.chance(50)) { auto v = vref(r.pick(vs2)); x = bin("+", x, bin("-", v, v)); }
                auto n = bin(sum ? (q.first && x->kind == E_NEG ? "-" : "+") : "*", x, y);
                n->type = t;
                return n;
            }
            NP a = expr(s, t, dp - 1), b;
            if (!vs.empty() && r.chance(30)) {
                // the right operand is a variable or a parameter: there are operations of their own for these
                auto v = r.pick(vs);
                b = vref(v);
                auto n = bin(o, a, b);
                n->type = t;
                P.features["op" + o + (v->k == D_FORMAL && v->f != F_VALUE ? "formal" : "variable")]++;
                if (o != "div" && o != "/") return n;
                auto c = mk(E_COND);
                c->k = { bin("!=", vref(v), lit(0)), n, a };
                c->type = t;
                return c;
            }
            if (o == "div" || o == "/") b = r.chance(70) ? lit(r.range(1, 9)) : expr(s, t, dp - 1);
            else b = expr(s, t, dp - 1);
            auto n = bin(o, a, b);
            n->type = t;
            P.features["op" + o]++;
            return n;
        }
        if (w < 66) { auto n = mk(r.chance(80) ? E_NEG : E_POS); n->k = { expr(s, t, dp - 1) }; n->type = t; P.features["neg"]++; return n; }
        if (w < 73) {
            auto n = mk(E_COND);
            n->k = { bexpr(s, dp - 1), expr(s, t, dp - 1), expr(s, t, dp - 1) };
            n->type = t;
            P.features["condexpr"]++;
            return n;
        }
        if (w < 83 && pf.arrays) {
            auto as = vis(s, [&](const Decl &d) { return isarr(d) && d.type == t; });
            if (!as.empty()) { P.features["elem"]++; return elem(s, r.pick(as), dp - 1); }
        }
        if (w < 93) {
            NP c = fcall(s, t, dp - 1);
            if (c) return c;
        }
        if (w < 96) {
            auto n = mk(E_BUILTIN);
            if (t == T::INT) {
                switch (r.below(pf.library ? 3 : 2)) {
                case 0: n->s = "sign"; n->k = { expr(s, r.chance(50) && pf.reals ? T::REAL : T::INT, dp - 1) }; break;
                case 1: n->s = "entier"; n->k = { pf.reals && r.chance(big ? 30 : 5) ? limit_real(s, true) : expr(s, pf.reals ? T::REAL : T::INT, dp - 1) }; break;
                default: n->s = "EVEN"; n->k = { expr(s, T::INT, dp - 1) }; break;
                }
            } else {
                static const std::vector<std::string> f = { "abs", "sqrt", "sin", "cos", "arctan", "ln", "exp" };
                n->s = r.pick(f);
                auto a = mk(E_BUILTIN);
                a->s = "abs"; a->type = T::REAL;
                a->k = { expr(s, T::REAL, dp - 1) };
                if (n->s == "ln") n->k = { bin("+", a, lit(1)) };
                else if (n->s == "sqrt") n->k = { a };
                else if (n->s == "exp") n->k = { bin("/", expr(s, T::INT, 0), lit(8)) };
                else n->k = { expr(s, T::REAL, dp - 1) };
            }
            n->type = t;
            P.features["fn-" + n->s]++;
            return n;
        }
        if (t == T::INT) { P.features["pow"]++; auto n = bin("^", expr(s, T::INT, 0), lit(r.range(1, 3))); n->type = T::INT; return n; }
        if (r.chance(30)) {
            auto a = mk(E_BUILTIN);
            a->s = "abs"; a->type = T::REAL;
            a->k = { expr(s, T::REAL, 0) };
            auto n = bin("^", bin("+", a, litr()), r.chance(60) ? litr() : neg(litr()));
            n->type = T::REAL;
            P.features["pow-real"]++;
            return n;
        }
        if (r.chance(30) && pf.reals) {
            // any base, also whole numbers and zero
            NP base = r.chance(60) ? expr(s, T::INT, 0) : expr(s, T::REAL, 0), ten = lit(10), n;
            auto c = mk(E_COND);
            c->type = T::REAL;
            n = bin("^", base, r.chance(50) ? litr() : bin("/", expr(s, T::INT, 0), lit(4)));
            n->type = T::REAL;
            c->k = { bin("and", bin(">", base, lit(0)), bin("<", base, ten)), n, base };
            if (r.chance(30)) c->k = { bin("=", base, lit(0)), bin("^", base, litr()), base };
            P.features["pow-any"]++;
            return c;
        }
        { auto n = bin("^", expr(s, T::REAL, 0), lit(r.range(-2, 3))); n->type = T::REAL; P.features["pow"]++; return n; }
    }
    // Two numbers that differ by little or not at all, one of them real.
    NP close(Scope *s, const std::string &op)
    {
        long v = r.chance(50) ? r.range(1, 67108862) : r.pick(std::vector<long>{ 16777216, 16777217, 33554432, 33554433, 67108862, 8388609, 1, 100 });
        static const std::vector<std::string> part = { "0", "5", "25", "75", "0625" };
        auto real = [&](long v) {
            NP x;
            do { x = mk(E_LIT); x->type = T::REAL; x->isreal = true; x->s = fmt("%ld.", v) + r.pick(part); set_real(x); } while (doubtful(x));
            return x;
        };
        long d = r.chance(60) ? 0 : r.chance(50) ? 1 : -1;
        NP a = real(v + d), b = r.chance(70) ? lit(v) : real(v);
        if (r.chance(40)) a = neg(a), b = neg(b);
        auto is = vis(s, [&](const Decl &d) { return scalar(d) && d.type == T::INT; });
        if (!is.empty() && r.chance(30)) { auto v = vref(r.pick(is)); b = bin("+", b, bin("-", v, v)); }
        if (!is.empty() && r.chance(30)) { auto v = vref(r.pick(is)); a = bin("+", a, bin("-", v, v)); }
        P.features["close"]++;
        return r.chance(50) ? bin(op, a, b) : bin(op, b, a);
    }
    // A real about the limits of what entier takes; safe: within them.
    NP limit_real(Scope *s, bool safe)
    {
        static const std::vector<std::string> in = { "67108863.0", "67108863.5", "67108863.9375", "67108862.5", "-67108863.0", "-67108862.5", "-67108862.0625" }, out = { "67108864.0", "67108864.5", "-67108863.5", "-67108863.0625", "-67108864.0", "134217728.0" };
        std::string t = r.pick(safe ? in : out);
        auto x = mk(E_LIT);
        x->type = T::REAL; x->isreal = true;
        bool minus = t[0] == '-';
        x->s = minus ? t.substr(1) : t;
        set_real(x);
        NP y = minus ? neg(x) : x;
        auto is = vis(s, [&](const Decl &d) { return scalar(d) && d.type == T::INT; });
        if (!is.empty() && r.chance(50)) { auto v = vref(r.pick(is)); y = bin("+", y, bin("-", v, v)); }
        return y;
    }
    NP bexpr(Scope *s, int dp)
    {
        int w = (int)r.below(100);
        auto vs = vis(s, [&](const Decl &d) { return scalar(d) && d.type == T::BOOL; });
        if (w < 12 && !vs.empty()) return vref(r.pick(vs));
        if (w < 20 && pf.arrays && dp > 0) {
            auto as = vis(s, [&](const Decl &d) { return isarr(d) && d.type == T::BOOL; });
            if (!as.empty()) { P.features["elem-bool"]++; return elem(s, r.pick(as), dp - 1); }
        }
        if (dp <= 0 || w < 55) {
            static const std::vector<std::string> o = { "<", "<=", "=", ">=", ">", "!=" };
            T t = pf.reals && r.chance(30) ? T::REAL : T::INT;
            std::string op = r.pick(o);
            P.features["rel" + op]++;
            if (pf.reals && r.chance(big ? 20 : 4)) return close(s, op);
            return bin(op, expr(s, t, dp - 1), expr(s, t, dp - 1));
        }
        if (w < 62) { auto n = mk(E_NOT); n->type = T::BOOL; n->k = { bexpr(s, dp - 1) }; return n; }
        if (w < 66) return litb(r.chance(50));
        if (w < 70) { auto n = mk(E_COND); n->type = T::BOOL; n->k = { bexpr(s, dp - 1), bexpr(s, dp - 1), bexpr(s, dp - 1) }; return n; }
        if (w < 76) { NP c = fcall(s, T::BOOL, dp - 1); if (c) return c; }
        static const std::vector<std::string> o = { "and", "or", "imp", "eqv", "and", "or" };
        std::string op = r.pick(o);
        P.features["bool" + op]++;
        return bin(op, bexpr(s, dp - 1), bexpr(s, dp - 1));
    }
    bool callable(const Decl &d)
    {
        if (d.k != D_PROC) return false;
        for (auto &c : cur) if (c.get() == &d) return false; // recursion is made separately
        return true;
    }
    // Two procedures that can be called in the same way.
    static bool alike(const Decl &a, const Decl &b)
    {
        if (a.typed != b.typed || (a.typed && a.type != b.type) || a.formals.size() != b.formals.size()) return false;
        for (size_t i = 0; i < a.formals.size(); i++) {
            auto &x = *a.formals[i], &y = *b.formals[i];
            if (x.f != y.f || x.readonly != y.readonly || x.dims != y.dims || x.cb != y.cb) return false;
            if (x.f == F_PROCP ? !alike(x, y) : x.f != F_LABEL && x.f != F_STRING && x.f != F_SWITCH && x.type != y.type) return false;
        }
        return true;
    }
    // Actual parameters for a call.
    bool actuals(Scope *s, const std::vector<DP> &formals, std::vector<NP> &out, int dp)
    {
        for (auto &f : formals) {
            switch (f->f) {
            case F_VALUE:
                if (f->readonly) out.push_back(lit(r.range(0, 4))); // recursion depth
                else out.push_back(expr(s, f->type, dp));
                break;
            case F_NAME: out.push_back(expr(s, f->type, dp)); P.features["byname"]++; break;
            case F_NAMELV: {
                auto vs = vis(s, [&](const Decl &d) { return ((d.k == D_VAR && !d.readonly) || (d.k == D_FORMAL && ((d.f == F_VALUE && !d.readonly) || d.f == F_NAMELV))) && d.type == f->type; });
                auto as = vis(s, [&](const Decl &d) { return isarr(d) && d.type == f->type; });
                P.features["byname-assigned"]++;
                if (!as.empty() && pf.arrays && (vs.empty() || r.chance(40))) out.push_back(elem(s, r.pick(as), dp));
                else if (!vs.empty()) out.push_back(vref(r.pick(vs)));
                else return false;
                break;
            }
            case F_ARR: case F_ARRV: {
                const bool conv = r.chance(50);
                auto as = vis(s, [&](const Decl &d) {
                    if (!isarr(d) || d.dims != f->dims) return false;
                    if (d.type != f->type && !(f->f == F_ARRV && conv && d.type != T::BOOL && f->type != T::BOOL)) return false;
                    for (int k = 0; k < d.dims; k++) if (d.cb[k].first > f->cb[k].first || d.cb[k].second < f->cb[k].second) return false;
                    return true;
                });
                if (as.empty()) return false;
                auto n = mk(E_NAMEREF);
                n->d = r.pick(as);
                out.push_back(n);
                P.features[f->f == F_ARR ? "array-byname" : n->d->type == f->type ? "array-byvalue" : "array-converted"]++;
                break;
            }
            case F_LABEL: {
                auto ls = vis(s, [&](const Decl &d) { return (d.k == D_LABEL && d.readonly) || (d.k == D_FORMAL && d.f == F_LABEL); });
                if (ls.empty()) return false;
                auto n = mk(E_NAMEREF);
                n->d = r.pick(ls);
                out.push_back(n);
                P.features["label-param"]++;
                break;
            }
            case F_SWITCH: {
                auto ls = vis(s, [&](const Decl &d) { return (d.k == D_SWITCH && (int)d.sw.size() >= f->dims) || (d.k == D_FORMAL && d.f == F_SWITCH && d.dims >= f->dims); });
                if (ls.empty()) return false;
                auto n = mk(E_NAMEREF);
                n->d = r.pick(ls);
                out.push_back(n);
                P.features["switch-param"]++;
                break;
            }
            case F_STRING: {
                auto n = mk(E_STR);
                auto fs = vis(s, [&](const Decl &d) { return d.k == D_FORMAL && d.f == F_STRING; });
                if (!fs.empty() && r.chance(40)) { n = mk(E_NAMEREF); n->d = r.pick(fs); }
                else n->s = word();
                out.push_back(n);
                P.features["string-param"]++;
                break;
            }
            case F_PROCP: {
                auto ps = vis(s, [&](const Decl &d) { return (callable(d) || (d.k == D_FORMAL && d.f == F_PROCP)) && alike(d, *f); });
                if (ps.empty()) return false;
                auto n = mk(E_NAMEREF);
                n->d = r.pick(ps);
                out.push_back(n);
                P.features["proc-param"]++;
                break;
            }
            }
        }
        return true;
    }
    NP fcall(Scope *s, T t, int dp)
    {
        if (depth > 6 || pure) return nullptr;
        auto ps = vis(s, [&](const Decl &d) { return callable(d) && d.typed && d.type == t; });
        auto fs = vis(s, [&](const Decl &d) { return d.k == D_FORMAL && d.f == F_PROCP && d.typed && d.type == t; });
        if (!fs.empty() && r.chance(60)) ps = fs;
        if (pf.library && t == T::REAL && r.chance(15)) {
            auto vs = vis(s, [&](const Decl &d) { return d.k == D_VAR && !d.readonly && d.type == T::INT; });
            if (!vs.empty()) {
                auto n = mk(E_BUILTIN);
                n->s = "SUM"; n->type = T::REAL;
                long lo = r.range(-2, 3);
                n->k = { vref(r.pick(vs)), lit(lo < 0 ? 0 : lo), lit(lo + r.range(0, 4)), expr(s, r.chance(50) ? T::INT : T::REAL, dp > 0 ? 1 : 0) };
                P.features["SUM"]++;
                return n;
            }
        }
        if (ps.empty()) return nullptr;
        auto n = mk(E_CALL);
        n->d = r.pick(ps); n->type = t;
        depth++;
        bool ok = actuals(s, n->d->formals, n->k, dp > 1 ? 1 : dp);
        depth--;
        if (!ok) return nullptr;
        P.features[n->d->k == D_FORMAL ? "formal-call" : "fcall"]++;
        return n;
    }
    std::string word()
    {
        static const std::vector<std::string> w = { "ok", "alpha", "x=", "Res: ", "loop", "A1", "-> ", "beta 2", "(z)", "end", "+/-", "[i]", "t;", "Z:", "q, r", "", "a `b' c", "``'x'", "; end", "0123456789 012345" };
        if (!odd_names || r.chance(60)) return r.pick(w);
        // any symbols that can be printed
        static const std::vector<std::string> sym = { "+", "-", "\xc3\x97", "/", "\xc3\xb7", "\xe2\x86\x91", ">", "\xe2\x89\xa5", "=", "\xe2\x89\xa4", "<", "\xe2\x89\xa0", "\xc2\xac", "\xe2\x88\xa7", "\xe2\x88\xa8",
            "\xe2\x8a\x83", "\xe2\x89\xa1", ",", ".", "\xe2\x8f\xa8", ":", ";", ":=", " ", "(", ")", "[", "]", "\t", "\n", "\"", "?", "`", "'" };
        std::string o;
        int open = 0;
        for (int n = (int)r.range(0, r.chance(5) ? 400 : 25); n > 0; n--) {
            if (r.chance(50)) { int k = (int)r.below(62); o += (char)(k < 10 ? '0' + k : k < 36 ? 'a' + k - 10 : 'A' + k - 36); continue; }
            const std::string &c = r.pick(sym);
            if (c == "'") { if (open == 0) continue; open--; }
            if (c == "`") open++;
            o += c;
        }
        while (open-- > 0) o += "'";
        P.features["odd-string"]++;
        return o;
    }
    NP st(K k) { auto n = mk(k); n->id = ids++; return n; }
    NP text(const std::string &t) { auto n = st(S_TEXT); auto e = mk(E_STR); e->s = t; n->k = { e }; return n; }

    // ------------------------------------------------------------ statements
    NP target(Scope *s, T t)
    {
        auto vs = vis(s, [&](const Decl &d) { return ((d.k == D_VAR && !d.readonly) || (d.k == D_FORMAL && ((d.f == F_VALUE && !d.readonly) || d.f == F_NAMELV))) && d.type == t; });
        auto as = vis(s, [&](const Decl &d) { return isarr(d) && d.type == t; });
        if (!as.empty() && pf.arrays && r.chance(35)) return elem(s, r.pick(as), 1);
        if (vs.empty()) return nullptr;
        return vref(r.pick(vs));
    }
    T anyt()
    {
        int w = (int)r.below(10);
        if (w < 6 || (!pf.reals && !pf.bools)) return T::INT;
        if (w < 9 && pf.reals) return T::REAL;
        return pf.bools ? T::BOOL : T::INT;
    }
    NP assign(Scope *s, int dp)
    {
        T t = anyt();
        NP a = target(s, t);
        if (!a) return text(word());
        auto n = st(S_ASSIGN);
        n->k.push_back(a);
        if (r.chance(12)) {
            NP b = target(s, t);
            if (b) { n->k.push_back(b); P.features["multiassign"]++; }
        }
        n->k.push_back(expr(s, t == T::INT && pf.reals && r.chance(15) ? T::REAL : t, dp));
        P.features["assign"]++;
        return n;
    }
    NP printst(Scope *s)
    {
        auto n = st(S_COMPOUND);
        if (pf.tokens && r.chance(60)) n->k.push_back(text(word()));
        if (pf.format && r.chance(20)) {
            bool fl = r.chance(40);
            auto f = st(fl ? S_FLOT : S_FIXT);
            NP v = expr(s, pf.reals ? T::REAL : T::INT, 1);
            if (pf.reals && r.chance(25)) { auto big = litr(); do { long e = r.range(-60, 60); big->s = fmt("%ld%s%ld", r.range(1, 9999), "\xe2\x8f\xa8", e); set_real(big); } while (doubtful(big)); v = bin("*", v, big); v->type = T::REAL; }
            if (fl) {
                f->s = "FLOT";
                f->k = { r.chance(90) ? lit(r.range(1, 13)) : slit(r.range(-1, 15)), r.chance(90) ? lit(r.range(1, 3)) : slit(r.range(-1, 5)), v };
                if (r.chance(15)) f->k.erase(f->k.begin() + 1);
            } else {
                f->s = r.chance(50) ? "FIXT" : "ABSFIXT";
                f->k = { r.chance(90) ? lit(r.range(r.chance(20) ? 0 : 3, 10)) : slit(r.range(-2, 24)), r.chance(90) ? lit(r.range(0, 5)) : slit(r.range(-2, 12)), v };
            }
            n->k.push_back(f);
            P.features[f->s]++;
        } else {
            auto p = st(S_PRINT);
            int c = r.chance(80) ? 1 : (int)r.range(2, 4);
            for (int i = 0; i < c; i++) p->k.push_back(expr(s, pf.reals && r.chance(40) ? T::REAL : T::INT, 2));
            n->k.push_back(p);
            P.features["print"]++;
        }
        if (pf.library && r.chance(5)) { auto q = st(S_PRSYM); q->k = { lit(r.chance(70) ? r.range(0, 127) : r.range(64, 80)) }; if (r.chance(30)) q->k[0] = bin("-", bin("+", q->k[0], expr(s, T::INT, 0)), lit(r.range(0, 9))); n->k.push_back(q); P.features["PRSYM"]++; }
        int w = (int)r.below(13);
        if (w < 6) n->k.push_back(st(S_NLCR));
        else if (w > 9) { } // nothing: what follows may well be a request for input
        else if (w < 8) { auto q = st(S_SPACE); q->k = { lit(r.range(0, 3)) }; n->k.push_back(q); }
        else n->k.push_back(st(S_TAB));
        if (w == 9) n->k.push_back(st(S_NLCR));
        return n;
    }
    // A loop whose controlled variable is one of the program's own.
    NP oddfor(Scope *s, int dp)
    {
        T t = pf.reals && r.chance(40) ? T::REAL : T::INT;
        NP v = target(s, t);
        if (!v) return assign(s, 2);
        auto n = st(S_FOR);
        n->k = { v, nullptr };
        int elems = (int)r.range(1, 3);
        for (int i = 0; i < elems; i++) {
            if (r.chance(30)) {
                auto l = mk(F_EXPR);
                l->k = { expr(s, t, 2) };
                n->k.push_back(l);
                continue;
            }
            auto l = mk(F_STEP);
            static const std::vector<std::string> fr = { "0.5", "0.25", "0.1", "1.5", "3.0" };
            NP stp = lit(r.range(1, 4));
            if (t == T::REAL && r.chance(60)) { stp = mk(E_LIT); stp->type = T::REAL; stp->isreal = true; stp->s = r.pick(fr); set_real(stp); }
            bool down = r.chance(35);
            if (r.chance(25)) stp = expr(s, t, 1);
            else if (down) stp = neg(stp);
            NP a = r.chance(50) ? slit(r.range(-3, 6)) : expr(s, t, 1);
            NP z = r.chance(40) ? slit(r.range(-6, 9)) : expr(s, t, 1);
            if (r.chance(30)) z = bin(down ? "-" : "+", r.chance(50) ? a : lit(2), lit(r.range(0, 5)));
            l->k = { a, stp, z };
            n->k.push_back(l);
        }
        P.features[v->kind == E_ELEM ? "for-element" : v->d->k == D_FORMAL ? "for-formal" : t == T::REAL ? "for-real" : "for-variable"]++;
        Scope in;
        in.up = s;
        loop_depth++; nolabels++;
        n->k[1] = stmt(&in, dp - 1);
        if (r.chance(50)) {
            // show the variable
            auto c = st(S_COMPOUND);
            auto p = st(S_PRINT);
            p->k = { v };
            c->k = { p, st(S_NLCR), n->k[1] };
            n->k[1] = c;
        }
        loop_depth--; nolabels--;
        return n;
    }
    NP forst(Scope *s, int dp)
    {
        if (r.chance(25)) return oddfor(s, dp);
        // control variable of its own, declared in the nearest block
        Scope *b = s;
        while (b && !b->block) b = b->up;
        auto v = std::make_shared<Decl>();
        v->type = T::INT;
        v->name = fresh();
        v->readonly = true;
        b->d.push_back(v);
        b->block->decls.push_back(v);
        Scope in;
        in.up = s;
        auto n = st(S_FOR);
        n->k.push_back(vref(v));
        n->k.push_back(nullptr);
        long lo = 100, hi = -100;
        int elems = r.chance(75) ? 1 : (int)r.range(2, 3);
        std::vector<NP> list;
        bool range_known = true;
        for (int i = 0; i < elems; i++) {
            int w = (int)r.below(10);
            if (w < 6) {
                auto l = mk(F_STEP);
                long a = r.range(0, 4), c = r.range(0, 4);
                static const std::vector<long> sts = { 1, 1, 1, 2, -1, 3, -2 };
                long stp = r.pick(sts);
                long z = stp > 0 ? a + c : a - c;
                l->k = { lit(a), stp < 0 ? neg(lit(-stp)) : lit(stp), z < 0 ? neg(lit(-z)) : lit(z) };
                if (r.chance(25)) {
                    // a limit that is an expression
                    auto vs = vis(s, [&](const Decl &d) { return d.k == D_VAR && d.readonly && !d.cb.empty(); });
                    if (!vs.empty() && stp > 0) { auto x = r.pick(vs); l->k[2] = bin("+", lit(a), vref(x)); z = a + x->cb[0].second; }
                }
                lo = std::min(lo, std::min(a, z)); hi = std::max(hi, std::max(a, z));
                list.push_back(l);
                P.features[stp < 0 ? "for-down" : "for-step"]++;
            } else if (w < 8) {
                auto l = mk(F_EXPR);
                long a = r.range(-3, 9);
                l->k = { a < 0 ? neg(lit(-a)) : lit(a) };
                lo = std::min(lo, a); hi = std::max(hi, a);
                list.push_back(l);
                P.features["for-expr"]++;
            } else {
                auto l = mk(F_WHILE);
                // needs a counter: a fresh variable decreased in the body
                auto c = var(T::INT, true);
                b->d.push_back(c);
                b->block->decls.push_back(c);
                auto set = st(S_ASSIGN);
                set->keep = true;
                set->k = { vref(c), lit(r.range(1, 4)) };
                auto dec1 = st(S_ASSIGN);
                dec1->keep = true;
                dec1->k = { vref(c), bin("-", vref(c), lit(1)) };
                l->k = { bin("*", vref(c), lit(2)), bin(">", vref(c), lit(0)) };
                range_known = false;
                list = { l };
                v->cb.clear();
                loop_depth++; nolabels++;
                auto body = mk(S_COMPOUND);
                body->k = { dec1, stmt(&in, dp - 1) };
                loop_depth--; nolabels--;
                n->k[1] = body;
                n->k.push_back(l);
                auto both = st(S_COMPOUND);
                both->k = { set, n };
                P.features["for-while"]++;
                return both;
            }
        }
        if (range_known) v->cb = { { lo, hi } };
        loop_depth++; nolabels++;
        NP body = r.chance(40) && dp > 0 && pf.nested ? block(&in, dp - 1, (int)r.range(1, 3)) : stmt(&in, dp - 1);
        loop_depth--; nolabels--;
        n->k[1] = body;
        for (auto &l : list) n->k.push_back(l);
        v->cb.clear();                 // outside of the loop its value is unknown
        v->k = D_VAR;
        hide(b, v);
        return n;
    }
    // The control variable stays declared, but nothing generated later may use it.
    void hide(Scope *b, const DP &v)
    {
        for (size_t i = 0; i < b->d.size(); i++) if (b->d[i] == v) { b->d.erase(b->d.begin() + (long)i); return; }
    }
    NP neg(NP a) { auto n = mk(E_NEG); n->k = { a }; n->type = a->type; return n; }

    NP gotost(Scope *s)
    {
        // to a label marked as usable (ahead in an enclosing block, or an exit)
        auto ls = vis(s, [&](const Decl &d) { return (d.k == D_LABEL && d.readonly) || (d.k == D_FORMAL && d.f == F_LABEL); });
        if (ls.empty() && vis(s, [&](const Decl &d) { return d.k == D_FORMAL && d.f == F_SWITCH; }).empty()) return assign(s, 2);
        auto g = st(S_GOTO);
        auto ref = [&](const DP &d) { auto n = mk(E_NAMEREF); n->d = d; return n; };
        auto fsw = vis(s, [&](const Decl &d) { return d.k == D_FORMAL && d.f == F_SWITCH; });
        if (!fsw.empty() && r.chance(60)) {
            auto e = mk(E_ELEM);
            e->d = r.pick(fsw);
            e->k = { lit(r.range(1, e->d->dims)) };
            g->k = { e };
            P.features["goto-formal-switch"]++;
            auto i = st(S_IF);
            i->k = { bexpr(s, 1), g };
            return i;
        }
        if (ls.empty()) return assign(s, 2);
        if (ls.size() > 1 && r.chance(20)) {
            auto c = mk(E_COND);
            c->k = { bexpr(s, 1), ref(r.pick(ls)), ref(r.pick(ls)) };
            g->k = { c };
            P.features["goto-cond"]++;
        } else g->k = { ref(r.pick(ls)) };
        P.features["goto"]++;
        auto i = st(S_IF);
        i->k = { bexpr(s, 1), g };
        if (r.chance(25)) return g;
        return i;
    }
    NP callst(Scope *s)
    {
        auto ps = vis(s, [&](const Decl &d) { return callable(d) && !d.typed; });
        auto pf2 = vis(s, [&](const Decl &d) { return callable(d) && d.typed; });
        auto fp = vis(s, [&](const Decl &d) { return d.k == D_FORMAL && d.f == F_PROCP && !d.typed; });
        if (!fp.empty() && r.chance(60)) { ps = fp; P.features["formal-call-statement"]++; }
        else if (ps.empty() || (r.chance(10) && !pf2.empty())) ps = pf2.empty() ? ps : pf2;
        if (ps.empty()) return assign(s, 2);
        auto n = st(S_CALL);
        n->d = r.pick(ps);
        if (!actuals(s, n->d->formals, n->k, 2)) return assign(s, 2);
        P.features["call"]++;
        return n;
    }
    NP inputst(Scope *s)
    {
        std::vector<int> c;
        if (pf.input) c.insert(c.end(), { 0, 0, 0 });
        if (pf.xeen) c.insert(c.end(), { 1, 1 });
        if (pf.resym) c.insert(c.end(), { 2, 2 });
        int k = r.pick(c);
        auto n = mk(E_BUILTIN);
        auto a = st(S_ASSIGN);
        if (k == 0) { n->s = "read"; n->type = T::REAL; }
        if (k == 1) { n->s = "XEEN"; n->k = { r.chance(20) ? expr(s, T::INT, 1) : lit(r.chance(15) ? 0 : r.chance(50) ? (1 << r.below(26)) : r.range(1, 67108863)) }; }
        if (k == 2) n->s = "RESYM";
        P.features[n->s]++;
        NP t = target(s, k == 0 && pf.reals && r.chance(50) ? T::REAL : T::INT);
        if (!t) return text("?");
        a->k = { t, n };
        if (k == 2 && r.chance(40) && t->kind == E_VAR) {
            // echo
            auto c2 = st(S_COMPOUND);
            auto i = st(S_IF);
            auto q = st(S_PRSYM);
            q->k = { t };
            i->k = { bin("<", t, lit(128)), q };
            c2->k = { a, i };
            return c2;
        }
        if (r.chance(50)) {
            auto c2 = st(S_COMPOUND);
            auto p = st(S_PRINT);
            p->k = { t };
            c2->k = { text(word()), a, p, st(S_NLCR) };
            return c2;
        }
        return a;
    }
    // A step that changes its sign on the way.
    NP turning(Scope *s)
    {
        Scope *b = s;
        while (b && !b->block) b = b->up;
        const bool real = pf.reals && r.chance(40);
        auto own = [&](T t) { auto v = var(t, true); b->d.push_back(v); b->block->decls.push_back(v); hide(b, v); return v; };
        auto i = own(real && r.chance(50) ? T::REAL : T::INT), st0 = own(real ? T::REAL : T::INT), n = own(T::INT);
        auto set = [&](const DP &v, NP e) { auto a = st(S_ASSIGN); a->keep = true; a->k = { vref(v), e }; return a; };
        const bool up = r.chance(50);
        auto dir = [&](long v, bool plus) { return slit(plus ? v : -v); };
        auto c = st(S_COMPOUND);
        auto f = st(S_FOR);
        auto l = mk(F_STEP);
        auto big = mk(E_COND);
        big->type = real ? T::REAL : T::INT;
        big->k = { bin(">", vref(n), lit(r.range(4, 9))), dir(1000, up), vref(st0) };
        l->k = { slit(r.range(-2, 3)), big, dir(r.range(2, 9), up) };
        auto turn = st(S_IF);
        turn->keep = true;
        turn->k = { bin(up ? ">" : "<", vref(i), dir(r.range(0, 4), up)), set(st0, r.chance(20) ? lit(0) : dir(r.range(1, 3), !up)) };
        auto p = st(S_PRINT);
        p->k = { vref(i) };
        auto body = st(S_COMPOUND);
        body->k = { set(n, bin("+", vref(n), lit(1))), p, st(S_NLCR), turn };
        if (r.chance(30)) { auto back = st(S_IF); back->keep = true; back->k = { bin(up ? "<" : ">", vref(i), dir(r.range(-2, 1), up)), set(st0, dir(r.range(1, 3), up)) }; body->k.push_back(back); }
        f->k = { vref(i), body, l };
        f->keep = true;
        c->keep = true;
        c->k = { set(st0, dir(r.range(1, 3), up)), set(n, lit(0)), f };
        if (r.chance(50)) { auto q = st(S_PRINT); q->k = { vref(n) }; c->k.push_back(q); c->k.push_back(st(S_NLCR)); }
        P.features["for-turning"]++;
        return c;
    }
    // The same statement at many depths of the stack: with local arrays of growing size around it.
    NP sweep(Scope *s)
    {
        Scope *b = s;
        while (b && !b->block) b = b->up;
        auto v = var(T::INT, true);
        b->d.push_back(v);
        b->block->decls.push_back(v);
        auto n = st(S_FOR);
        auto l = mk(F_STEP);
        const long lo = r.range(1, 12), hi = lo + r.range(2, 24);
        l->k = { lit(lo), lit(1), lit(hi) };
        v->cb = { { lo, hi } };
        auto bb = st(S_BLOCK);
        auto a = std::make_shared<Decl>();
        a->k = D_ARRAY;
        a->type = pf.reals && r.chance(30) ? T::REAL : T::INT;
        a->name = fresh();
        a->dims = 1;
        a->cb = { { 1, lo } };
        a->bounds = { lit(1), vref(v) };
        bb->decls.push_back(a);
        Scope in, is;
        in.up = s;
        is.up = &in;
        is.block = bb;
        loop_depth += 2; nolabels++;
        NP c = nullptr;
        T t = anyt();
        c = fcall(&is, t, 1);
        if (!c) { t = T::INT; c = fcall(&is, t, 1); }
        if (c) {
            auto p = st(S_PRINT);
            if (t == T::BOOL) { auto x = mk(E_COND); x->type = T::INT; x->k = { c, lit(1), lit(0) }; c = x; }
            p->k = { c };
            bb->k = { p, st(S_NLCR) };
        } else bb->k = { callst(&is) };
        loop_depth -= 2; nolabels--;
        n->k = { vref(v), bb, l };
        P.features["sweep"]++;
        return n;
    }
    NP stmt(Scope *s, int dp)
    {
        stmt_no++;
        int w = (int)r.below(100);
        if (pf.error && errs < 3 && r.chance(5)) { errs++; return error_stmt(s); }
        if ((pf.input || pf.xeen || pf.resym) && r.chance(16)) return inputst(s);
        if (pf.stop && r.chance(4)) { P.features["stop"]++; return st(S_STOP); }
        if (dp > 0 && pf.loops && loop_depth < 2 && r.chance(pf.gotos ? 4 : 2)) return sweep(s);
        if (dp > 0 && pf.loops && loop_depth < 2 && r.chance(pf.turning)) return turning(s);
        if (w < 24) return assign(s, 2);
        if (w < 42) return printst(s);
        if (w < 56 && dp > 0) {
            auto n = st(S_IF);
            n->k = { bexpr(s, 2), simple(s, dp - 1) };
            if (r.chance(50)) n->k.push_back(r.chance(20) ? stmt(s, dp - 1) : simple(s, dp - 1));
            P.features["if"]++;
            return n;
        }
        if (w < 68 && dp > 0 && pf.loops && loop_depth < 3) return forst(s, dp);
        if (w < 78 && dp > 0 && pf.nested) return block(s, dp - 1, (int)r.range(1, 4));
        if (w < 90) return callst(s);
        if (w < 97 && pf.gotos) return gotost(s);
        return assign(s, 3);
    }
    // a statement allowed after THEN: wrapped so that no dangling ELSE or loop arises
    NP simple(Scope *s, int dp)
    {
        auto c = st(S_COMPOUND);
        int n = (int)r.range(1, 2);
        nolabels++;
        for (int i = 0; i < n; i++) c->k.push_back(stmt(s, dp));
        nolabels--;
        return c;
    }
    int dimensions(int most) { return r.chance(68) ? 1 : r.chance(78) ? 2 : r.chance(75) ? 3 : (int)r.range(4, most); }
    DP array(Scope *outer, bool constant, bool calls = false)
    {
        auto d = std::make_shared<Decl>();
        d->k = D_ARRAY;
        d->type = pf.reals && r.chance(40) ? T::REAL : pf.bools && r.chance(15) ? T::BOOL : T::INT;
        d->name = fresh();
        d->dims = dimensions(7);
        for (int i = 0; i < d->dims; i++) {
            long lo = r.chance(50) ? r.range(0, 1) : r.range(-3, 2), hi = lo + (d->dims == 1 ? r.range(2, 7) : d->dims > 3 ? r.range(0, 1) : r.range(1, 3));
            d->cb.push_back({ lo, hi });
            NP l = lo < 0 ? neg(lit(-lo)) : lit(lo), h = hi < 0 ? neg(lit(-hi)) : lit(hi);
            if (!constant && r.chance(50)) {
                auto vs = vis(outer, [&](const Decl &x) { return x.k == D_VAR && x.readonly && !x.cb.empty(); });
                if (!vs.empty()) { auto x = r.pick(vs); h = bin("+", h, bin("-", vref(x), vref(x))); P.features["dynamic-bounds"]++; }
                if (calls && r.chance(20)) {
                    depth += 3;
                    NP c = outer ? fcall(outer, T::INT, 0) : nullptr;
                    depth -= 3;
                    if (c) { NP &z = r.chance(50) ? h : l; z = bin("+", z, bin("*", lit(0), c)); P.features["bounds-call"]++; }
                }
            }
            d->bounds.push_back(l);
            d->bounds.push_back(h);
        }
        P.features[fmt("array%d", d->dims)]++;
        return d;
    }
    NP block(Scope *up, int dp, int n)
    {
        level++;
        auto b = st(S_BLOCK);
        Scope s;
        s.up = up;
        s.block = b;
        auto save = nolabels;
        nolabels = 0;
        fill(&s, b, dp, n, false);
        nolabels = save;
        level--;
        P.features["block"]++;
        return b;
    }
    void add(Scope *s, const NP &b, const DP &d)
    {
        s->d.push_back(d);
        b->decls.push_back(d);
    }
    NP initial(const DP &d)
    {
        auto n = st(S_ASSIGN);
        n->keep = true;
        NP v = d->type == T::BOOL ? litb(r.chance(50)) : d->type == T::REAL && r.chance(70) ? litr() : lit(r.range(0, 9));
        n->k = { vref(d), v };
        return n;
    }
    NP initarr(Scope *s, const NP &b, const DP &d)
    {
        // nested loops over all elements
        std::vector<DP> vs;
        auto e = mk(E_ELEM);
        e->d = d; e->type = d->type;
        NP val = lit(r.range(0, 5));
        for (int i = 0; i < d->dims; i++) {
            auto v = std::make_shared<Decl>();
            v->name = fresh();
            v->readonly = true;
            b->decls.push_back(v);
            vs.push_back(v);
            e->k.push_back(vref(v));
            val = bin("+", val, i == 0 ? vref(v) : bin("*", vref(v), lit(2)));
        }
        (void)s;
        auto a = st(S_ASSIGN);
        a->keep = true;
        if (d->type == T::BOOL) val = bin(r.chance(50) ? ">" : "<=", val, lit(r.range(0, 5)));
        if (d->type == T::REAL && r.chance(70)) {
            static const std::vector<std::string> fr = { ".3", "0.75", "1.5", "2.25", ".5", "0.1" };
            auto x = mk(E_LIT);
            x->type = T::REAL; x->isreal = true; x->s = r.pick(fr); set_real(x);
            val = bin(r.pick(std::vector<std::string>{ "*", "+", "-", "/" }), val, x);
        }
        a->k = { e, val };
        NP body = a;
        for (int i = d->dims; i-- > 0;) {
            auto f = st(S_FOR);
            f->keep = true;
            auto l = mk(F_STEP);
            l->k = { slit(d->cb[i].first), lit(1), slit(d->cb[i].second) };
            f->k = { vref(vs[i]), body, l };
            body = f;
        }
        return body;
    }
    void fill(Scope *s, const NP &b, int dp, int n, bool main)
    {
        int nv = main ? (int)r.range(3, 5) : (int)r.range(1, 3);
        // a block that declares nothing of its own is, to the compiler, no block at all
        const bool bare = !main && r.chance(12);
        if (bare) { nv = 0; P.features["bare-block"]++; }
        else if (r.chance(2)) { nv = (int)r.range(8, 45); P.features["many-variables"]++; }
        bool shadowed = false;
        for (int i = 0; i < nv; i++) {
            T t = i == 0 ? T::INT : anyt();
            auto d = var(t);
            // shadow an outer name now and then
            if (!main && r.chance(12) && !noshadow) {
                auto outer = vis(s->up, [&](const Decl &x) { return x.k == D_VAR && !x.readonly; });
                if (!outer.empty()) {
                    std::string nm = r.pick(outer)->name;
                    bool clash = false;
                    for (auto &x : b->decls) if (x->name == nm) clash = true;
                    if (!clash) { d->name = nm; shadowed = true; P.features["shadow"]++; }
                }
            }
            add(s, b, d);
            b->k.push_back(initial(d));
        }
        noshadow = false;
        if (pf.arrays && !bare && r.chance(main ? 80 : 30)) {
            int na = main ? (int)r.range(1, 3) : (int)r.range(1, r.chance(30) ? 2 : 1);
            for (int i = 0; i < na; i++) {
                auto d = array(s->up, main, !shadowed);
                if (i > 0 && r.chance(50)) {
                    // bounds in common
                    auto &o = b->decls;
                    for (auto &x : o) if (x->k == D_ARRAY && !x->own) {
                        if (!x->group) x->group = ++groups;
                        d->group = x->group; d->type = x->type; d->dims = x->dims; d->cb = x->cb; d->bounds = x->bounds;
                        P.features["shared-bounds"]++;
                        break;
                    }
                }
                add(s, b, d);
                b->k.push_back(initarr(s, b, d));
            }
        }
        if (!main && !bare && r.chance(15) && mainblock) {
            // own: filled when the block is entered for the first time
            auto first = var(T::INT, true);
            mainblock->decls.push_back(first);
            mainblock->k.insert(mainblock->k.begin(), initial(first));
            mainblock->k[0]->k[1] = lit(0);
            auto c = st(S_COMPOUND);
            c->keep = true;
            auto o = var(anyt());
            o->own = true;
            add(s, b, o);
            c->k.push_back(initial(o));
            P.features["own"]++;
            if (pf.arrays && r.chance(30)) {
                auto d = array(s->up, true);
                d->own = true;
                add(s, b, d);
                c->k.push_back(initarr(s, b, d));
                P.features["own-array"]++;
            }
            auto set = st(S_ASSIGN);
            set->keep = true;
            set->k = { vref(first), lit(1) };
            c->k.push_back(set);
            auto i = st(S_IF);
            i->keep = true;
            i->k = { bin("=", vref(first), lit(0)), c };
            b->k.push_back(i);
        }
        // labels of this block: where, is decided now, so that gotos can refer to them
        int body_n = n;
        struct Lab { DP d; int at; };
        std::vector<Lab> labs;
        if (pf.gotos && body_n >= 2 && r.chance(main ? 85 : 40)) {
            int nl = (int)r.range(1, 2);
            for (int i = 0; i < nl; i++) {
                auto d = std::make_shared<Decl>();
                d->k = D_LABEL;
                d->name = "L" + std::to_string(++names);
                d->owner = b;
                d->readonly = false; // becomes true (usable) until the label is reached
                labs.push_back({ d, (int)r.range(1, body_n) });
                add(s, b, d);
            }
            P.features["labels"]++;
        }
        for (auto &l : labs) l.d->readonly = true;
        DP sw;
        if (labs.size() >= 2 && r.chance(50)) {
            sw = std::make_shared<Decl>();
            sw->k = D_SWITCH;
            sw->name = "S" + std::to_string(++names);
            for (auto &l : labs) { auto x = mk(E_NAMEREF); x->d = l.d; sw->sw.push_back(x); }
            if (r.chance(30)) { auto c = mk(E_COND); auto x = mk(E_NAMEREF), y = mk(E_NAMEREF); x->d = labs[0].d; y->d = labs[1].d; c->k = { bexpr(s, 1), x, y }; sw->sw.push_back(c); }
            add(s, b, sw);
            P.features["switch"]++;
        }
        // procedures (labels of this block are visible in them: jumps out)
        int np = main ? procs_left : (r.chance(20) && procs_left > 0 && level < 4 ? 1 : 0);
        for (int i = 0; i < np && procs_left > 0; i++) {
            procs_left--;
            if (procs_left > 0 && i + 1 < np && r.chance(20)) {
                // two that call each other
                procs_left--;
                i++;
                DP x = proc_head(s, main, true), y = proc_head(s, main, true);
                add(s, b, x);
                add(s, b, y);
                cur.push_back(x); cur.push_back(y);
                proc_body(s, x, y);
                proc_body(s, y, r.chance(70) ? x : nullptr);
                cur.pop_back(); cur.pop_back();
                continue;
            }
            DP x = proc_head(s, main, false);
            cur.push_back(x);
            proc_body(s, x, nullptr);
            cur.pop_back();
            add(s, b, x);
        }
        // body
        for (int i = 0; i <= body_n; i++) {
            std::vector<DP> here;
            for (auto &l : labs) if (l.at == i) { here.push_back(l.d); l.d->readonly = false; if (sw) { hide(s, sw); sw = nullptr; } }
            NP x;
            if (i == body_n) x = st(S_DUMMY);
            else if (sw && r.chance(25)) {
                auto g = st(S_GOTO);
                auto e = mk(E_ELEM);
                e->d = sw;
                e->k = { lit(r.range(1, (long)sw->sw.size())) };
                g->k = { e };
                x = st(S_IF);
                x->k = { bexpr(s, 1), g };
                P.features["switch-goto"]++;
            } else if (pf.gotos && r.chance(10) && loop_depth < 2 && i + 1 < body_n && cur.size() < 2) {
                // backward loop by goto: counter; label; ...; conditional jump
                auto c = var(T::INT, true);
                add(s, b, c);
                auto l = std::make_shared<Decl>();
                l->k = D_LABEL;
                l->name = "B" + std::to_string(++names);
                l->owner = b;
                add(s, b, l);
                auto set = st(S_ASSIGN);
                set->keep = true;
                set->k = { vref(c), lit(0) };
                set->labels = here;
                here.clear();
                b->k.push_back(set);
                auto inc = st(S_ASSIGN);
                inc->keep = true;
                inc->k = { vref(c), bin("+", vref(c), lit(1)) };
                inc->labels = { l };
                b->k.push_back(inc);
                loop_depth++;
                b->k.push_back(stmt(s, dp));
                loop_depth--;
                auto g = st(S_GOTO);
                auto e = mk(E_NAMEREF);
                e->d = l;
                g->k = { e };
                x = st(S_IF);
                x->keep = true;
                if (r.chance(40) && pf.nested) {
                    // jump back from inside a block
                    auto bb = st(S_BLOCK);
                    auto lv = var(T::INT);
                    bb->decls = { lv };
                    auto ii = initial(lv);
                    bb->k = { ii, g };
                    x->k = { bin("<", vref(c), lit(r.range(2, 3))), bb };
                    P.features["goto-out-of-block"]++;
                } else x->k = { bin("<", vref(c), lit(r.range(2, 3))), g };
                P.features["goto-back"]++;
            } else if (!here.empty() && pf.loops && loop_depth < 2 && r.chance(25)) x = sweep(s);
            else x = stmt(s, dp);
            if (x->kind == S_BLOCK || !here.empty()) { }
            if (!here.empty() && !x->labels.empty()) { auto c = st(S_DUMMY); c->labels = here; b->k.push_back(c); }
            else for (auto &l : here) x->labels.push_back(l);
            b->k.push_back(x);
        }
        if (main || r.chance(30)) {
            // show what the variables hold in the end
            for (auto &d : s->d)
                if (d->k == D_VAR && !d->readonly && d->type != T::BOOL && (main || r.chance(50))) {
                    auto p = st(S_PRINT);
                    p->k = { vref(d) };
                    auto c = st(S_COMPOUND);
                    c->k = { p, st(S_NLCR) };
                    b->k.push_back(c);
                }
        }
    }
    DP proc_head(Scope *s, bool global, bool mutual)
    {
        auto d = std::make_shared<Decl>();
        d->k = D_PROC;
        d->name = fresh();
        d->global = global;
        d->typed = r.chance(55);
        d->type = d->typed ? anyt() : T::INT;
        int nf = (int)(r.chance(5) ? r.range(4, 12) : r.range(0, 3));
        if (nf > 3) P.features["many-parameters"]++;
        bool simplefn = r.chance(25) && pf.callbacks;
        if (mutual) simplefn = false;
        d->recursive = mutual || (!simplefn && r.chance(35));
        d->impure = simplefn;
        auto formal = [&](FK f, T t) {
            auto x = std::make_shared<Decl>();
            x->k = D_FORMAL; x->f = f; x->type = t; x->name = fresh();
            return x;
        };
        if (simplefn) { d->typed = true; d->type = T::INT; d->formals.push_back(formal(F_VALUE, T::INT)); nf = 0; }
        if (d->recursive) { auto x = formal(F_VALUE, T::INT); x->readonly = true; x->cb = { { 0, 4 } }; d->formals.push_back(x); }
        for (int i = 0; i < nf; i++) {
            int w = (int)r.below(22);
            T t = anyt();
            if (pf.callbacks && r.chance(pf.procp)) w = 21;
            if (pf.byname && pf.arrays && r.chance(pf.arrp)) w = 15;
            if (w < 8 || !pf.byname) d->formals.push_back(formal(F_VALUE, t));
            else if (w < 12) d->formals.push_back(formal(F_NAME, t));
            else if (w < 15) d->formals.push_back(formal(F_NAMELV, t));
            else if (w < 17 && pf.arrays) {
                auto x = formal(r.chance(50) ? F_ARR : F_ARRV, t);
                x->dims = dimensions(5); // as many as a value array can have
                for (int k = 0; k < x->dims; k++) x->cb.push_back({ 0, 1 });
                d->formals.push_back(x);
                // something to be given to it
                if (s->block && r.chance(80)) {
                    auto a = std::make_shared<Decl>();
                    a->k = D_ARRAY;
                    a->type = x->f == F_ARRV && t != T::BOOL && pf.reals && r.chance(60) ? (t == T::INT ? T::REAL : T::INT) : t;
                    a->name = fresh();
                    a->dims = x->dims;
                    for (int k = 0; k < a->dims; k++) {
                        const long lo = -r.range(0, a->dims > 3 ? 1 : 2), hi = r.range(a->dims > 3 ? 0 : 1, a->dims > 3 ? 1 : 3);
                        a->cb.push_back({ lo, hi });
                        a->bounds.push_back(slit(lo));
                        a->bounds.push_back(slit(hi));
                    }
                    add(s, s->block, a);
                    s->block->k.push_back(initarr(s, s->block, a));
                    P.features["array-for-call"]++;
                }
            } else if (w < 18 && pf.callbacks && pf.gotos) d->formals.push_back(formal(F_LABEL, T::INT));
            else if (w < 19 && pf.callbacks) d->formals.push_back(formal(F_STRING, T::INT));
            else if (pf.callbacks && pf.gotos && r.chance(pf.procp ? 10 : 30)) { auto x = formal(F_SWITCH, T::INT); x->dims = 2; d->formals.push_back(x); }
            else if (pf.callbacks) {
                auto x = formal(F_PROCP, T::INT);
                auto qs = vis(s, [&](const Decl &q) { return callable(q) || (q.k == D_FORMAL && q.f == F_PROCP); });
                if (qs.empty() || r.chance(25)) { auto y = formal(F_VALUE, T::INT); x->formals = { y }; }
                else { auto q = r.pick(qs); x->typed = q->typed; x->type = q->type; x->formals = q->formals; }
                d->formals.push_back(x);
            }
            else d->formals.push_back(formal(F_VALUE, T::INT));
        }
        return d;
    }
    void proc_body(Scope *s, const DP &d, const DP &partner)
    {
        const bool simplefn = d->impure;
        Scope fs;
        fs.up = s;
        fs.proc = d;
        fs.d = d->formals;
        cur.push_back(d);
        int save_loop = loop_depth, save_nol = nolabels;
        loop_depth = std::max(loop_depth, 1);
        level++;
        auto b = st(S_BLOCK);
        b->keep = true;
        Scope bs;
        bs.up = &fs;
        bs.block = b;
        nolabels = 0;
        bool sp = pure;
        // a result first, so that every path has one
        if (d->typed) {
            auto a = st(S_ASSIGN);
            a->keep = true;
            auto v = vref(d);
            a->k = { v, d->type == T::BOOL ? litb(r.chance(50)) : d->type == T::REAL ? (pf.reals ? litr() : lit(1)) : lit(r.range(0, 9)) };
            b->k.push_back(a);
        }
        for (auto &f : d->formals)
            if (f->f == F_STRING) { auto n = st(S_TEXT); auto e = mk(E_VAR); e->d = f; n->k = { e }; b->k.push_back(n); }
        for (auto &f : d->formals)
            if (isarr(*f) && f->type != T::BOOL && r.chance(50)) {
                auto e = mk(E_ELEM);
                e->d = f; e->type = f->type;
                for (auto &x : f->cb) e->k.push_back(slit(r.range(x.first, x.second)));
                if (r.chance(30)) {
                    // changed: seen outside if called by name
                    auto a = st(S_ASSIGN);
                    auto x = bin("+", e, lit(r.range(1, 5)));
                    a->k = { e, x };
                    b->k.push_back(a);
                }
                auto p = st(S_PRINT);
                p->k = { e };
                auto c = st(S_COMPOUND);
                c->k = { p, st(S_NLCR) };
                b->k.push_back(c);
            }
        if (d->recursive) {
            auto c = st(S_IF);
            NP call;
            const DP &to = partner ? partner : d;
            const bool value = d->typed && to->typed && (to->type == d->type || (to->type == T::INT && d->type == T::REAL));
            auto n = value && r.chance(70) ? mk(E_CALL) : st(S_CALL);
            n->d = to;
            n->type = to->type;
            if (partner) P.features["mutual-recursion"]++;
            std::vector<DP> rest(to->formals.begin() + 1, to->formals.end());
            n->k.push_back(bin("-", vref(d->formals[0]), lit(1)));
            bool ok = actuals(&fs, rest, n->k, 1);
            if (ok) {
                if (n->kind == E_CALL) {
                    auto a = st(S_ASSIGN);
                    NP v = n;
                    if (d->type != T::BOOL) v = r.chance(50) ? bin("+", n, expr(&fs, d->type, 1)) : bin("+", expr(&fs, d->type, 1), n);
                    a->k = { vref(d), v };
                    call = a;
                } else call = n;
                auto cc = st(S_COMPOUND);
                if (r.chance(50)) cc->k.push_back(printst(&fs));
                cc->k.push_back(call);
                if (r.chance(50)) cc->k.push_back(printst(&fs));
                c->k = { bin(">", vref(d->formals[0]), lit(0)), cc };
                b->k.push_back(c);
                P.features["recursion"]++;
            }
        }
        if (!d->recursive && r.chance(15)) {
            // a single statement for a body
            b->k.clear();
            if (d->typed) {
                auto a = st(S_ASSIGN);
                a->keep = true;
                a->k = { vref(d), expr(&fs, d->type, 2) };
                b->k.push_back(a);
            } else b->k.push_back(stmt(&bs, 1));
            P.features["statement-body"]++;
            pure = sp;
            level--;
            loop_depth = save_loop;
            nolabels = save_nol;
            cur.pop_back();
            d->body = b;
            P.features["proc"]++;
            return;
        }
        noshadow = true; // what was generated above must not change its meaning
        fill(&bs, b, simplefn ? 0 : 1, simplefn ? 1 : (int)r.range(1, 3), false);
        if (d->typed) {
            auto a = st(S_ASSIGN);
            a->k = { vref(d), expr(&bs, d->type, 2) };
            if (r.chance(30)) {
                NP x = target(&bs, d->type);
                if (x) { a->k.insert(a->k.begin() + (r.chance(50) ? 0 : 1), x); P.features["result-and-variable"]++; }
            }
            if (!d->recursive || r.chance(30)) b->k.push_back(a);
        }
        pure = sp;
        level--;
        loop_depth = save_loop;
        nolabels = save_nol;
        cur.pop_back();
        d->body = b;
        P.features["proc"]++;
    }
    // A block of its own in which a procedure gets a parameter of a kind it has no use for.
    NP wrong_parameter()
    {
        static const std::vector<std::string> dest = { "v + 2", "v * v", "qf(3)", "sin(v)", "@if v = 1 @then 2 @else 3", "entier(v)", "-v" };
        static const std::vector<std::string> decl = { "@integer", "@real" };
        auto n = st(S_WRONG);
        const std::string it = r.pick(decl), at = r.pick(decl);
        const std::string head = "@begin @integer v; " + at + " @array w[1 : 3], ww[0 : 2, 1 : 2]; @integer @procedure qf(x); @value x; @integer x; qf := x; ";
        std::string body;
        switch (r.below(4)) {
        case 0: body = "@procedure qq(a); " + it + " a; @begin %T; a := " + std::to_string(r.range(0, 9)) + " @end; v := 1; qq(" + r.pick(dest) + ")"; P.features["err-wrong-destination"]++; break;
        case 1: {
            static const std::vector<std::string> no = { "v", "3", "w", "ww" };
            body = "@procedure qq(a); @procedure a; @begin %T; a" + std::string(r.chance(50) ? "(1)" : "") + " @end; v := 1; qq(" + r.pick(no) + ")";
            P.features["err-wrong-procedure"]++;
            break;
        }
        case 2: body = "@procedure qq(a); " + at + " @array a; @begin %T; v := a[1] @end; v := 1; qq(ww)"; P.features["err-wrong-array"]++; break;
        default: body = "@procedure qq(a); " + at + " @array a; @begin %T; a[1, 1] := v @end; v := 1; qq(w)"; P.features["err-wrong-array"]++; break;
        }
        n->s = head + body + " @end";
        auto e = mk(E_STR);
        e->s = "before" + std::to_string(r.below(100));
        n->k = { e };
        n->keep = true;
        return n;
    }
    NP error_stmt(Scope *s)
    {
        // a statement that stops the machine when it is reached
        auto vs = vis(s, [&](const Decl &d) { return d.k == D_VAR && !d.readonly && d.type == T::INT; });
        auto rs = vis(s, [&](const Decl &d) { return d.k == D_VAR && !d.readonly && d.type == T::REAL; });
        auto as = vis(s, [&](const Decl &d) { return d.k == D_ARRAY; });
        auto n = st(S_ASSIGN);
        NP z = vs.empty() ? nullptr : vref(r.pick(vs));
        NP t = rs.empty() ? z : vref(r.pick(rs));
        if (!z) return text("none");
        NP zero = bin("-", z, z);
        auto fn = [&](const char *f, NP a) { auto x = mk(E_BUILTIN); x->s = f; x->type = T::REAL; x->k = { a }; return x; };
        auto large = [&](const char *d) { auto x = mk(E_LIT); x->type = T::REAL; x->isreal = true; x->s = d; set_real(x); return x; };
        if (r.chance(15)) return wrong_parameter();
        switch (r.below(18)) {
        case 10: n->k = { z, bin("^", zero, zero) }; P.features["err-0^0"]++; break;
        case 15: n->k = { t, bin("^", r.chance(50) ? fn("sqrt", zero) : zero, r.chance(50) ? neg(litr()) : neg(lit(r.range(1, 3)))) }; P.features["err-0^neg"]++; break;
        case 0: n->k = { t, bin("/", lit(r.range(1, 9)), zero) }; P.features["err-div"]++; break;
        case 1: n->k = { z, bin("div", lit(r.range(1, 9)), zero) }; P.features["err-idiv"]++; break;
        case 2: n->k = { z, bin("+", bin("+", lit(67108863), zero), lit(1)) }; P.features["err-overflow"]++; break;
        case 3: n->k = { z, bin("-", bin("-", zero, lit(67108863)), lit(r.range(1, 9))) }; P.features["err-overflow"]++; break;
        case 4: n->k = { t, fn("sqrt", bin("-", zero, lit(r.range(1, 99)))) }; P.features["err-sqrt"]++; break;
        case 5: n->k = { t, fn("ln", r.chance(50) ? zero : bin("-", zero, lit(2))) }; P.features["err-ln"]++; break;
        case 6: n->k = { t, fn("exp", lit(r.range(12000, 60000))) }; P.features["err-exp"]++; break;
        case 7: case 8: {
            if (as.empty()) { n->k = { t, bin("/", lit(1), zero) }; P.features["err-div"]++; break; }
            auto a = r.pick(as);
            auto e = mk(E_ELEM);
            e->d = a; e->type = a->type;
            for (int i = 0; i < a->dims; i++) {
                long v = r.chance(50) ? a->cb[i].second : a->cb[i].first;
                e->k.push_back(v < 0 ? neg(lit(-v)) : lit(v));
            }
            bool high = r.chance(50);
            for (int i = 0; i < a->dims; i++) {
                long v = high ? a->cb[i].second : a->cb[i].first;
                if (i == a->dims - 1) v += high ? r.range(1, 40) : -r.range(1, 40);
                e->k[i] = v < 0 ? neg(lit(-v)) : lit(v);
            }
            P.features["err-subscript"]++;
            if (r.chance(50)) n->k = { e, lit(1) };
            else n->k = { t, a->type == T::REAL || t->type == T::REAL ? e : e };
            break;
        }
        case 16: n->k = { z, fn("entier", limit_real(s, r.chance(35))) }; P.features["err-entier-limit"]++; break;
        case 9: n->k = { z, fn("entier", bin("+", lit(67108863), bin("/", lit(r.range(3, 99)), lit(2)))) }; P.features["err-entier"]++; break;
        case 11: n->k = { t, bin("*", large("1\xe2\x8f\xa8" "600"), large(r.chance(50) ? "3\xe2\x8f\xa8" "300" : "1\xe2\x8f\xa8" "17")) }; P.features["err-real-overflow"]++; break;
        case 12: n->k = { z, bin("*", large("1.5\xe2\x8f\xa8" "9"), lit(r.range(1, 9))) }; P.features["err-to-integer"]++; break;
        case 13: n->k = { t, bin("^", bin("-", zero, lit(r.range(1, 9))), large("0.5")) }; P.features["err-neg^real"]++; break;
        case 14: n->k = { z, bin("*", bin("+", lit(8192), zero), bin("+", lit(r.chance(50) ? 8192 : 67108863), zero)) }; P.features["err-product"]++; break;
        default: n->k = { z, bin("^", zero, zero) }; P.features["err-0^0"]++; break;
        }
        n->keep = true;
        return n;
    }
};
bool plant_error(Gen &g, const NP &b, Scope &s)
{
    // somewhere in the statement list of the main block after initialisations
    size_t from = 0;
    while (from < b->k.size() && b->k[from]->keep) from++;
    size_t at = from + g.r.below(b->k.size() - from + 1);
    NP e = g.error_stmt(&s);
    if (g.r.chance(40)) {
        // behind a block, so that the error strikes in an inner frame
        auto bb = g.st(S_BLOCK);
        auto lv = g.var(T::INT);
        bb->decls = { lv };
        bb->k = { g.initial(lv), e };
        bb->keep = true;
        e = bb;
    }
    b->k.insert(b->k.begin() + (long)at, e);
    return true;
}
} // namespace

Program make_program(uint64_t seed, const Profile &pf, const std::set<int> &deleted, int cut_items, int bad_item)
{
    Program P;
    Gen g(seed, pf, P);
    // names the system knows
    for (const char *n : { "read", "print", "TAB", "NLCR", "XEEN", "SPACE", "stop", "abs", "sign", "sqrt", "sin", "cos", "arctan", "ln", "exp", "entier", "sum", "SUM", "EVEN" }) g.used.insert(n);
    auto main = g.st(S_BLOCK);
    main->keep = true;
    Scope s;
    s.block = main;
    g.mainblock = main;
    int n = pf.stmts > 2 ? (int)g.r.range(pf.stmts / 2, pf.stmts) : pf.stmts;
    g.fill(&s, main, 2, n, true);
    if (pf.error && (!g.errs || g.r.chance(40))) plant_error(g, main, s);
    P.nstmts = g.ids;
    Printer pr{ pf.style >= 0 ? pf.style : (int)g.r.below(2), (int)g.r.below(2), deleted, g.r.chance(50) };
    // statements marked keep are never deleted
    P.source = pr.stm(main, 0) + "\n";
    Interp in(P, deleted, mix(seed, 77), cut_items, bad_item);
    in.tty = pf.tty;
    auto &m = P.model;
    try {
        in.exec(main, nullptr);
        m.ok = true;
    } catch (Reject &r) { m.reject = r.why; }
    catch (RtError &e) { m.ok = true; m.error = true; m.errkind = e.kind; }
    catch (Jump &) { m.reject = "stray jump"; }
    if (m.ok && (long)m.out.size() < pf.min_out) { m.ok = false; m.reject = "little output"; }
    if (m.ok && pf.error && !m.error) { m.ok = false; m.reject = "error not reached"; }
    return P;
}
uint64_t find_program(uint64_t seed, const Profile &p, Program &out, int cut_items, int bad_item)
{
    for (uint64_t i = 0;; i++) {
        uint64_t s = mix(seed, i);
        out = make_program(s, p, {}, cut_items, bad_item);
        if (out.model.ok && (p.error || cut_items >= 0 || bad_item >= 0 || !out.model.error)) return s;
        if (i > 3000) { fprintf(stderr, "no program found: %s\n", out.model.reject.c_str()); exit(3); }
    }
}
