#include "templates.h"
#include "deep.h"

std::string algol(const std::string &t)
{
    std::string o;
    for (size_t i = 0; i < t.size(); i++) {
        if (t[i] == '`') { // a string, up to its closing quote
            size_t e = t.find('\'', i);
            o += t.substr(i, e == std::string::npos ? e : e - i + 1);
            if (e == std::string::npos) break;
            i = e;
            continue;
        }
        if (t[i] != '\'') { o += t[i]; continue; }
        size_t e = t.find('\'', i + 1);
        for (size_t k = i + 1; k < e; k++) { o += '_'; o += t[k]; }
        i = e;
    }
    return o;
}
std::string shown(long v)
{
    return std::to_string(v);
}
static Sized made(const std::string &src, const std::string &want, bool endless = false)
{
    Sized s;
    s.source = algol(src);
    s.want = want;
    s.endless = endless;
    return s;
}
static std::string num(long n) { return n < 0 ? "-" + std::to_string(-n) : std::to_string(n); }
static std::string rep(long n, std::function<std::string(long)> f)
{
    std::string o;
    for (long i = 1; i <= n; i++) o += f(i);
    return o;
}
static const std::string HEAD = "print(1); NLCR;\n";
static const std::string HEADW = shown(1) + "\n";

const std::vector<Template> &templates()
{
    static std::vector<Template> t;
    if (!t.empty()) return t;
    auto add = [&](const char *name, long floor, long max, std::function<Sized(long, Rng &)> f) { t.push_back({ name, floor, max, f }); };

    // ---- depth at run time
    add("recursion of a function", 20000, 300000, [](long n, Rng &) {
        return made("'begin' 'integer' r;\n'integer' 'procedure' f(n); 'value' n; 'integer' n; f := 'if' n = 0 'then' 0 'else' f(n - 1) + 1;\n" + HEAD +
            "r := f(" + num(n) + "); print(r); NLCR 'end'\n", HEADW + shown(n) + "\n");
    });
    add("recursion of a procedure with locals", 20000, 200000, [](long n, Rng &) {
        return made("'begin' 'integer' s;\n'procedure' p(n); 'value' n; 'integer' n; 'begin' 'integer' a; 'real' b; a := n; b := n / 2; 'if' n > 0 'then' p(n - 1); 'if' a = n ∧ b + b = n 'then' s := s + 1 'end';\n" + HEAD +
            "s := 0; p(" + num(n) + "); print(s); NLCR 'end'\n", HEADW + shown(n + 1) + "\n");
    });
    add("mutual recursion", 20000, 200000, [](long n, Rng &) {
        return made("'begin' 'integer' s;\n'procedure' p(n); 'value' n; 'integer' n; 'begin' s := s + 1; 'if' n > 0 'then' q(n - 1) 'end';\n"
            "'procedure' q(n); 'value' n; 'integer' n; 'begin' s := s + 2; 'if' n > 0 'then' p(n - 1) 'end';\n" + HEAD +
            "s := 0; p(" + num(n) + "); print(s); NLCR 'end'\n", HEADW + shown(n / 2 * 3 + (n % 2 ? 3 : 1)) + "\n");
    });
    add("chain of parameters called by name", 5000, 60000, [](long n, Rng &) {
        return made("'begin' 'integer' r;\n'integer' 'procedure' g(n, x); 'value' n; 'integer' n, x; g := 'if' n = 0 'then' x 'else' g(n - 1, x + 1);\n" + HEAD +
            "r := g(" + num(n) + ", 7); print(r); NLCR 'end'\n", HEADW + shown(n + 7) + "\n");
    });
    add("formals passed on", 5000, 60000, [](long n, Rng &) {
        return made("'begin' 'integer' r;\n'procedure' g(n, x); 'value' n; 'integer' n, x; 'if' n = 0 'then' x := x + 1 'else' g(n - 1, x);\n" + HEAD +
            "r := 41; g(" + num(n) + ", r); print(r); NLCR 'end'\n", HEADW + shown(42) + "\n");
    });
    add("local arrays in recursion", 50000, 60000, [](long n, Rng &r) {
        long w = r.pick(std::vector<long>{ 1, 2, 9, 100, 1000 });
        if (n * w > 5000) w = 5000 / n + 1;
        return made("'begin' 'integer' s;\n'procedure' h(n); 'value' n; 'integer' n; 'begin' 'integer' 'array' a[1:" + num(w) + "]; 'integer' i;\n"
            "'for' i := 1 'step' 1 'until' " + num(w) + " 'do' a[i] := n + i; 'if' n > 0 'then' h(n - 1); s := s + a[" + num(w) + "] - n 'end';\n" + HEAD +
            "s := 0; h(" + num(n) + "); print(s); NLCR 'end'\n", HEADW + shown((n + 1) * w) + "\n");
    });
    add("copies of arrays in recursion", 18000, 20000, [](long n, Rng &r) {
        long w = r.pick(std::vector<long>{ 1, 3, 20 });
        return made("'begin' 'integer' s; 'integer' 'array' z[1:" + num(w) + "];\n'procedure' v(b, n); 'value' b, n; 'integer' 'array' b; 'integer' n; 'begin' b[1] := n; 'if' n > 0 'then' v(b, n - 1); 'if' b[1] = n 'then' s := s + 1 'end';\n" + HEAD +
            "s := 0; 'for' s := 1 'step' 1 'until' " + num(w) + " 'do' z[s] := 1000; s := 0; v(z, " + num(n) + "); print(s); print(z[1]); NLCR 'end'\n", HEADW + shown(n + 1) + shown(1000) + "\n");
    });
    add("jump out of a depth", 5000, 60000, [](long n, Rng &r) {
        long m = r.range(1, 4);
        return made("'begin' 'integer' k;\n'procedure' j(n); 'value' n; 'integer' n; 'if' n = 0 'then' 'goto' l 'else' j(n - 1);\n" + HEAD +
            "k := 0; l: k := k + 1; 'if' k < " + num(m) + " 'then' j(" + num(n) + "); print(k); NLCR 'end'\n", HEADW + shown(m) + "\n");
    });
    add("many jumps out of procedures", 3000, 30000, [](long n, Rng &) {
        return made("'begin' 'integer' k;\n'procedure' j(n); 'value' n; 'integer' n; 'if' n = 0 'then' 'goto' l 'else' j(n - 1);\n" + HEAD +
            "k := 0; l: k := k + 1; 'if' k < " + num(n) + " 'then' j(2); print(k); NLCR 'end'\n", HEADW + shown(n) + "\n");
    });
    add("many jumps out of half-evaluated expressions", 3000, 30000, [](long n, Rng &) {
        return made("'begin' 'integer' k, x;\n'integer' 'procedure' f(a); 'integer' a; 'begin' 'integer' 'array' b[1:3]; b[1] := a; f := b[1]; 'if' k < " + num(n) + " 'then' 'goto' l 'end';\n" + HEAD +
            "k := 0; l: k := k + 1; x := k + (k - f(k + 1) * 2); print(x); NLCR 'end'\n", HEADW + shown(n + (n - (n + 1) * 2)) + "\n");
    });
    add("many jumps out of loops and blocks", 2000, 20000, [](long n, Rng &) {
        return made("'begin' 'integer' k, i;\n" + HEAD +
            "k := 0; l: 'for' i := 1 'step' 1 'until' 3 'do' 'begin' 'integer' 'array' a[1:k - k ÷ 100 * 100 + 1]; a[1] := i; k := k + a[1]; 'if' k < " + num(n) + " 'then' 'goto' l; 'goto' m 'end'; m: print(k); NLCR 'end'\n", HEADW + shown(n) + "\n");
    });
    add("many jumps through a label parameter", 1500, 15000, [](long n, Rng &) {
        return made("'begin' 'integer' k;\n'procedure' j(n, x); 'value' n; 'integer' n; 'label' x; 'if' n = 0 'then' 'goto' x 'else' j(n - 1, x);\n" + HEAD +
            "k := 0; l: k := k + 1; 'if' k < " + num(n) + " 'then' j(3, l); print(k); NLCR 'end'\n", HEADW + shown(n) + "\n");
    });
    add("many calls", 5000, 30000, [](long n, Rng &) {
        return made("'begin' 'integer' k, s; 'integer' 'procedure' f(a, b); 'value' a; 'integer' a, b; f := a + b;\n" + HEAD +
            "s := 0; 'for' k := 1 'step' 1 'until' " + num(n) + " 'do' s := f(s, 1); print(s); NLCR 'end'\n", HEADW + shown(n) + "\n");
    });
    add("many blocks with arrays", 18000, 20000, [](long n, Rng &) {
        return made("'begin' 'integer' k, s;\n" + HEAD +
            "s := 0; 'for' k := 1 'step' 1 'until' " + num(n) + " 'do' 'begin' 'integer' 'array' a[0:k - k ÷ 50 * 50]; a[0] := k; s := a[0] 'end'; print(s); NLCR 'end'\n", HEADW + shown(n) + "\n");
    });
    // ---- store at run time
    add("one large array", 4500, 400000, [](long n, Rng &r) {
        bool real = r.chance(40);
        if (n < 300) n = 300;
        return made(std::string("'begin' 'integer' i, s; ") + (real ? "'array'" : "'integer' 'array'") + " a[0:" + num(n) + "];\n" + HEAD +
            "'for' i := 0 'step' 1 'until' 300, " + num(n) + " 'step' -1 'until' " + num(n > 300 ? n - 300 : 0) + " 'do' a[i] := i; s := 0;\n"
            "'for' i := 0 'step' 1 'until' 300 'do' 'if' a[i] = i 'then' s := s + 1; print(s); i := a[" + num(n) + "]; print(i); NLCR 'end'\n", HEADW + shown(301) + shown(n) + "\n");
    });
    add("a matrix", 60, 900, [](long n, Rng &) {
        return made("'begin' 'integer' i, j, s; 'integer' 'array' a[1:" + num(n) + ", -" + num(n) + ":-1];\n" + HEAD +
            "'for' i := 1, " + num(n) + " 'do' 'for' j := 1 'step' 1 'until' " + num(n) + " 'do' a[i, -j] := i + j; s := 0;\n"
            "'for' i := 1, " + num(n) + " 'do' 'for' j := 1 'step' 1 'until' " + num(n) + " 'do' 'if' a[i, -j] = i + j 'then' s := s + 1; print(s); NLCR 'end'\n", HEADW + shown(2 * n) + "\n");
    });
    add("arrays with dynamic bounds", 90000, 100000, [](long n, Rng &) {
        return made("'begin' 'integer' n; n := " + num(n) + ";\n" + HEAD + "'begin' 'integer' 'array' a[-n:n], b[n:n + 1]; a[-n] := 1; a[n] := 2; a[0] := 3; b[n] := 4; b[n + 1] := 5; print(a[-n] + a[n] + a[0] + b[n] + b[n + 1]); NLCR 'end' 'end'\n",
            HEADW + shown(15) + "\n");
    });
    // ---- no end at all
    add("endless recursion", 0, 1, [](long, Rng &r) {
        static const std::vector<std::string> v = {
            "'procedure' p; p;\n" + HEAD + "p",
            "'integer' 'procedure' f(n); 'value' n; 'integer' n; f := f(n + 1) + 1;\n" + HEAD + "print(f(1))",
            "'integer' 'procedure' f(x); 'integer' x; f := f(x + 1);\n" + HEAD + "print(f(1))",
            "'procedure' p(n); 'value' n; 'integer' n; 'begin' 'integer' 'array' a[1:n]; a[1] := n; p(n + 1) 'end';\n" + HEAD + "p(1)",
            "'integer' 'procedure' f(x); 'integer' x; f := x + f(f(1));\n" + HEAD + "print(f(1))",
            "'procedure' p(b); 'value' b; 'integer' 'array' b; p(b);\n'integer' 'array' z[1:5]; z[1] := 1; 'for' z[1] := 1 'step' 1 'until' 5 'do' z[z[1]] := z[1];\n" + HEAD + "p(z)",
            "'procedure' p(q); 'procedure' q; 'begin' 'procedure' r; p(q); p(r) 'end'; 'procedure' e;;\n" + HEAD + "p(e)",
            "'real' 'procedure' f(n); 'value' n; 'real' n; 'begin' 'real' a, b, c; a := n; b := a; c := b; f := f(c) 'end';\n" + HEAD + "print(f(1.5))",
        };
        Sized s = made("'begin' " + v[r.below(v.size())] + " 'end'\n", HEADW, true);
        return s;
    });
    add("endless growth", 0, 1, [](long, Rng &r) {
        static const std::vector<std::string> v = {
            "'integer' k; k := 1;\n" + HEAD + "l: 'begin' 'integer' 'array' a[1:k]; a[1] := k; k := k + k; 'goto' l 'end'",
            "'integer' k; 'procedure' p; 'begin' 'integer' 'array' a[1:k]; k := k + k; p 'end';\n" + HEAD + "k := 1; p",
            HEAD + "'begin' 'integer' 'array' a[1:67000000]; a[1] := 1; print(a[1]) 'end'",
            HEAD + "'begin' 'array' a[-60000000:60000000]; a[1] := 1; print(a[1]) 'end'",
            "'integer' n; n := 5000;\n" + HEAD + "'begin' 'integer' 'array' a[1:n, 1:n]; a[1, 1] := 1; print(a[1, 1]) 'end'",
            "'integer' n; n := 400;\n" + HEAD + "'begin' 'integer' 'array' a[1:n, 1:n, 1:n, 1:n]; a[1, 1, 1, 1] := 1; print(a[1, 1, 1, 1]) 'end'",
        };
        return made("'begin' " + v[r.below(v.size())] + " 'end'\n", HEADW, true);
    });
    // ---- size of the source
    add("statements", 1150, 20000, [](long n, Rng &r) {
        bool line = r.chance(50);
        return made("'begin' 'integer' x;\n" + HEAD + "x := 0;\n" + rep(n, [&](long) { return std::string("x := x + 1;") + (line ? "" : "\n"); }) + "print(x); NLCR 'end'\n", HEADW + shown(n) + "\n");
    });
    add("nested compound statements", 110, 20000, [](long n, Rng &) {
        return made("'begin' 'integer' x;\n" + HEAD + "x := 0;\n" + rep(n, [](long) { return "'begin' x := x + 1; "; }) + "x := x" + rep(n, [](long) { return " 'end'"; }) + "; print(x); NLCR 'end'\n", HEADW + shown(n) + "\n");
    });
    add("nested blocks", 30, 2000, [](long n, Rng &) {
        return made("'begin' 'integer' x0; x0 := 0;\n" + HEAD + rep(n, [](long i) { return "'begin' 'integer' x" + num(i) + "; x" + num(i) + " := x" + num(i - 1) + " + 1;\n"; }) + "print(x" + num(n) + "); NLCR" +
            rep(n, [](long) { return " 'end'"; }) + " 'end'\n", HEADW + shown(n) + "\n");
    });
    add("nested procedures", 30, 300, [](long n, Rng &) {
        return made("'begin' 'integer' x0; 'procedure' p0; print(0);\n" + rep(n, [](long i) { return "'procedure' p" + num(i) + "; 'begin' 'integer' x" + num(i) + ";\n"; }) + "print(x0); NLCR" +
            rep(n, [&](long i) { return (i > 1 ? std::string("; p") + num(n - i + 2) : "") + " 'end'"; }) + ";\n" + HEAD + "x0 := 5; p1 'end'\n", HEADW + shown(5) + "\n");
    });
    add("nested parentheses", 56, 20000, [](long n, Rng &) {
        return made("'begin' 'integer' x;\n" + HEAD + "x := 3; x := " + rep(n, [](long) { return "("; }) + "x" + rep(n, [](long) { return " + 1)"; }) + "; print(x); NLCR 'end'\n", HEADW + shown(n + 3) + "\n");
    });
    add("pending operations", 37, 20000, [](long n, Rng &) {
        return made("'begin' 'integer' x;\n" + HEAD + "x := 1; x := " + rep(n, [](long) { return "x + ("; }) + "x" + rep(n, [](long) { return ")"; }) + "; print(x); NLCR 'end'\n", HEADW + shown(n + 1) + "\n");
    });
    add("nested conditions", 28, 5000, [](long n, Rng &) {
        return made("'begin' 'integer' x;\n" + HEAD + "x := 0;\n" + rep(n, [](long) { return "'if' x = 0 'then' 'begin' "; }) + "x := 1" + rep(n, [](long) { return " 'end'"; }) + "; print(x); NLCR 'end'\n", HEADW + shown(1) + "\n");
    });
    add("nested loops", 21, 500, [](long n, Rng &) {
        return made("'begin' 'integer' x, " + rep(n, [&](long i) { return "i" + num(i) + (i < n ? ", " : ""); }) + ";\n" + HEAD + "x := 0;\n" + rep(n, [](long i) { return "'for' i" + num(i) + " := " + num(i) + " 'do' "; }) + "x := x + i1 + i" + num(n) + "; print(x); NLCR 'end'\n", HEADW + shown(1 + n) + "\n");
    });
    add("nested calls", 12, 5000, [](long n, Rng &) {
        return made("'begin' 'integer' 'procedure' f(a); 'value' a; 'integer' a; f := a + 1;\n" + HEAD + "print(" + rep(n, [](long) { return "f("; }) + "0" + rep(n, [](long) { return ")"; }) + "); NLCR 'end'\n", HEADW + shown(n) + "\n");
    });
    add("nested subscripts", 15, 5000, [](long n, Rng &) {
        return made("'begin' 'integer' 'array' a[1:3];\n" + HEAD + "a[1] := 2; a[2] := 3; a[3] := 1; print(" + rep(n, [](long) { return "a["; }) + "1" + rep(n, [](long) { return "]"; }) + "); NLCR 'end'\n", HEADW + shown(1 + n % 3) + "\n");
    });
    add("variables", 530, 9000, [](long n, Rng &r) {
        bool one = r.chance(50);
        std::string d = one ? "'integer' " + rep(n, [&](long i) { return "v" + num(i) + (i < n ? ", " : ";\n"); }) : rep(n, [&](long i) { return "'integer' v" + num(i) + ";\n"; });
        return made("'begin' 'integer' x;\n" + d + HEAD + rep(n, [](long i) { return "v" + num(i) + " := " + num(i % 100) + ";\n"; }) + "x := 0;\n" + rep(n, [](long i) { return "x := x + v" + num(i) + ";\n"; }) + "print(x); NLCR 'end'\n",
            HEADW + shown([&] { long s = 0; for (long i = 1; i <= n; i++) s += i % 100; return s; }()) + "\n");
    });
    add("procedures", 520, 5000, [](long n, Rng &) {
        return made("'begin' 'integer' x;\n" + rep(n, [](long i) { return "'procedure' p" + num(i) + "; x := x + " + num(i % 50) + ";\n"; }) + HEAD + "x := 0;\n" + rep(n, [](long i) { return "p" + num(i) + ";\n"; }) + "print(x); NLCR 'end'\n",
            HEADW + shown([&] { long s = 0; for (long i = 1; i <= n; i++) s += i % 50; return s; }()) + "\n");
    });
    add("labels", 670, 5000, [](long n, Rng &) {
        return made("'begin' 'integer' x;\n" + HEAD + "x := 0; 'goto' l" + num(n) + ";\n" + rep(n, [&](long i) { return "l" + num(i) + ": x := x + 1; 'goto' " + (i == 1 ? "out" : "l" + num(i - 1)) + ";\n"; }) + "out: print(x); NLCR 'end'\n", HEADW + shown(n) + "\n");
    });
    add("elements of a switch", 56, 3000, [](long n, Rng &) {
        return made("'begin' 'integer' x; 'switch' s := " + rep(n, [&](long i) { return "l" + num(i) + (i < n ? ", " : ";\n"); }) + HEAD + "x := 0; 'goto' s[" + num(n) + "];\n" + rep(n, [&](long i) { return "l" + num(i) + ": x := x + 1;\n"; }) + "print(x); NLCR 'end'\n", HEADW + shown(1) + "\n");
    });
    add("constants", 600, 5000, [](long n, Rng &r) {
        bool real = r.chance(50);
        return made("'begin' 'real' x; 'integer' i;\n" + HEAD + "x := 0;\n" + rep(n, [&](long i) { return "x := x + " + num(100000 + i) + (real ? ".5" : "") + ";\n"; }) + "x := x" + (real ? " - " + num(n / 2) + (n % 2 ? ".5" : "") : "") + "; i := x; print(i); NLCR 'end'\n",
            HEADW + shown(100000 * n + n * (n + 1) / 2) + "\n");
    });
    add("a long string", 12000, 60000, [](long n, Rng &) {
        std::string s;
        for (long i = 0; i < n; i++) s += (char)('a' + i % 26);
        Sized z = made("'begin'\n" + HEAD + "PRINTTEXT(|<" + s + "|>); NLCR 'end'\n", HEADW + s + "\n");
        return z;
    });
    add("dimensions", 12, 400, [](long n, Rng &) {
        return made("'begin' 'integer' 'array' a[" + rep(n, [&](long i) { return std::string("0:1") + (i < n && i < 9 ? ", " : i < n ? ", " : ""); }) + "];\n" + HEAD + "a[" + rep(n, [&](long i) { return std::string("1") + (i < n ? ", " : ""); }) + "] := 9; a[" +
            rep(n, [&](long i) { return std::string("0") + (i < n ? ", " : ""); }) + "] := 8; print(a[" + rep(n, [&](long i) { return std::string("1") + (i < n ? ", " : ""); }) + "]); NLCR 'end'\n", HEADW + shown(n ? 9 : 9) + "\n");
    });
    add("parameters", 53, 1500, [](long n, Rng &r) {
        bool val = r.chance(50);
        std::string l = rep(n, [&](long i) { return "a" + num(i) + (i < n ? ", " : ""); });
        return made("'begin' 'integer' x; 'procedure' p(" + l + "); " + (val ? "'value' " + l + "; " : "") + "'integer' " + l + "; 'begin' x := 0;\n" + rep(n, [](long i) { return "x := x + a" + num(i) + ";\n"; }) + "print(x) 'end';\n" + HEAD +
            "p(" + rep(n, [&](long i) { return num(i) + (i < n ? ", " : ""); }) + "); NLCR 'end'\n", HEADW + shown(n * (n + 1) / 2) + "\n");
    });
    add("elements of a for list", 2000, 5000, [](long n, Rng &) {
        return made("'begin' 'integer' i, s;\n" + HEAD + "s := 0; 'for' i := " + rep(n, [&](long i) { return num(i) + (i < n ? ", " : ""); }) + " 'do' s := s + i; print(s); NLCR 'end'\n", HEADW + shown(n * (n + 1) / 2) + "\n");
    });
    add("a long identifier", 5000, 100000, [](long n, Rng &) {
        std::string id = "q" + std::string((size_t)n, 'z');
        return made("'begin' 'integer' " + id + ";\n" + HEAD + id + " := 6; print(" + id + "); NLCR 'end'\n", HEADW + shown(6) + "\n");
    });
    add("a long comment", 5000, 60000, [](long n, Rng &) {
        return made("'begin' 'comment' " + std::string((size_t)n, 'x') + ";\n" + HEAD + "print(2); NLCR 'end'\n", HEADW + shown(2) + "\n");
    });
    add("a long gap", 5000, 60000, [](long n, Rng &r) {
        return made("'begin' " + std::string((size_t)n, r.chance(50) ? ' ' : '\n') + HEAD + "print(2); NLCR 'end'\n", HEADW + shown(2) + "\n");
    });
    add("a long sum", 4000, 10000, [](long n, Rng &) {
        return made("'begin' 'integer' x;\n" + HEAD + "x := 2; x := x" + rep(n, [](long) { return " + x"; }) + "; print(x); NLCR 'end'\n", HEADW + shown(2 * (n + 1)) + "\n");
    });
    add("multiple assignment", 108, 3000, [](long n, Rng &) {
        return made("'begin' 'integer' 'array' a[1:" + num(n) + "]; 'integer' i, s;\n" + HEAD + rep(n, [](long i) { return "a[" + num(i) + "] := "; }) + "4; s := 0; 'for' i := 1 'step' 1 'until' " + num(n) + " 'do' s := s + a[i]; print(s); NLCR 'end'\n", HEADW + shown(4 * n) + "\n");
    });
    add("conditional expressions", 37, 4000, [](long n, Rng &) {
        return made("'begin' 'integer' x;\n" + HEAD + "x := " + num(n) + "; x := " + rep(n, [](long i) { return "'if' x = " + num(i) + " 'then' " + num(i + 1) + " 'else' "; }) + "0; print(x); NLCR 'end'\n", HEADW + shown(n + 1) + "\n");
    });
    add("digits of a number", 300, 3000, [](long n, Rng &) {
        return made("'begin' 'integer' x;\n" + HEAD + "x := 0" + std::string((size_t)n, '0') + "12; print(x); NLCR 'end'\n", HEADW + shown(12) + "\n");
    });
    // ---- all of it at once
    add("levels of procedures", 28, 60, [](long n, Rng &r) { const bool jump = r.chance(40); return levels(n, r, jump); });
    add("a crowded procedure", 680, 1200, [](long n, Rng &r) { return crowded(n, r); });
    add("large arrays in deep activations", 200, 2000, [](long n, Rng &r) { const long w = r.range(1, 200000 / n > 3000 ? 3000 : 200000 / n); return piled(n, w, r); });
    add("vast arrays", 200000, 1000000, [](long n, Rng &r) { return vast(n, r); });
    add("a sprawling program", 300, 700, [](long n, Rng &r) { return sprawling(n, r); });
    return t;
}
