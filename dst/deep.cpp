#include "deep.h"
#include <algorithm>
#include <functional>
#include <cmath>
using std::string;
using std::vector;
static string b(long v) { return v < 0 ? "-" + std::to_string(-v) : std::to_string(v); }
static string id(const char *c, long i) { return c + std::to_string(i); }

// p1 contains p2 contains p3 ... each with variables of its own; the innermost works on those of all of them,
// through parameters called by name that lead from level to level, and may jump out to any of them.
Sized levels(long n, Rng &r, bool jump)
{
    enum { PASS, SUM, VAR, ELEM, CONST };
    struct Level { bool arr, fun, val, loop, real; int y; long c, d, k; };
    vector<Level> l((size_t)n + 1);
    const bool calm = r.chance(30) || n > 24; // little else than the levels
    for (long i = 0; i <= n; i++) {
        auto &x = l[(size_t)i];
        x.arr = !calm && r.chance(25);
        x.fun = i && !calm && r.chance(25);
        x.val = i && r.chance(30);
        x.loop = i < n && !calm && r.chance(10) && i + 2 < 31 && !x.fun;
        x.real = r.chance(20);
        x.c = r.range(1, 9);
        x.d = r.range(1, 9);
        x.k = r.range(0, 9);
        // what y stands for, given one level further out
        if (i) {
            auto &o = l[(size_t)i - 1];
            do x.y = (int)r.below(5); while ((x.y == PASS && i < 2) || (x.y == SUM && i < 2) || (x.y == ELEM && !o.arr));
            if (i > 1 && r.chance(40)) x.y = PASS;
        }
    }
    const long target = jump && n > 1 ? r.range(1, n) : 0;
    vector<long> X((size_t)n + 1), A((size_t)n + 1), K((size_t)n + 1), F((size_t)n + 1);
    long s = 0;
    std::function<long(long)> yval = [&](long i) -> long {
        auto &x = l[(size_t)i];
        switch (x.y) {
        case PASS: return yval(i - 1);
        case SUM: return yval(i - 1) + X[(size_t)i - 1];
        case VAR: return X[(size_t)i - 1];
        case ELEM: return A[(size_t)i - 1];
        default: return x.d;
        }
    };
    std::function<long *(long)> lval = [&](long i) -> long * {
        auto &x = l[(size_t)i];
        switch (x.y) {
        case PASS: return lval(i - 1);
        case VAR: return &X[(size_t)i - 1];
        case ELEM: return &A[(size_t)i - 1];
        default: return nullptr;
        }
    };
    auto actual = [&](long i) { // for y of level i, in the words of level i - 1
        switch (l[(size_t)i].y) {
        case PASS: return id("y", i - 1);
        case SUM: return id("y", i - 1) + " + " + id("x", i - 1);
        case VAR: return id("x", i - 1);
        case ELEM: return id("a", i - 1) + "[1]";
        default: return b(l[(size_t)i].d);
        }
    };
    // what the innermost does
    struct Op { int what; long i, j; };
    vector<Op> ops;
    for (long m = r.range(3, 12); m > 0; m--) {
        Op o{ (int)r.below(6), r.range(0, n), r.range(0, n) };
        if (r.chance(30)) o.i = r.chance(50) ? n : r.range(std::max(0l, n - 3), n);
        ops.push_back(o);
    }
    string inner;
    for (auto &o : ops) {
        const string xi = id("x", o.i), xj = id("x", o.j);
        switch (o.what) {
        case 0: inner += xi + " := " + xj + " + " + b(o.j + 1) + "; "; break;
        case 1: if (o.j) inner += "s := s + " + id("y", o.j) + "; "; break;
        case 2: inner += "s := s + " + xi + "; "; break;
        case 3: if (l[(size_t)o.i].arr) inner += id("a", o.i) + "[1] := " + id("a", o.i) + "[1] + " + xj + "; "; break;
        case 4: if (o.i && lval(o.i)) inner += id("y", o.i) + " := " + b(o.j + 20) + "; "; break;
        default: if (o.i && l[(size_t)o.i].val) inner += id("k", o.i) + " := " + id("k", o.i) + " + " + xj + "; "; break;
        }
    }
    if (target) inner += "'goto' " + id("l", target) + "; ";
    auto work = [&] {
        for (auto &o : ops) switch (o.what) {
        case 0: X[(size_t)o.i] = X[(size_t)o.j] + o.j + 1; break;
        case 1: if (o.j) s += yval(o.j); break;
        case 2: s += X[(size_t)o.i]; break;
        case 3: if (l[(size_t)o.i].arr) A[(size_t)o.i] += X[(size_t)o.j]; break;
        case 4: if (o.i) if (long *p = lval(o.i)) *p = o.j + 20; break;
        default: if (o.i && l[(size_t)o.i].val) K[(size_t)o.i] += X[(size_t)o.j]; break;
        }
    };
    // execution
    long to = 0; // jump on its way to this level
    std::function<void(long)> run = [&](long i) {
        auto &x = l[(size_t)i];
        X[(size_t)i] = x.c;
        A[(size_t)i] = x.d;
        F[(size_t)i] = x.d;
        if (i == n) work();
        if (i == n) to = target;
        else {
            auto &q = l[(size_t)i + 1];
            if (q.val) K[(size_t)i + 1] = q.k + X[(size_t)i];
            run(i + 1);
            if (!to && q.fun) X[(size_t)i] = F[(size_t)i + 1] + X[(size_t)i];
        }
        if (to && to != i) return;
        if (to == i && i) to = 0;
        s += X[(size_t)i] * (i % 3 + 1);
        if (x.arr) s += A[(size_t)i];
        if (x.val) s += K[(size_t)i];
        if (x.fun) F[(size_t)i] = F[(size_t)i] + X[(size_t)i];
    };
    run(0);
    // text
    string text = "'begin' 'integer' s;\n";
    std::function<string(long)> body = [&](long i) -> string {
        auto &x = l[(size_t)i];
        string o;
        o += string(x.real ? "'real'" : "'integer'") + " " + id("x", i) + "; ";
        if (x.arr) o += string(x.real ? "'real'" : "'integer'") + " 'array' " + id("a", i) + "[0 : " + b(1 + i % 3) + "]; ";
        if (i < n) {
            auto &q = l[(size_t)i + 1];
            o += "\n" + string(q.fun ? "'integer' " : "") + "'procedure' " + id("p", i + 1) + "(" + id("y", i + 1) + (q.val ? ", " + id("k", i + 1) + "); 'value' " + id("k", i + 1) + "; 'integer' " + id("y", i + 1) + ", " + id("k", i + 1) : "); 'integer' " + id("y", i + 1)) + ";\n'begin' " + body(i + 1) + "'end';\n";
        }
        if (!i) o += "s := 0; ";
        o += id("x", i) + " := " + b(x.c) + "; ";
        if (x.arr) o += id("a", i) + "[1] := " + b(x.d) + "; ";
        if (x.fun) o += id("p", i) + " := " + b(x.d) + "; ";
        if (i == n) o += "\n" + inner;
        else {
            auto &q = l[(size_t)i + 1];
            string call = id("p", i + 1) + "(" + actual(i + 1) + (q.val ? ", " + b(q.k) + " + " + id("x", i) : "") + ")";
            if (q.fun) call = id("x", i) + " := " + call + " + " + id("x", i);
            else if (x.loop) call = "'for' " + id("x", i) + " := " + b(x.c) + " 'do' " + call;
            o += call + "; ";
        }
        if (target == i && i) o += id("l", i) + ": ";
        o += "s := s + " + id("x", i) + " × " + b(i % 3 + 1) + "; ";
        if (x.arr) o += "s := s + " + id("a", i) + "[1]; ";
        if (x.val) o += "s := s + " + id("k", i) + "; ";
        if (!i) o += "print(s); NLCR; ";
        // the value of a function: what it was given first, and its variable
        if (x.fun) o += id("p", i) + " := " + b(x.d) + " + " + id("x", i) + "; ";
        return o;
    };
    text += body(0) + "'end'\n";
    Sized z;
    z.source = algol(text);
    z.want = b(s) + "\n";
    return z;
}

// A procedure with n variables, called for itself once more, so that each activation has its own.
Sized crowded(long n, Rng &r)
{
    if (n < 4) n = 4;
    vector<int> type((size_t)n); // 0 integer, 1 real, 2 Boolean
    const bool mixed = r.chance(60);
    for (auto &t : type) t = mixed ? (int)r.below(3) : 0;
    vector<long> at = { 0, n - 1, n / 2 };
    for (long p = 4; p < n; p *= 2) { at.push_back(p - 1); at.push_back(p); if (r.chance(50)) at.push_back(p + 1 < n ? p + 1 : p); if (p >= 8) at.push_back(p - r.range(2, 8)); }
    while (at.size() > 16) at.erase(at.begin() + 1 + (long)r.below(at.size() - 1));
    for (int k = 0; k < 3; k++) at.push_back(r.range(0, n - 1));
    std::sort(at.begin(), at.end());
    at.erase(std::unique(at.begin(), at.end()), at.end());
    for (long i : at) if (type[(size_t)i] == 2 && r.chance(60)) type[(size_t)i] = 0;
    string decl;
    static const char *T[] = { "'integer'", "'real'", "'boolean'" };
    for (long i = 0; i < n;) {
        long j = i;
        const int t = type[(size_t)i];
        decl += string(T[t]) + " ";
        while (j < n && type[(size_t)j] == t) { decl += (j > i ? ", " : "") + id("v", j); j++; }
        decl += ";\n";
        i = j;
    }
    const bool arr = r.chance(70), copy = arr && r.chance(50), nested = r.chance(60);
    const long depth = r.range(1, 3);
    if (arr) decl += "'integer' 'array' m, mm[-1 : 3]; ";
    string t = "'begin' 'integer' s; 'procedure' q(a); 'integer' a; a := a + 5;\n'procedure' e(f); 'boolean' f; f := ¬ f;\n"
        "'procedure' z(u); " + string(copy ? "'value' u; " : "") + "'integer' 'array' u; 'begin' u[2] := u[2] + 9; s := s + u[2] + u[-1] 'end';\n"
        "'procedure' p(k); 'value' k; 'integer' k;\n'begin' " + decl;
    if (nested) {
        t += "'procedure' w; 'begin' 'integer' l; ";
        for (long i : at) if (i % 3 == 0) t += type[(size_t)i] == 2 ? "e(" + id("v", i) + "); " : id("v", i) + " := " + id("v", i) + " + 1; ";
        t += "l := 0 'end';\n";
    }
    for (long i : at) t += id("v", i) + " := " + (type[(size_t)i] == 2 ? "k = " + b(i % 4) : b(i) + " + 1000 × k") + ";\n";
    if (arr) t += "m[-1] := k; m[2] := 4; mm[-1] := 6; mm[2] := k + 1; ";
    t += "'if' k > 0 'then' p(k - 1);\n";
    for (long i : at) if (i % 2) t += (type[(size_t)i] == 2 ? "e(" : "q(") + id("v", i) + "); ";
    if (nested) t += "w; ";
    if (arr) t += "z(m); z(mm); s := s + m[2] + mm[2];\n";
    for (long i : at) t += type[(size_t)i] == 2 ? "'if' " + id("v", i) + " 'then' s := s + 1;\n" : "s := s + " + id("v", i) + ";\n";
    t += "print(s); NLCR 'end';\ns := 0; p(" + b(depth) + ") 'end'\n";
    long s = 0;
    Sized o;
    for (long k = 0; k <= depth; k++) {
        std::vector<long> v((size_t)n);
        for (long i : at) v[(size_t)i] = type[(size_t)i] == 2 ? k == i % 4 : i + 1000 * k;
        long m[2] = { k, 4 }, mm[2] = { 6, k + 1 };
        for (long i : at) if (i % 2) { if (type[(size_t)i] == 2) v[(size_t)i] = !v[(size_t)i]; else v[(size_t)i] += 5; }
        if (nested) for (long i : at) if (i % 3 == 0) { if (type[(size_t)i] == 2) v[(size_t)i] = !v[(size_t)i]; else v[(size_t)i]++; }
        if (arr) {
            s += m[1] + 9 + m[0] + mm[1] + 9 + mm[0];
            if (!copy) { m[1] += 9; mm[1] += 9; }
            s += m[1] + mm[1];
        }
        for (long i : at) s += v[(size_t)i];
        o.want += b(s) + "\n";
    }
    o.source = algol(t);
    return o;
}

// Activations with large arrays: parameters by name, arrays and loops far down the stack.
Sized piled(long depth, long width, Rng &r)
{
    if (width < 6) width = 6;
    if (depth < 1) depth = 1;
    const long lo = r.pick(vector<long>{ 0, 1, -3, -width + 6, 1000, -5000 }), hi = lo + width - 1;
    const bool real = r.chance(30);
    enum { SAME, LAST, FIRST, LOCAL } x = (decltype(SAME))r.below(4);
    const int bb = (int)r.below(3); // array given on: the same, its own, in turn
    const bool copies = r.chance(40) && width * depth < 40000, loops = r.chance(60), jump = r.chance(40);
    const string A = real ? "'real' 'array'" : "'integer' 'array'";
    auto el = [&](long i) { return b(lo + i); };
    const string W = b(hi);
    auto plus = [&](long k) { return k < 0 ? " - " + b(-k) : " + " + b(k); };
    string t = "'begin' 'integer' s, t; " + A + " z[" + b(lo) + " : " + W + "];\n"
        "'procedure' v(c); 'value' c; " + A + " c; 'begin' c[" + el(1) + "] := c[" + el(1) + "] + 1; s := s + c[" + el(1) + "] 'end';\n"
        "'procedure' h(n, x, b); 'value' n; 'integer' n; " + (real && (x == LAST || x == FIRST) ? "'real'" : "'integer'") + " x; " + A + " b;\n"
        "'begin' 'integer' i; " + A + " a[" + b(lo) + " : " + W + "];\n"
        "a[" + el(0) + "] := 1; a[" + el(1) + "] := n; a[" + W + "] := n + 2; i := 3;\n"
        "b[" + el(1) + "] := b[" + el(1) + "] + 1; x := x + 2;\n";
    if (loops) t += "'for' i := 2 'step' 1 'until' 4 'do' a[i" + plus(lo) + "] := a[i" + plus(lo - 1) + "] + 1;\n";
    string X = x == SAME ? "x" : x == LAST ? "a[" + W + "]" : x == FIRST ? "a[" + el(0) + "]" : "i";
    string call = "h(n - 1, " + X + ", ";
    if (bb < 2) t += "'if' n > 0 'then' " + call + (bb ? "a" : "b") + ")";
    else t += "'if' n > n ÷ 2 × 2 'then' " + call + "a) 'else' 'if' n > 0 'then' " + call + "b)";
    if (copies) t += ";\nv(a); v(b)";
    if (jump) t += ";\n'if' n = " + b(depth / 2) + " 'then' 'goto' out";
    t += ";\ns := s + a[" + el(0) + "] + a[" + el(1) + "] + a[" + W + "] + i" + (loops ? " + a[" + el(4) + "]" : "") + " 'end';\n"
        "s := 0; t := 1; z[" + el(0) + "] := 1; z[" + el(1) + "] := 2; z[" + W + "] := 3;\n"
        "'for' t := 1 'step' 1 'until' " + b(width) + " 'do' z[t" + plus(lo - 1) + "] := t; t := 1;\n"
        "h(" + b(depth) + ", " + (x == SAME || x == LOCAL ? "t" : "z[" + el(2) + "]") + ", z); s := s + 100000;\n"
        "out: print(s, t); NLCR; s := z[" + el(1) + "] + z[" + el(2) + "]; print(s); NLCR 'end'\n";
    if (copies) {
        // copied whole: all elements need values
        const string need = "i := 3;\n";
        t.insert(t.find(need), "'for' i := " + b(lo) + " 'step' 1 'until' " + W + " 'do' a[i] := 1; a[" + el(1) + "] := n; a[" + W + "] := n + 2; ");
    }
    // the same, here
    struct Fr { long e0 = 1, e1, e2 = 0, e3 = 0, e4 = 0, w, i = 3; };
    long s = 0, T = 1, zz[3] = { 1, 2, 3 };
    vector<Fr> f((size_t)depth + 1);
    bool out = false;
    std::function<void(long, long *, long *)> h = [&](long n, long *xp, long *bp) {
        Fr &a = f[(size_t)n];
        a.e1 = n; a.w = n + 2;
        *bp += 1;
        *xp += 2;
        if (loops) { a.e2 = a.e1 + 1; a.e3 = a.e2 + 1; a.e4 = a.e3 + 1; a.i = 5; }
        long *nx = x == SAME ? xp : x == LAST ? &a.w : x == FIRST ? &a.e0 : &a.i;
        long *nb = bb == 0 ? bp : bb == 1 ? &a.e1 : n % 2 ? &a.e1 : bp;
        if (n > 0) h(n - 1, nx, nb);
        if (out) return;
        if (copies) { s += a.e1 + 1; s += *bp + 1; }
        if (jump && n == depth / 2) { out = true; return; }
        s += a.e0 + a.e1 + a.w + a.i + (loops ? a.e4 : 0);
    };
    long *t0 = x == SAME || x == LOCAL ? &T : &zz[2];
    h(depth, t0, &zz[1]);
    if (!out) s += 100000;
    Sized o;
    o.want = b(s) + " " + b(T) + "\n" + b(zz[1] + zz[2]) + "\n";
    o.source = algol(t);
    return o;
}

// Labels, procedures, switches and constants, each used far from where it stands.
Sized sprawling(long n, Rng &r)
{
    if (n < 2) n = 2;
    // a tour through n stations in an order of its own; each station adds a constant, calls a procedure or asks a switch
    vector<long> order;
    for (long i = 0; i < n; i++) order.push_back(i);
    for (long i = n; i-- > 1;) std::swap(order[(size_t)i], order[r.below((uint64_t)i + 1)]);
    vector<long> next((size_t)n, -1);
    for (long i = 0; i + 1 < n; i++) next[(size_t)order[(size_t)i]] = order[(size_t)i + 1];
    const long np = r.range(1, std::max(1l, n / 4)), nsw = r.range(1, 8);
    vector<long> pc;
    for (long i = 0; i < np; i++) pc.push_back(r.range(1, 400));
    vector<vector<long>> sw((size_t)nsw);
    vector<long> kind((size_t)n), arg((size_t)n), via((size_t)n, -1), slot((size_t)n);
    for (long i = 0; i < n; i++) {
        kind[(size_t)i] = r.range(0, 3);
        arg[(size_t)i] = kind[(size_t)i] == 1 ? r.range(0, np - 1) : r.chance(30) ? r.range(32000, 66000) : r.range(1, 3000);
        if (next[(size_t)i] >= 0 && r.chance(25)) {
            long k = r.range(0, nsw - 1);
            if (sw[(size_t)k].size() < 20) { via[(size_t)i] = k; sw[(size_t)k].push_back(next[(size_t)i]); slot[(size_t)i] = (long)sw[(size_t)k].size(); }
        }
    }
    string t = "'begin' 'integer' s, c; 'real' x;\n";
    for (long k = 0; k < nsw; k++) if (!sw[(size_t)k].empty()) {
        t += "'switch' " + id("w", k) + " := ";
        for (size_t i = 0; i < sw[(size_t)k].size(); i++) t += (i ? ", " : "") + id("l", sw[(size_t)k][i]);
        t += ";\n";
    }
    for (long i = 0; i < np; i++) t += (i % 3 == 2 ? "'procedure' " + id("p", i) + "; 'begin' s := s + " + b(pc[(size_t)i]) + "; c := c + 1; 'if' s > 30000000 'then' s := s - 30000000 'end'" : "'procedure' " + id("p", i) + "; s := s + " + b(pc[(size_t)i])) + ";\n";
    t += "s := 0; c := 0; 'goto' " + id("l", order[0]) + ";\n";
    for (long i = 0; i < n; i++) {
        t += id("l", i) + ": ";
        switch (kind[(size_t)i]) {
        case 0: case 3: t += "s := s + " + b(arg[(size_t)i]); break;
        case 1: t += id("p", arg[(size_t)i]); break;
        default: t += "x := " + b(arg[(size_t)i]) + ".5; s := s + entier(x)"; break;
        }
        t += "; ";
        if (next[(size_t)i] < 0) t += "'goto' done";
        else if (via[(size_t)i] >= 0) t += "'goto' " + id("w", via[(size_t)i]) + "[" + b(slot[(size_t)i]) + "]";
        else if (next[(size_t)i] == i + 1 && r.chance(50)) { t += "\n"; continue; }
        else t += "'goto' " + id("l", next[(size_t)i]);
        t += ";\n";
    }
    t += "done: print(s, c); NLCR 'end'\n";
    long s = 0, c = 0;
    for (long i : order)
        if (kind[(size_t)i] == 1) { s += pc[(size_t)arg[(size_t)i]]; if (arg[(size_t)i] % 3 == 2) { c++; if (s > 30000000) s -= 30000000; } }
        else s += arg[(size_t)i];
    Sized o;
    o.want = b(s) + " " + b(c) + "\n";
    o.source = algol(t);
    return o;
}

// Arrays of up to six dimensions and n elements, their bounds computed; corners, neighbours of powers of two and other
// elements are stored, seen by a procedure by name or in a copy (of another type), and summed.
Sized vast(long n, Rng &r)
{
    if (n < 8) n = 8;
    const int dims = (int)r.range(1, n > 64 ? 6 : 3);
    vector<long> size((size_t)dims, 1), lo((size_t)dims);
    long all = 1;
    for (int k = 0; k < dims; k++) {
        const long rest = n / all;
        long w = k == dims - 1 ? rest : r.chance(15) ? 1 : r.range(1, std::max(1l, (long)std::pow((double)rest, 1.0 / (dims - k)) * (r.chance(20) ? 3 : 1)));
        if (w > rest) w = rest;
        if (w < 1) w = 1;
        size[(size_t)k] = w;
        all *= w;
    }
    for (size_t k = size.size(); k > 1; k--) std::swap(size[k - 1], size[r.below(k)]);
    for (int k = 0; k < dims; k++) lo[(size_t)k] = r.pick(vector<long>{ 0, 1, -1, -size[(size_t)k], -size[(size_t)k] + 1, 100, -7, r.range(-500, 500) });
    const int type = (int)r.below(3); // integer, real, Boolean
    static const char *T[] = { "'integer' 'array' ", "'array' ", "'boolean' 'array' " };
    const bool copy = dims <= 5 && all * (type == 1 ? 2 : 1) <= 32000 && all <= 9000 && r.chance(60);
    const int seen = copy && type < 2 && r.chance(60) ? 1 - type : type;
    const bool two = r.chance(50), joint = two && r.chance(50), proc = r.chance(40);
    vector<vector<long>> at;
    auto place = [&](long p) { vector<long> v((size_t)dims); for (int k = dims; k-- > 0;) { v[(size_t)k] = p % size[(size_t)k]; p /= size[(size_t)k]; } return v; };
    std::vector<long> ps = { 0, all - 1 };
    for (long p = 2; p < all; p *= 2) { if (r.chance(30)) ps.push_back(p - 1); if (r.chance(30)) ps.push_back(p); }
    for (int k = 0; k < 4; k++) ps.push_back(r.range(0, all - 1));
    std::sort(ps.begin(), ps.end());
    ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
    for (long p : ps) at.push_back(place(p));
    auto el = [&](const char *a, const vector<long> &v) { string t = string(a) + "["; for (int k = 0; k < dims; k++) t += (k ? ", " : "") + b(lo[(size_t)k] + v[(size_t)k]); return t + "]"; };
    auto val = [&](long v) { return type == 2 ? string(v % 2 ? "'true'" : "'false'") : b(v) + (type == 1 ? ".25" : ""); };
    auto sum = [&](const char *a, const vector<long> &v, int ty) { return ty == 2 ? "'if' " + el(a, v) + " 'then' s := s + 4;\n" : "s := s + " + el(a, v) + " × 4;\n"; };
    auto worth = [&](long v, int ty) { return ty == 2 ? v % 2 * 4 : ty == 1 ? 4 * v + 1 : 4 * v; };
    // what was integer arrives without a fraction
    auto given = [&](long v) { return type == 2 ? v % 2 * 4 : type == 1 && seen == 1 ? 4 * v + 1 : 4 * v; };
    long s = 0;
    string t = "'begin' 'integer' s";
    for (int k = 0; k < dims; k++) t += ", " + id("l", k) + ", " + id("u", k) + ", " + id("i", k);
    t += ";\n'procedure' see(c); " + string(copy ? "'value' c; " : "") + T[seen] + "c;\n'begin' ";
    for (auto &v : at) t += sum("c", v, seen);
    t += el("c", at[0]) + " := " + (seen == 2 ? "'true'" : "5") + "; " + sum("c", at[0], seen) + (at.size() > 1 ? sum("c", at.back(), seen) : string()) + "s := s + 1 'end';\n";
    string bounds;
    for (int k = 0; k < dims; k++) bounds += (k ? ", " : "") + id("l", k) + " : " + id("u", k);
    string body = "'begin' " + string(T[type]) + "a[" + bounds + "]" + (joint ? string() : ";\n");
    string both = joint ? ", b[" + bounds + "];\n" : two ? string(T[type]) + "b[" + bounds + "];\n" : string();
    if (joint) { body = "'begin' " + string(T[type]) + "a, b[" + bounds + "];\n"; both.clear(); }
    body += both;
    if (copy) {
        for (int k = 0; k < dims; k++) body += "'for' " + id("i", k) + " := " + id("l", k) + " 'step' 1 'until' " + id("u", k) + " 'do' ";
        body += "a[";
        for (int k = 0; k < dims; k++) body += (k ? ", " : "") + id("i", k);
        body += "] := " + val(2) + ";\n";
    }
    vector<long> A(at.size()), B(at.size());
    for (size_t i = 0; i < at.size(); i++) { A[i] = r.range(1, 900); body += el("a", at[i]) + " := " + val(A[i]) + ";\n"; }
    if (two) for (size_t i = 0; i < at.size(); i++) { B[i] = r.range(1, 900); body += el("b", at[i]) + " := " + val(B[i]) + ";\n"; }
    body += "see(a);\n";
    for (size_t i = 0; i < at.size(); i++) s += given(A[i]);
    // the first element is 5 there
    s += seen == 2 ? 4 : 20;
    if (at.size() > 1) s += given(A.back());
    s += 1;
    for (size_t i = 0; i < at.size(); i++) {
        body += sum("a", at[i], type);
        s += !copy && i == 0 ? (type == 2 ? 4 : 20) : worth(A[i], type);
        if (two) { body += sum("b", at[i], type); s += worth(B[i], type); }
    }
    body += "print(s); NLCR 'end'";
    if (proc) t += "'procedure' p; " + body + ";\n";
    t += "s := 0;\n";
    for (int k = 0; k < dims; k++) t += id("l", k) + " := " + b(lo[(size_t)k]) + "; " + id("u", k) + " := " + b(lo[(size_t)k] + size[(size_t)k] - 1) + ";\n";
    t += (proc ? "p" : body) + " 'end'\n";
    Sized o;
    o.want = b(s) + "\n";
    o.source = algol(t);
    return o;
}
