// Well-known programs with seeded data, each with the same algorithm in C++: deep chains of parameters called by name,
// environments kept alive by recursion, jumps out of many activations, arrays of arrays of work.
#include "classics.h"
#include <algorithm>
#include <functional>

namespace {
using std::string;
using std::vector;
struct Out {
    string s;
    Out &operator<<(long v) { s += std::to_string(v) + "\n"; return *this; }
};
string b(long v) { return v < 0 ? "-" + std::to_string(-v) : std::to_string(v); }
// Numbers come from the program or from the input.
struct Data {
    Rng &r;
    bool read;
    string in;
    string give(const string &var, long v)
    {
        if (!read) return var + " := " + b(v) + "; ";
        static const vector<string> sep = { " ", "\n", "  ", "\n\n", " \n" };
        in += b(v) + r.pick(sep);
        return var + " := read; ";
    }
    string fill(const string &arr, long from, const vector<long> &v)
    {
        string o;
        if (read) {
            o = "'for' ii := " + b(from) + " 'step' 1 'until' " + b(from + (long)v.size() - 1) + " 'do' " + arr + "[ii] := read; ";
            for (long x : v) in += b(x) + (r.chance(30) ? "\n" : " ");
            return o;
        }
        for (size_t i = 0; i < v.size(); i++) o += arr + "[" + b(from + (long)i) + "] := " + b(v[i]) + "; ";
        return o;
    }
};

// ------------------------------------------------------------------ procedures and parameters
Classic man_or_boy(Rng &r)
{
    long k = r.range(0, 10), lim = r.range(0, 1), x[5];
    for (auto &v : x) v = r.range(-3, 3);
    if (lim == 1 && k > 9) k = 9;
    const bool sw = r.chance(50);
    using F = std::function<long()>;
    std::function<long(long, F, F, F, F, F)> A = [&](long k, F a1, F a2, F a3, F a4, F a5) -> long {
        F B = [&]() -> long { k--; return A(k, B, a1, a2, a3, a4); };
        return k <= -lim ? a4() + a5() : B();
    };
    auto c = [](long v) { return F([v] { return v; }); };
    Out o;
    o << A(k, c(x[0]), c(x[1]), c(x[2]), c(x[3]), c(x[4]));
    string t = "'begin' 'integer' 'procedure' A(k, x1, x2, x3, x4, x5); 'value' k; 'integer' k, x1, x2, x3, x4, x5;\n"
        "'begin' 'integer' 'procedure' B; 'begin' k := k - 1; " + string(sw ? "B := A := A(k, B, x1, x2, x3, x4)" : "A := B := A(k, B, x1, x2, x3, x4)") + " 'end';\n"
        "A := 'if' k ≤ " + b(-lim) + " 'then' x4 + x5 'else' B 'end';\n"
        "print(A(" + b(k) + ", " + b(x[0]) + ", " + b(x[1]) + ", " + b(x[2]) + ", " + b(x[3]) + ", " + b(x[4]) + ")); NLCR 'end'\n";
    return { "man or boy", t, o.s, "" };
}
Classic jensen(Rng &r)
{
    long lo = r.range(-2, 2), hi = lo + r.range(-1, 6), c1 = r.range(1, 5), c2 = r.range(0, 9), lo2 = r.range(0, 2);
    const bool down = r.chance(30), own_result = r.chance(50);
    // s(i, lo, hi, s(j, lo2, i, c1*i*j + c2 - s(k, 1, 2, k)))
    auto sum = [&](long a, long z, std::function<long(long)> f) { long t = 0; for (long i = a; i <= z; i++) t += f(i); return t; };
    Out o;
    o << sum(lo, hi, [&](long i) { return sum(lo2, i, [&](long j) { return c1 * i * j + c2 - sum(1, 2, [&](long k) { return k + i; }); }); });
    o << sum(lo, hi, [&](long i) { return i * i; });
    string t = "'begin' 'integer' i, j, k; 'integer' 'procedure' s(v, lo, hi, e); " + string(r.chance(50) ? "'value' lo, hi; " : r.chance(50) ? "'value' hi; " : "") + "'integer' v, lo, hi, e;\n"
        "'begin' 'integer' t; t := 0; 'for' v := " + (down ? "hi 'step' -1 'until' lo" : "lo 'step' 1 'until' hi") + " 'do' t := t + e; s := t 'end';\n"
        "print(s(i, " + b(lo) + ", " + b(hi) + ", s(j, " + b(lo2) + ", i, " + b(c1) + " × i × j + " + b(c2) + " - s(k, 1, 2, k + i)))); NLCR;\n"
        "print(s(" + (own_result ? "j" : "i") + ", " + b(lo) + ", " + b(hi) + ", " + (own_result ? "j × j" : "i × i") + ")); NLCR 'end'\n";
    return { "Jensen's device", t, o.s, "" };
}
Classic ackermann(Rng &r)
{
    long m = r.range(0, 2), k = r.range(0, m == 2 ? 5 : 12);
    std::function<long(long, long)> a = [&](long m, long q) -> long { return m == 0 ? q + 1 : q == 0 ? a(m - 1, 1) : a(m - 1, a(m, q - 1)); };
    // called by name the arguments are evaluated again and again: smaller ones
    const bool name = r.chance(30);
    if (name) { m = r.range(0, 1); k = r.range(0, 5); }
    Out o;
    o << a(m, k);
    string t = "'begin' 'integer' 'procedure' ack(m, q); " + string(name ? "" : "'value' m, q; ") + "'integer' m, q;\n"
        "ack := 'if' m = 0 'then' q + 1 'else' 'if' q = 0 'then' ack(m - 1, 1) 'else' ack(m - 1, ack(m, q - 1));\nprint(ack(" + b(m) + ", " + b(k) + ")); NLCR 'end'\n";
    return { "Ackermann", t, o.s, "" };
}
Classic tak(Rng &r)
{
    long x = r.range(0, 5), y = r.range(0, 4), z = r.range(0, 3);
    std::function<long(long, long, long)> f = [&](long x, long y, long z) -> long { return y < x ? f(f(x - 1, y, z), f(y - 1, z, x), f(z - 1, x, y)) : z; };
    Out o;
    o << f(x, y, z);
    string vals = r.chance(60) ? "'value' x, y, z; " : "'value' x, y; ";
    string t = "'begin' 'integer' 'procedure' tak(x, y, z); " + vals + "'integer' x, y, z;\n"
        "tak := 'if' y < x 'then' tak(tak(x - 1, y, z), tak(y - 1, z, x), tak(z - 1, x, y)) 'else' z;\nprint(tak(" + b(x) + ", " + b(y) + ", " + b(z) + ")); NLCR 'end'\n";
    return { "Takeuchi", t, o.s, "" };
}
Classic hanoi(Rng &r)
{
    long d = r.range(1, 5);
    Out o;
    long moves = 0;
    std::function<void(long, long, long, long)> h = [&](long k, long a, long bb, long c) { if (k) { h(k - 1, a, c, bb); moves++; o << a * 100 + bb * 10 + k; h(k - 1, c, bb, a); } };
    h(d, 1, 3, 2);
    o << moves;
    const bool name = r.chance(40);
    string t = "'begin' 'integer' moves; 'procedure' h(k, a, b, c); 'value' k" + string(name ? "" : ", a, b, c") + "; 'integer' k, a, b, c;\n"
        "'if' k > 0 'then' 'begin' h(k - 1, a, c, b); moves := moves + 1; print(a × 100 + b × 10 + k); NLCR; h(k - 1, c, b, a) 'end';\n"
        "moves := 0; h(" + b(d) + ", 1, 3, 2); print(moves); NLCR 'end'\n";
    return { "towers of Hanoi", t, o.s, "" };
}
Classic swap_by_name(Rng &r)
{
    // swap(i, a[i]) is not swap(a[i], i)
    long a[6], i = r.range(1, 5);
    Data d{ r, r.chance(50), "" };
    string t = "'begin' 'integer' i, ii; 'integer' 'array' a[1 : 5]; 'procedure' swap(x, y); 'integer' x, y; 'begin' 'integer' t; t := x; x := y; y := t 'end';\n"
        "'procedure' show; 'begin' print(i); NLCR; 'for' ii := 1 'step' 1 'until' 5 'do' 'begin' print(a[ii]); NLCR 'end' 'end';\n";
    vector<long> v;
    for (int k = 1; k <= 5; k++) { a[k] = r.range(1, 5); v.push_back(a[k]); }
    t += d.fill("a", 1, v);
    t += d.give("i", i);
    Out o;
    auto show = [&] { o << i; for (int k = 1; k <= 5; k++) o << a[k]; };
    for (long q = r.range(1, 6); q > 0; q--) {
        long u = r.range(1, 5);
        switch (r.below(4)) {
        case 0: { long w = i; i = a[i]; a[i] = w; t += "swap(i, a[i]); "; break; }
        case 1: { long w = a[i]; a[i] = i; i = w; t += "swap(a[i], i); "; break; }
        case 2: { long w = a[i]; a[i] = a[a[i]]; a[a[i]] = w; t += "swap(a[i], a[a[i]]); "; break; }
        default: { long w = a[u]; a[u] = a[i]; a[i] = w; t += "swap(a[" + b(u) + "], a[i]); "; break; }
        }
    }
    show();
    t += "show 'end'\n";
    return { "swap by name", t, o.s, d.in };
}
Classic continuations(Rng &r)
{
    // the factorial (or another fold) with its rest in procedures made on the way down
    long k = r.range(0, 10), c = r.range(1, 9), e = r.range(0, 3);
    Out o;
    std::function<void(long, std::function<void(long)>)> f = [&](long k, std::function<void(long)> ret) {
        if (k == 0) ret(c);
        else f(k - 1, [&, k](long v) { ret(e == 0 ? v + k : e == 1 ? 2 * v - k : e == 2 ? v * 3 - k * k : k - v); });
    };
    f(k, [&](long v) { o << v; });
    const char *step[] = { "v + k", "2 × v - k", "v × 3 - k × k", "k - v" };
    const bool value = r.chance(50);
    string t = "'begin' 'procedure' f(k, ret); 'value' k; 'integer' k; 'procedure' ret;\n"
        "'begin' 'procedure' next(v); " + string(value ? "'value' v; " : "") + "'integer' v; ret(" + step[e] + ");\n"
        "'if' k = 0 'then' ret(" + b(c) + ") 'else' f(k - 1, next) 'end';\n"
        "'procedure' done(v); 'integer' v; 'begin' print(v); NLCR 'end';\n"
        "f(" + b(k) + ", done) 'end'\n";
    return { "continuations", t, o.s, "" };
}
Classic composed(Rng &r)
{
    // functions that take functions: iterate(f, k, x), sums of them
    long k = r.range(0, 8), x = r.range(-9, 9), c = r.range(-5, 5);
    Out o;
    std::function<long(std::function<long(long)>, long, long)> it = [&](std::function<long(long)> f, long k, long x) -> long { return k == 0 ? x : f(it(f, k - 1, x)); };
    auto inc = [&](long v) { return v + c; };
    auto twist = [&](long v) { return c - 2 * v; };
    o << it(inc, k, x);
    o << it(twist, k, x);
    o << it([&](long v) { return it(inc, 2, it(twist, 1, v)); }, k > 5 ? 5 : k, x);
    string t = "'begin' 'integer' c; 'integer' 'procedure' it(f, k, x); 'value' k, x; 'integer' k, x; 'integer' 'procedure' f; it := 'if' k = 0 'then' x 'else' f(it(f, k - 1, x));\n"
        "'integer' 'procedure' inc(v); 'value' v; 'integer' v; inc := v + c;\n'integer' 'procedure' twist(v); 'value' v; 'integer' v; twist := c - 2 × v;\n"
        "'integer' 'procedure' both(v); 'value' v; 'integer' v; both := it(inc, 2, it(twist, 1, v));\n"
        "c := " + b(c) + "; print(it(inc, " + b(k) + ", " + b(x) + ")); NLCR; print(it(twist, " + b(k) + ", " + b(x) + ")); NLCR; print(it(both, " + b(k > 5 ? 5 : k) + ", " + b(x) + ")); NLCR 'end'\n";
    return { "functions of functions", t, o.s, "" };
}
Classic product_by_name(Rng &r)
{
    // a matrix product written in one expression
    long p = r.range(1, 4), q = r.range(1, 4), w = r.range(1, 3), off = r.range(-3, 2);
    vector<vector<long>> a(p, vector<long>(q)), bb(q, vector<long>(w));
    Data d{ r, r.chance(50), "" };
    string t = "'begin' 'integer' i, j, k, z; 'integer' 'array' a[" + b(off) + " : " + b(off + p - 1) + ", 1 : " + b(q) + "], b[1 : " + b(q) + ", 0 : " + b(w - 1) + "], c[" + b(off) + " : " + b(off + p - 1) + ", 0 : " + b(w - 1) + "];\n"
        "'integer' 'procedure' gps(i, lo, hi, z, v); 'value' lo, hi; 'integer' i, lo, hi, z, v; 'begin' 'for' i := lo 'step' 1 'until' hi 'do' z := v; gps := 1 'end';\n"
        "'integer' 'procedure' dot(k, lo, hi, x, y); 'value' lo, hi; 'integer' k, lo, hi, x, y; 'begin' 'integer' s; s := 0; 'for' k := lo 'step' 1 'until' hi 'do' s := s + x × y; dot := s 'end';\n";
    for (long i = 0; i < p; i++) for (long j = 0; j < q; j++) { a[i][j] = r.range(-9, 9); t += d.give("a[" + b(off + i) + ", " + b(j + 1) + "]", a[i][j]); }
    for (long i = 0; i < q; i++) for (long j = 0; j < w; j++) { bb[i][j] = r.range(-9, 9); t += d.give("b[" + b(i + 1) + ", " + b(j) + "]", bb[i][j]); }
    t += "\nz := gps(i, " + b(off) + ", " + b(off + p - 1) + ", z, gps(j, 0, " + b(w - 1) + ", c[i, j], dot(k, 1, " + b(q) + ", a[i, k], b[k, j])));\n";
    t += "'for' i := " + b(off) + " 'step' 1 'until' " + b(off + p - 1) + " 'do' 'for' j := 0 'step' 1 'until' " + b(w - 1) + " 'do' 'begin' print(c[i, j]); NLCR 'end' 'end'\n";
    Out o;
    for (long i = 0; i < p; i++) for (long j = 0; j < w; j++) { long s = 0; for (long k = 0; k < q; k++) s += a[i][k] * bb[k][j]; o << s; }
    return { "product by name", t, o.s, d.in };
}
// ------------------------------------------------------------------ jumps
Classic unwinding(Rng &r)
{
    // down to a depth, and from there by a jump to the label of some activation on the way
    long depth = r.range(1, 30), to = r.range(0, depth), every = r.range(1, 4);
    Out o;
    string t = "'begin' 'integer' depth, to; 'procedure' p(k, lab); 'value' k; 'integer' k; 'label' lab;\n"
        "'begin' 'integer' mine; mine := k; 'if' k = depth 'then' 'goto' lab;\n"
        "'if' k = to 'then' p(k + 1, here) 'else' p(k + 1, lab); print(1000 + mine); NLCR; 'goto' over;\n"
        "here: print(2000 + mine); NLCR; over: 'if' mine = mine ÷ " + b(every) + " × " + b(every) + " 'then' 'begin' print(k); NLCR 'end' 'end';\n"
        "depth := " + b(depth) + "; to := " + b(to) + "; p(0, out); PRINTTEXT(`back'); NLCR; 'goto' fin; out: PRINTTEXT(`out'); NLCR; fin: 'end'\n";
    // the model: frame by frame
    if (to < depth) {
        o << 2000 + to;
        if (to % every == 0) o << to;
        for (long k = to - 1; k >= 0; k--) { o << 1000 + k; if (k % every == 0) o << k; }
        o.s += "back\n";
    } else o.s += "out\n";
    return { "jump out of a recursion", t, o.s, "" };
}
Classic queens(Rng &r)
{
    long q = r.range(1, 6), first = r.range(1, q);
    vector<long> col(q + 1);
    long count = 0;
    Out o;
    // all solutions whose first queen is in or after column first
    std::function<void(long)> put = [&](long row) {
        if (row > q) { count++; if (count == 1) for (long i = 1; i <= q; i++) o << col[i]; return; }
        for (long c = row == 1 ? first : 1; c <= q; c++) {
            bool ok = true;
            for (long i = 1; i < row; i++) if (col[i] == c || col[i] - c == row - i || c - col[i] == row - i) ok = false;
            if (ok) { col[row] = c; put(row + 1); }
        }
    };
    put(1);
    o << count;
    string t = "'begin' 'integer' q, row, i, count; 'integer' 'array' col[0 : " + b(q + 1) + "];\n"
        "q := " + b(q) + "; count := 0; row := 1; col[1] := " + b(first - 1) + ";\n"
        "try: col[row] := col[row] + 1; 'if' col[row] > q 'then' 'goto' retreat;\n"
        "'for' i := 1 'step' 1 'until' row - 1 'do' 'if' col[i] = col[row] ∨ abs(col[i] - col[row]) = row - i 'then' 'goto' try;\n"
        "'if' row < q 'then' 'begin' row := row + 1; col[row] := 0; 'goto' try 'end';\n"
        "count := count + 1; 'if' count = 1 'then' 'for' i := 1 'step' 1 'until' q 'do' 'begin' print(col[i]); NLCR 'end'; 'goto' try;\n"
        "retreat: row := row - 1; 'if' row > 0 'then' 'goto' try; print(count); NLCR 'end'\n";
    return { "queens", t, o.s, "" };
}
Classic automaton(Rng &r)
{
    // a machine whose states are labels, chosen by a switch; words of the input drive it
    long st = r.range(2, 5), len = r.range(0, 25);
    vector<vector<long>> next(st + 1, vector<long>(3));
    string t = "'begin' 'integer' x, c, s; 'integer' 'array' cnt[1 : " + b(st) + "]; 'switch' go := ";
    for (long i = 1; i <= st; i++) t += (i > 1 ? ", " : "") + (i % 3 == 2 ? "'if' c < 1000 'then' L" + b(i) + " 'else' fin" : "L" + b(i));
    t += ";\nc := 0; 'for' s := 1 'step' 1 'until' " + b(st) + " 'do' cnt[s] := 0; s := 1;\nloop: x := read; c := c + 1; 'if' x = 9 'then' 'goto' fin; 'goto' go[s];\n";
    for (long i = 1; i <= st; i++) {
        for (auto &v : next[i]) v = r.range(1, st);
        t += "L" + b(i) + ": cnt[" + b(i) + "] := cnt[" + b(i) + "] + 1; ";
        if (r.chance(50)) t += "s := 'if' x = 0 'then' " + b(next[i][0]) + " 'else' 'if' x = 1 'then' " + b(next[i][1]) + " 'else' " + b(next[i][2]) + "; 'goto' loop;\n";
        else t += "'begin' 'integer' y; y := x; s := " + b(next[i][2]) + "; 'if' y = 0 'then' s := " + b(next[i][0]) + "; 'if' y = 1 'then' s := " + b(next[i][1]) + "; 'goto' loop 'end';\n";
    }
    t += "fin: print(s); NLCR; print(c); NLCR; 'for' s := 1 'step' 1 'until' " + b(st) + " 'do' 'begin' print(cnt[s]); NLCR 'end' 'end'\n";
    string in;
    vector<long> cnt(st + 1);
    long s = 1, c = 0;
    for (long i = 0; i < len; i++) { long x = r.range(0, 2); in += b(x) + (r.chance(50) ? " " : "\n"); c++; cnt[s]++; s = next[s][x]; }
    in += "9\n";
    c++;
    Out o;
    o << s << c;
    for (long i = 1; i <= st; i++) o << cnt[i];
    return { "automaton", t, o.s, in };
}
Classic search(Rng &r)
{
    // subsets with a given sum, found by recursion and left by a jump from the innermost activation
    long k = r.range(1, 8), target = r.range(0, 40);
    vector<long> w(k + 1), v;
    for (long i = 1; i <= k; i++) { w[i] = r.range(1, 15); v.push_back(w[i]); }
    Data d{ r, r.chance(60), "" };
    vector<long> taken(k + 1);
    Out o;
    std::function<bool(long, long)> go = [&](long i, long left) -> bool {
        if (left == 0) return true;
        if (i > k || left < 0) return false;
        taken[i] = 1; if (go(i + 1, left - w[i])) return true;
        taken[i] = 0; return go(i + 1, left);
    };
    const bool ok = go(1, target);
    o << (ok ? 1 : 0);
    if (ok) for (long i = 1; i <= k; i++) o << taken[i];
    const bool formal = r.chance(60);
    const string aim = d.give("target", target), values = d.fill("w", 1, v);
    string t = "'begin' 'integer' k, ii, target; k := " + b(k) + "; " + aim + "\n'begin' 'integer' 'array' w, taken[1 : k];\n"
        "'procedure' go(i, left" + (formal ? ", found" : "") + "); 'value' i, left; 'integer' i, left; " + (formal ? "'label' found; " : "") + "\n"
        "'begin' 'if' left = 0 'then' 'goto' found; 'if' i ≤ k ∧ left > 0 'then' 'begin' taken[i] := 1; go(i + 1, left - w[i]" + (formal ? ", found" : "") + "); taken[i] := 0; go(i + 1, left" + (formal ? ", found" : "") + ") 'end' 'end';\n"
        + values + "'for' ii := 1 'step' 1 'until' k 'do' taken[ii] := 0; go(1, target" + (formal ? ", found" : "") + "); print(0); NLCR; 'goto' fin;\n"
        "found: print(1); NLCR; 'for' ii := 1 'step' 1 'until' k 'do' 'begin' print(taken[ii]); NLCR 'end'; fin: 'end' 'end'\n";
    return { "search left by a jump", t, o.s, d.in };
}
// ------------------------------------------------------------------ arrays
Classic sorting(Rng &r)
{
    long k = r.range(1, 14), lo = r.range(-5, 5);
    vector<long> v;
    for (long i = 0; i < k; i++) v.push_back(r.range(-99, 99));
    Data d{ r, r.chance(60), "" };
    Out o;
    vector<long> w = v;
    std::sort(w.begin(), w.end());
    for (long x : w) o << x;
    string body;
    switch (r.below(4)) {
    case 0:
        body = "'procedure' sort(a, m, q); 'value' m, q; 'integer' m, q; 'integer' 'array' a; 'if' m < q 'then' 'begin' 'integer' i, j, x; i := m; j := q; x := a[(m + q + 1000) ÷ 2 - 500];\n"
            "loop: 'if' a[i] < x 'then' 'begin' i := i + 1; 'goto' loop 'end'; l2: 'if' x < a[j] 'then' 'begin' j := j - 1; 'goto' l2 'end';\n"
            "'if' i ≤ j 'then' 'begin' swap(a[i], a[j]); i := i + 1; j := j - 1 'end'; 'if' i ≤ j 'then' 'goto' loop; sort(a, m, j); sort(a, i, q) 'end';\n";
        break;
    case 1:
        body = "'procedure' sort(a, m, q); 'value' m, q; 'integer' m, q; 'integer' 'array' a; 'begin' 'integer' i, j; 'for' i := m 'step' 1 'until' q - 1 'do' 'for' j := q 'step' -1 'until' i + 1 'do' 'if' a[j - 1] > a[j] 'then' swap(a[j - 1], a[j]) 'end';\n";
        break;
    case 2:
        body = "'procedure' sort(a, m, q); 'integer' m, q; 'integer' 'array' a; 'begin' 'integer' i, j, x; 'for' i := m + 1 'step' 1 'until' q 'do' 'begin' x := a[i]; j := i - 1;\n"
            "'for' j := j 'while' j ≥ m 'do' 'begin' 'if' a[j] ≤ x 'then' 'goto' put; a[j + 1] := a[j]; j := j - 1 'end'; put: a[j + 1] := x 'end' 'end';\n";
        break;
    default: // merging through a local array of the size needed
        body = "'procedure' sort(a, m, q); 'value' m, q; 'integer' m, q; 'integer' 'array' a; 'if' m < q 'then' 'begin' 'integer' h, i, j, z; 'integer' 'array' c[m : q]; h := m + (q - m) ÷ 2; sort(a, m, h); sort(a, h + 1, q); i := m; j := h + 1;\n"
            "'for' z := m 'step' 1 'until' q 'do' 'begin' 'if' j > q 'then' 'goto' left; 'if' i > h 'then' 'goto' right; 'if' a[i] > a[j] 'then' 'goto' right; left: c[z] := a[i]; i := i + 1; 'goto' over; right: c[z] := a[j]; j := j + 1; over: 'end';\n"
            "'for' z := m 'step' 1 'until' q 'do' a[z] := c[z] 'end';\n";
    }
    const string limit = d.give("hi", lo + k - 1), values = d.fill("v", lo, v);
    string t = "'begin' 'integer' ii, lo, hi; lo := " + b(lo) + "; " + limit + "\n'begin' 'integer' 'array' v[lo : hi]; 'procedure' swap(x, y); 'integer' x, y; 'begin' 'integer' t; t := x; x := y; y := t 'end';\n"
        + body + values + "sort(v, lo, hi); 'for' ii := lo 'step' 1 'until' hi 'do' 'begin' print(v[ii]); NLCR 'end' 'end' 'end'\n";
    return { "sorting", t, o.s, d.in };
}
Classic determinant(Rng &r)
{
    // by minors: local arrays whose size depends on the depth
    long k = r.range(1, 4);
    vector<vector<long>> a(k, vector<long>(k));
    Data d{ r, r.chance(50), "" };
    string fill;
    for (long i = 0; i < k; i++) for (long j = 0; j < k; j++) { a[i][j] = r.range(-6, 6); fill += d.give("a[" + b(i + 1) + ", " + b(j + 1) + "]", a[i][j]); }
    std::function<long(vector<vector<long>>)> det = [&](vector<vector<long>> m) -> long {
        if (m.size() == 1) return m[0][0];
        long s = 0;
        for (size_t c = 0; c < m.size(); c++) {
            vector<vector<long>> x;
            for (size_t i = 1; i < m.size(); i++) { vector<long> row; for (size_t j = 0; j < m.size(); j++) if (j != c) row.push_back(m[i][j]); x.push_back(row); }
            s += (c % 2 ? -1 : 1) * m[0][c] * det(x);
        }
        return s;
    };
    Out o;
    o << det(a);
    for (long i = 0; i < k; i++) for (long j = 0; j < k; j++) o << a[i][j];
    const bool value = r.chance(50);
    string t = "'begin' 'integer' i, j; 'integer' 'array' a[1 : " + b(k) + ", 1 : " + b(k) + "];\n"
        "'integer' 'procedure' det(a, k); 'value' k" + string(value ? ", a" : "") + "; 'integer' k; 'integer' 'array' a;\n"
        "'if' k = 1 'then' det := a[1, 1] 'else' 'begin' 'integer' i, j, c, s, sg; 'integer' 'array' m[1 : k - 1, 1 : k - 1]; s := 0; sg := 1;\n"
        "'for' c := 1 'step' 1 'until' k 'do' 'begin' 'for' i := 2 'step' 1 'until' k 'do' 'for' j := 1 'step' 1 'until' k 'do' 'if' j < c 'then' m[i - 1, j] := a[i, j] 'else' 'if' j > c 'then' m[i - 1, j - 1] := a[i, j];\n"
        "s := s + sg × a[1, c] × det(m, k - 1); sg := -sg 'end'; " + (value ? "a[1, 1] := 99; " : "") + "det := s 'end';\n"
        + fill + "print(det(a, " + b(k) + ")); NLCR; 'for' i := 1 'step' 1 'until' " + b(k) + " 'do' 'for' j := 1 'step' 1 'until' " + b(k) + " 'do' 'begin' print(a[i, j]); NLCR 'end' 'end'\n";
    return { "determinant", t, o.s, d.in };
}
Classic sieve(Rng &r)
{
    long k = r.range(2, 90);
    Out o;
    vector<bool> c(k + 1);
    for (long i = 2; i <= k; i++) if (!c[i]) { o << i; for (long j = i * i; j <= k; j += i) c[j] = true; }
    string t = "'begin' 'integer' i, j; 'boolean' 'array' c[2 : " + b(k) + "]; 'for' i := 2 'step' 1 'until' " + b(k) + " 'do' c[i] := 'false';\n"
        "'for' i := 2 'step' 1 'until' " + b(k) + " 'do' 'if' ¬ c[i] 'then' 'begin' print(i); NLCR; 'for' j := i × i 'step' i 'until' " + b(k) + " 'do' c[j] := 'true' 'end' 'end'\n";
    return { "sieve", t, o.s, "" };
}
Classic paths(Rng &r)
{
    // shortest ways between all places
    long k = r.range(1, 5);
    vector<vector<long>> a(k, vector<long>(k));
    Data d{ r, r.chance(50), "" };
    string fill;
    for (long i = 0; i < k; i++) for (long j = 0; j < k; j++) { a[i][j] = i == j ? 0 : r.chance(40) ? 9999 : r.range(1, 50); fill += d.give("a[" + b(i) + ", " + b(j - 3) + "]", a[i][j]); }
    for (long m = 0; m < k; m++) for (long i = 0; i < k; i++) for (long j = 0; j < k; j++) a[i][j] = std::min(a[i][j], a[i][m] + a[m][j]);
    Out o;
    for (long i = 0; i < k; i++) for (long j = 0; j < k; j++) o << a[i][j];
    const bool fn = r.chance(50);
    string t = "'begin' 'integer' i, j, m; 'integer' 'array' a[0 : " + b(k - 1) + ", -3 : " + b(k - 4) + "]; 'integer' 'procedure' min(x, y); " + (r.chance(50) ? "'value' x, y; " : "") + "'integer' x, y; min := 'if' x < y 'then' x 'else' y;\n" + fill
        + "\n'for' m := 0 'step' 1 'until' " + b(k - 1) + " 'do' 'for' i := 0 'step' 1 'until' " + b(k - 1) + " 'do' 'for' j := 0 'step' 1 'until' " + b(k - 1) + " 'do' "
        + (fn ? "a[i, j - 3] := min(a[i, j - 3], a[i, m - 3] + a[m, j - 3])" : "'if' a[i, m - 3] + a[m, j - 3] < a[i, j - 3] 'then' a[i, j - 3] := a[i, m - 3] + a[m, j - 3]") + ";\n"
        "'for' i := 0 'step' 1 'until' " + b(k - 1) + " 'do' 'for' j := 0 'step' 1 'until' " + b(k - 1) + " 'do' 'begin' print(a[i, j - 3]); NLCR 'end' 'end'\n";
    return { "shortest ways", t, o.s, d.in };
}
Classic triangle(Rng &r)
{
    // own array: what a procedure keeps between its calls, also when calls are nested
    long k = r.range(1, 12), calls = r.range(1, 12);
    vector<long> row(13, 0);
    Out o;
    row[0] = 1;
    for (long c = 0; c < calls; c++) for (long i = k; i >= 1; i--) row[i] += row[i - 1];
    for (long i = 0; i <= k; i++) o << row[i];
    const bool rec = r.chance(50);
    string t = "'begin' 'integer' c; 'procedure' step(fresh, left); 'value' fresh, left; 'boolean' fresh; 'integer' left;\n"
        "'begin' 'own' 'integer' 'array' row[0 : 12]; 'integer' i; 'if' fresh 'then' 'begin' 'for' i := 0 'step' 1 'until' 12 'do' row[i] := 0; row[0] := 1 'end'\n"
        "'else' 'if' left > 0 'then' 'begin' 'for' i := " + b(k) + " 'step' -1 'until' 1 'do' row[i] := row[i] + row[i - 1]; " + (rec ? "step('false', left - 1)" : "") + " 'end'\n"
        "'else' 'for' i := 0 'step' 1 'until' " + b(k) + " 'do' 'begin' print(row[i]); NLCR 'end' 'end';\n"
        "step('true', 0); " + (rec ? "step('false', " + b(calls) + ")" : "'for' c := 1 'step' 1 'until' " + b(calls) + " 'do' step('false', 1); step('false', 0)") + " 'end'\n";
    return { "own array", t, o.s, "" };
}
Classic collatz(Rng &r)
{
    long from = r.range(1, 30), k = r.range(1, 8);
    Out o;
    for (long x = from; x < from + k; x++) { long s = 0, y = x; while (y != 1) { y = y % 2 ? 3 * y + 1 : y / 2; s++; } o << s; }
    const bool w = r.chance(50);
    string step = "y := 'if' y = y ÷ 2 × 2 'then' y ÷ 2 'else' 3 × y + 1";
    string t = "'begin' 'integer' x, y, s; 'for' x := " + b(from) + " 'step' 1 'until' " + b(from + k - 1) + " 'do' 'begin' s := 0; y := x;\n"
        + (w ? "'for' s := s 'while' y > 1 'do' 'begin' " + step + "; s := s + 1 'end'" : "again: 'if' y > 1 'then' 'begin' " + step + "; s := s + 1; 'goto' again 'end'")
        + "; print(s); NLCR 'end' 'end'\n";
    return { "Collatz", t, o.s, "" };
}
} // namespace

Classic classic(const string &prop, Rng &r)
{
    static const vector<Classic (*)(Rng &)> procs = { man_or_boy, jensen, ackermann, tak, hanoi, swap_by_name, continuations, composed, product_by_name },
        jumps = { unwinding, queens, automaton, search, unwinding, search, collatz }, arrays = { sorting, determinant, sieve, paths, triangle, sorting, product_by_name, queens, collatz };
    auto &l = prop == "C15" ? procs : prop == "C16" ? jumps : arrays;
    return r.pick(l)(r);
}
