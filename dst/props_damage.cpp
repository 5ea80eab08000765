// Damaged files, spellings, and the library assembler.
#include "oracle.h"
#include "templates.h"
#include <string.h>
#include <dirent.h>

static bool is_prefix(const std::string &a, const std::string &b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }
static const long PEAK = 400l << 20;
static Instance tool_instance(const std::string &exe, const std::vector<std::string> &args)
{
    Instance i = sim_instance(args);
    i.exe = exe;
    i.argv[0] = "/opt/x1/bin/" + exe;
    return i;
}
static std::string data_of(const Scenario &s, const std::string &path)
{
    for (auto &f : s.files) if (f.path == path) return f.data;
    return "";
}
static std::vector<std::string> lines_of(const std::string &t)
{
    std::vector<std::string> l;
    size_t p = 0;
    while (p < t.size()) {
        size_t e = t.find('\n', p);
        e = e == std::string::npos ? t.size() : e + 1;
        l.push_back(t.substr(p, e - p));
        p = e;
    }
    return l;
}
static std::string joined(const std::vector<std::string> &l)
{
    std::string o;
    for (auto &x : l) o += x;
    return o;
}
// What disks, cables and editors do to a file.
static std::string damage_bytes(Rng &r, std::string t, std::string &note)
{
    auto at = [&](size_t n) { return n ? (size_t)r.below(n) : 0; };
    switch (r.below(12)) {
    case 0: { size_t n = at(t.size() + 1); t.resize(n); note += "cut at byte " + std::to_string(n) + "; "; break; }
    case 1: { size_t p = at(t.size()); if (!t.empty()) t[p] ^= (char)(1 << r.below(8)); note += "flipped bit in byte " + std::to_string(p) + "; "; break; }
    case 2: { int n = (int)r.range(2, 20); for (int i = 0; i < n && !t.empty(); i++) t[at(t.size())] ^= (char)(1 << r.below(8)); note += "flipped bits; "; break; }
    case 3: { size_t p = at(t.size()); if (!t.empty()) t[p] = (char)r.below(256); note += "changed byte " + std::to_string(p) + "; "; break; }
    case 4: { size_t p = at(t.size() / 512 + 1) * 512, n = std::min<size_t>(512, t.size() - std::min(p, t.size())); for (size_t i = 0; i < n; i++) t[p + i] = 0; note += "zeroed sector; "; break; }
    case 5: { size_t p = at(t.size() + 1), n = 1 + at(40); t.erase(std::min(p, t.size()), n); note += "lost bytes; "; break; }
    case 6: { size_t p = at(t.size() + 1), q = at(t.size() + 1), n = 1 + at(40); t.insert(p, t.substr(q, n)); note += "inserted bytes; "; break; }
    case 7: {
        auto l = lines_of(t);
        if (l.size() > 1) { size_t a = at(l.size()), b = at(l.size()); std::swap(l[a], l[b]); }
        t = joined(l); note += "swapped lines; "; break;
    }
    case 8: {
        auto l = lines_of(t);
        if (!l.empty()) { size_t a = at(l.size()), n = 1 + at(5); for (size_t i = 0; i < n && a < l.size(); i++) l.erase(l.begin() + (long)a); }
        t = joined(l); note += "lost lines; "; break;
    }
    case 9: {
        auto l = lines_of(t);
        if (!l.empty()) { size_t a = at(l.size()), b = at(l.size()); l.insert(l.begin() + (long)a, l[b]); }
        t = joined(l); note += "doubled line; "; break;
    }
    case 10: { size_t p = at(t.size() / 512 + 1) * 512; t.resize(std::min(p, t.size())); note += "cut at a sector; "; break; }
    case 11: {
        std::string junk;
        size_t n = 1 + at(300);
        bool text = r.chance(50);
        for (size_t i = 0; i < n; i++) junk += text ? (char)r.range(32, 126) : (char)r.below(256);
        size_t p = at(t.size() + 1);
        if (r.chance(50)) t.insert(p, junk); else t.replace(p, std::min(n, t.size() - p), junk);
        note += "junk; ";
        break;
    }
    }
    return t;
}

// ---------------------------------------------------------------------- C12
static Verdict check12(const Scenario &s)
{
    Verdict v;
    RunResult r = sim(s, &v);
    auto &i = r.inst[0];
    nontrivial(r.hash);
    if (i.how == "hang") probe("loops for ever");
    else if (i.how == "blocked") return blame(v, "hang", "waits although its input has ended: " + end_of(i));
    else if (!contained(v, s, r, 0)) return v;
    else probe(i.ok() ? "ran to an end" : i.out.empty() ? "refused" : "stopped");
    for (auto &e : r.peak) if (e.second > PEAK) return blame(v, "memory", e.first + fmt(" used %ld bytes of memory", e.second));
    // it reads its object program, its input and the clock, and touches nothing else
    for (auto &e : r.ev) {
        if (e.op == "fork" || e.op == "exec" || e.op == "unlink" || e.op == "rename" || e.op == "mkdir") return blame(v, "escape", "a damaged object program made x1sim " + e.op + " " + e.info);
        if (e.op == "write" && e.cls != "stdout" && e.cls != "stderr" && e.cls != "trace") return blame(v, "escape", "a damaged object program made x1sim write to " + e.cls);
    }
    auto f = r.files.find("/w/t.x1");
    if (f == r.files.end() || f->second != data_of(s, "/w/t.x1")) return blame(v, "escape", "the object file was changed");
    return v;
}
static std::string damage_words(Rng &r, const std::string &t, std::string &note)
{
    auto l = lines_of(t);
    std::vector<size_t> words, entries, symbols;
    for (size_t k = 0; k < l.size(); k++) {
        unsigned a, b, c;
        char x;
        if (sscanf(l[k].c_str(), "%u %u %u %c", &a, &b, &c, &x) == 3) entries.push_back(k);
        else if (l[k][0] != '\n' && sscanf(l[k].c_str(), "%u %u %c", &a, &b, &x) == 2) words.push_back(k);
        else if (l[k].size() > 3) symbols.push_back(k);
    }
    if (words.empty()) return t;
    int n = (int)r.range(1, r.chance(70) ? 2 : 30);
    for (int j = 0; j < n; j++) {
        size_t k = words[r.below(words.size())];
        unsigned a, w;
        if (sscanf(l[k].c_str(), "%u %u", &a, &w) != 2) continue;
        switch (r.below(12)) {
        case 0: w ^= 1u << r.below(27); note += "bit; "; break;
        case 1: w = (unsigned)r.below(1u << 27); note += "word; "; break;
        case 2: w = (w & ~32767u) | (unsigned)r.below(32768); note += "address part; "; break;
        case 3: w = (w & 32767u) | (unsigned)r.below(1u << 27); note += "operation; "; break;
        case 4: w = 32768u * (unsigned)r.below(4096) + (unsigned)r.range(0, 120); note += "operation with small address; "; break;
        case 5: w = (unsigned)r.below(130); note += "other OPC; "; break;
        case 6: w = 0; note += "zero; "; break;
        case 7: w = (1u << 27) - 1 - (unsigned)r.below(3); note += "ones; "; break;
        case 8: w = r.chance(50) ? (unsigned)r.below(1ull << 32) : 4294967295u; note += "too large a word; "; break;
        case 9: a = r.chance(50) ? (unsigned)r.below(32768) : (unsigned)r.below(1ull << 32); note += "stored elsewhere; "; break;
        case 10: { size_t q = words[r.below(words.size())]; unsigned b, x; if (sscanf(l[q].c_str(), "%u %u", &b, &x) == 2) w = x; note += "word of another place; "; break; }
        case 11: w = (unsigned)((int)w + (int)r.range(-2, 2)) & ((1u << 27) - 1); note += "near word; "; break;
        }
        l[k] = fmt("%5u%10u\n", a, w);
        if (l[k].find(' ') == std::string::npos) l[k] = fmt("%u %u\n", a, w);
    }
    if (r.chance(10) && !entries.empty()) {
        size_t k = entries[r.below(entries.size())];
        l[k] = r.chance(50) ? fmt("%u %u %u\n", (unsigned)r.below(40), (unsigned)r.below(40), (unsigned)r.below(40)) : fmt("%u %u %u\n", (unsigned)r.below(1ull << 32), (unsigned)r.below(1ull << 32), (unsigned)r.below(1ull << 32));
        note += "entry; ";
    }
    if (r.chance(5) && !symbols.empty()) { l[symbols[r.below(symbols.size())]] = std::string((size_t)r.range(1, 300), 'x') + " 00 00 14\n"; note += "symbol; "; }
    return joined(l);
}
static std::string from_template(Rng &r)
{
    auto &t = templates();
    auto &x = t[r.below(t.size())];
    return x.make(std::max(1l, x.floor ? r.range(1, std::min(x.floor, 60l)) : 1), r).source;
}
static void gen12(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Scenario s = base_scenario("C12", seed);
    s.insts.push_back(sim_instance({ "t.a60" }));
    if (r.chance(75)) {
        Profile p = random_profile(r);
        int k = (int)r.below(6);
        p.input = k == 1 || k == 3; p.xeen = k == 2; p.stop = k == 2; p.resym = k == 3; p.error = r.chance(20);
        if (!add_program(s, r, "t.a60", p)) return;
        s.insts[0].in = random_input(r, get(s, "in.t.a60"));
        if (s.insts[0].in.end == "block") s.insts[0].in.end = "eof";
        s.x.erase("prog.t.a60");
    } else {
        put_file(s, "/w/t.a60", from_template(r));
        s.insts[0].in.type = "null";
        s.insts[0].cpu_ms = 300;
    }
    RunResult b = sim(s);
    auto f = b.files.find("/w/t.x1");
    if (f == b.files.end()) return;
    std::string obj = f->second;
    for (auto &x : { "want.t.a60", "werr.t.a60", "in.t.a60", "input.t.a60" }) s.x.erase(x);
    s.insts[0].argv.back() = "t.x1";
    s.insts[0].cpu_ms = 250;
    s.insts[0].out.cap = 300000;
    s.files.erase(std::remove_if(s.files.begin(), s.files.end(), [](const FileSpec &x) { return x.path == "/w/t.a60"; }), s.files.end());
    for (int k = 0; k < 6; k++) {
        Scenario c = s;
        if (r.chance(80)) c.x["build"] = "checked";
        if (r.chance(4)) {
            auto &a = c.insts[0].argv;
            a.insert(a.begin() + 1, { "-d", "--trace=trace.log" });
            c.insts[0].cpu_ms = 500;
        }
        std::string note, o = obj;
        int w = (int)r.below(10);
        if (w < 6) o = damage_words(r, obj, note);
        else if (w < 9) { int n = (int)r.range(1, 3); for (int j = 0; j < n; j++) o = damage_bytes(r, o, note); }
        else {
            // nothing of a program is left
            o.clear();
            int n = (int)r.range(0, 400);
            bool sane = r.chance(70);
            o = fmt("%2d %2d %2d\n", (int)r.range(0, 9), (int)r.below(32), (int)r.below(32));
            for (int j = 0; j < n; j++) o += sane ? fmt("%5d%10u\n", (int)r.below(10240), r.chance(50) ? (unsigned)r.below(120) : (unsigned)r.below(1u << 27)) : fmt("%u %u\n", (unsigned)r.below(1ull << 32), (unsigned)r.below(1ull << 32));
            note = "random words";
        }
        put_file(c, "/w/t.x1", o);
        c.x["note.damage"] = note.substr(0, 200);
        if (!emit(c)) return;
    }
}
static Register r12({ "C12", "A damaged object file is contained", 4000, 60000, gen12, check12,
    "one case is one simulated run of x1sim on an object program that was damaged (changed words, bits, lines, sectors, cuts, junk), mostly on a build whose array accesses are checked; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C22
static Verdict check22(const Scenario &s)
{
    Verdict v;
    Scenario b = s;
    b.faults.clear();
    put_file(b, "/opt/x1/lib/x1algol.lib", g_library);
    RunResult q = sim(b, &v);
    RunResult r = sim(s, &v);
    auto &i = r.inst[0];
    auto obj = [](const RunResult &q) { auto f = q.files.find("/w/t.x1"); return f == q.files.end() ? std::string("(none)") : f->second; };
    if (i.how == "hang" && getn(s, "garbage") && i.out.size() > 0) { probe("loops in what the garbage became"); return v; }
    nontrivial(r.hash);
    if (!contained(v, s, r, 0)) return v;
    if (getn(s, "garbage")) { probe(i.ok() ? "garbage: ran" : "garbage: stopped"); return v; }
    auto &w = q.inst[0];
    if (i.status() == w.status() && i.out == w.out && obj(r) == obj(q)) { probe("as with the intact tape"); return v; }
    if (i.ok()) return blame(v, "status", "the library was damaged, and the run differs: " + diff_text(i.out, w.out) + " object " + diff_text(obj(r), obj(q)));
    size_t start = start_of_program(r.ev, 0);
    (void)start;
    if (!i.out.empty()) return blame(v, "output", "the library was damaged, and the program was executed: " + end_of(i));
    if (w.how == "exit" && w.code == 1 && i.err == w.err) return blame(v, "object", "the library was damaged, and the program was executed on it: " + end_of(i));
    probe("damage reported");
    return v;
}
struct Heptad { size_t pos, len; int val; };
static std::vector<Heptad> heptads(const std::string &t)
{
    std::vector<Heptad> h;
    for (size_t p = 0; p < t.size();) {
        if (!isdigit((unsigned char)t[p])) { p++; continue; }
        size_t e = p;
        while (e < t.size() && isdigit((unsigned char)t[e])) e++;
        h.push_back({ p, e - p, atoi(t.substr(p, e - p).c_str()) });
        p = e;
    }
    return h;
}
static void gen22(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Scenario s = base_scenario("C22", seed);
    s.insts.push_back(sim_instance({ "t.a60" }));
    static const std::vector<std::string> fixed = {
        "'begin' SETRANDOM(3); print(RANDOM); NLCR 'end'",
        "'begin' 'real' x; x := SUM(i, 1, 10, i × i); print(x); NLCR 'end'",
        "'begin' 'integer' i; 'real' 'procedure' q; q := SUM(i, 1, 4, SUM(i, 1, 3, i)); print(SUM(i, 1, 10, i)); PRINTTEXT(`abc'); print(EVEN(3)); NLCR 'end'",
        "'begin' PRSYM(10); PRSYM(RESYM); NLCR 'end'",
        "'begin' 'integer' t; t := entier(TIMEOFDAY / 100000); print(t); NLCR 'end'",
        "'begin' 'integer' i; SETRANDOM(7); print(RANDOM); PRSYM(3); print(EVEN(2)); PRINTTEXT(`x'); i := RESYM; print(i); print(SUM(i, 1, 2, i)); NLCR 'end'",
        "'begin' print(1); NLCR 'end'",
    };
    if (r.chance(60)) {
        put_file(s, "/w/t.a60", algol(fixed[r.below(fixed.size())]) + "\n");
        s.insts[0].in.type = "file";
        s.insts[0].in.chunks = { { 0, "abc\n" } };
    } else {
        Profile p = random_profile(r);
        p.library = r.chance(85);
        p.resym = r.chance(30);
        if (!add_program(s, r, "t.a60", p)) return;
        s.insts[0].in = random_input(r, get(s, "in.t.a60"));
        for (auto &x : { "want.t.a60", "werr.t.a60", "prog.t.a60" }) s.x.erase(x);
    }
    RunResult base = sim(s);
    auto h = heptads(g_library);
    for (int k = 0; k < 6; k++) {
        Scenario c = s;
        std::string t = g_library;
        int w = (int)r.below(10);
        if (w < 4) {
            auto &x = h[r.below(h.size())];
            int bit = (int)r.below(7);
            t.replace(x.pos, x.len, std::to_string(x.val ^ (1 << bit)));
            c.x["note.damage"] = fmt("heptad %d, bit %d", (int)(&x - &h[0]), bit);
        } else if (w < 6) {
            size_t n = r.below(t.size());
            t.resize(n);
            c.x["note.damage"] = fmt("cut at byte %zu", n);
        } else if (w < 8) {
            bool ok;
            Fault f = random_fault(r, base.ev, [](const Ev &e) { return e.cls == "lib" && e.role == "x1algc"; }, false, r.chance(20), ok);
            if (!ok) continue;
            c.faults.push_back(f);
        } else if (w == 8 && h.size() > 8) {
            // whole groups lost or doubled: parity cannot tell; the compiler must survive
            std::string note;
            t = damage_bytes(r, t, note);
            c.x["note.damage"] = note;
            c.x["garbage"] = "1";
        } else {
            std::string o = r.chance(80) ? "30" : "";
            int n = (int)r.range(0, 300);
            for (int j = 0; j < n; j++) {
                if (r.chance(60)) {
                    // well-formed groups with any contents
                    int a = (int)r.below(128), b = (int)r.below(128), d = (int)r.below(128), e = (int)r.below(128);
                    if (r.chance(90) && (__builtin_popcount((unsigned)a) + __builtin_popcount((unsigned)b) + __builtin_popcount((unsigned)d) + __builtin_popcount((unsigned)e)) % 2 == 0) a ^= 1;
                    o += fmt(" %d %d %d %d", a, b, d, e);
                    if (r.chance(10)) o += "\n";
                } else o += fmt(" %d", r.chance(90) ? (int)r.below(128) : (int)r.below(1u << 30));
            }
            t = o + "\n";
            c.x["garbage"] = "1";
            c.x["note.damage"] = "garbage";
        }
        put_file(c, "/opt/x1/lib/x1algol.lib", t);
        if (c.x.count("garbage")) { c.insts[0].cpu_ms = 500; if (r.chance(80)) c.x["build"] = "checked"; }
        if (!emit(c)) return;
    }
}
static Register r22({ "C22", "A damaged library tape is never used silently", 3000, 50000, gen22, check22,
    "one case is one simulated compilation and run with a library tape that has one wrong bit, is cut, cannot be read further at some point, or contains garbage, compared with the run on the intact tape; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C24
static Verdict check24(const Scenario &s)
{
    Verdict v;
    Scenario b = s;
    b.insts = { s.insts[0] };
    RunResult q = sim(b, &v);
    auto &c = q.inst[0];
    nontrivial(q.hash);
    if (!contained(v, b, q, 0, false)) return v;
    for (auto &e : q.peak) if (e.second > PEAK) return blame(v, "memory", e.first + fmt(" used %ld bytes of memory", e.second));
    if (!c.ok() && c.out.empty() && c.err.empty()) return blame(v, "silent", "refused without a message: " + end_of(c));
    probe(c.ok() ? "translated" : "refused");
    if (getn(s, "refuse") && c.ok()) return blame(v, "accepted", "a text that is no program was translated: " + get(s, "note.damage"));
    Scenario x = s;
    x.insts = { s.insts[1] };
    RunResult r = sim(x, &v);
    auto &i = r.inst[0];
    auto f = r.files.find("/w/t.x1");
    std::string obj = f == r.files.end() ? "(none)" : f->second;
    if (!c.ok()) {
        if (!contained(v, x, r, 0)) return v;
        if (i.ok() || !i.out.empty()) return blame(v, "executed", "the compiler refused the source, and something was executed: " + end_of(i));
        return v;
    }
    if (i.how == "hang") probe("loops for ever");
    else if (i.how == "blocked") return blame(v, "hang", "waits although its input has ended: " + end_of(i));
    else if (!contained(v, x, r, 0)) return v;
    if (obj != c.out) return blame(v, "object", "object file and compiler output differ: " + diff_text(obj, c.out));
    if (i.err.find("Bad line") != std::string::npos || i.err.find("No entry") != std::string::npos) return blame(v, "object", "the object program is not complete: " + end_of(i));
    return v;
}
static const std::vector<std::string> &corpus()
{
    static std::vector<std::string> c;
    if (c.empty()) {
        std::vector<std::string> names;
        if (DIR *d = opendir("/repo/examples")) {
            while (auto e = readdir(d)) if (ends(e->d_name, ".a60")) names.push_back(e->d_name);
            closedir(d);
        }
        std::sort(names.begin(), names.end());
        for (auto &n : names) { auto t = slurp("/repo/examples/" + n); if (t.size() < 6000) c.push_back(t); }
        c.push_back("_b_e_g_i_n print(1) _e_n_d\n");
    }
    return c;
}
static std::vector<std::string> tokens_of(const std::string &t)
{
    // a rough cut: underlined words, identifiers, numbers, single characters
    std::vector<std::string> o;
    for (size_t p = 0; p < t.size();) {
        size_t e = p + 1;
        if (t[p] == '_' && p + 1 < t.size()) { while (e < t.size() && (t[e] == '_' || (isalpha((unsigned char)t[e]) && t[e - 1] == '_'))) e++; }
        else if (isalnum((unsigned char)t[p])) { while (e < t.size() && (isalnum((unsigned char)t[e]) || (unsigned char)t[e] == 0xcc || (unsigned char)t[e] == 0xb2)) e++; }
        else if ((unsigned char)t[p] >= 0xc0) { while (e < t.size() && ((unsigned char)t[e] & 0xc0) == 0x80) e++; }
        o.push_back(t.substr(p, e - p));
        p = e;
    }
    return o;
}
static std::string damage_tokens(Rng &r, const std::string &t, std::string &note)
{
    auto k = tokens_of(t);
    static const std::vector<std::string> extra = { "_b_e_g_i_n", "_e_n_d", "_i_f", "_t_h_e_n", "_e_l_s_e", "_f_o_r", "_d_o", "_s_t_e_p", "_u_n_t_i_l", "_w_h_i_l_e", "_g_o_t_o", "_o_w_n", "_i_n_t_e_g_e_r", "_r_e_a_l",
        "_b_o_o_l_e_a_n", "_a_r_r_a_y", "_s_w_i_t_c_h", "_p_r_o_c_e_d_u_r_e", "_v_a_l_u_e", "_l_a_b_e_l", "_s_t_r_i_n_g", "_t_r_u_e", "_f_a_l_s_e", "_c_o_m_m_e_n_t", ":=", ":", ";", ",", "(", ")", "[", "]", "`", "'", "|<", "|>", "+", "-", "*", "/",
        "_:", "|∧", "⏨", "@", ".", "0", "1", "67108863", "99999999999999999999", "1.5", "1⏨99999", "x", "sin", "read", "print", "XEEN", "RANDOM", "SUM", "FIXT", "a[1]", "'", "?", "\"", "|", "_", "≤", "¬", "∨", "⊃", "≡", "€", "\xff", "\xcc\xb2" };
    int n = (int)r.range(1, r.chance(70) ? 3 : 25);
    for (int j = 0; j < n && !k.empty(); j++) {
        size_t a = r.below(k.size()), b = r.below(k.size());
        switch (r.below(6)) {
        case 0: k.erase(k.begin() + (long)a); note += "token lost; "; break;
        case 1: k.insert(k.begin() + (long)a, k[b]); note += "token doubled; "; break;
        case 2: std::swap(k[a], k[b]); note += "tokens swapped; "; break;
        case 3: k[a] = extra[r.below(extra.size())]; note += "token replaced; "; break;
        case 4: k.insert(k.begin() + (long)a, extra[r.below(extra.size())]); note += "token added; "; break;
        case 5: { size_t e = std::min(k.size(), a + 1 + r.below(8)); k.erase(k.begin() + (long)a, k.begin() + (long)e); note += "tokens lost; "; break; }
        }
    }
    return joined(k);
}
// Sources that are no ALGOL program, beyond doubt.
static std::string keyword(const std::string &t)
{
    std::string o;
    for (size_t p = 0; p < t.size();) {
        if (t[p] == '_' && p + 1 < t.size() && isalpha((unsigned char)t[p + 1])) { o += t[p + 1]; p += 2; }
        else if (isalpha((unsigned char)t[p]) && t.compare(p + 1, 2, "\xcc\xb2") == 0) { o += t[p]; p += 3; }
        else return "";
    }
    return o;
}
static std::vector<std::string> tokens_and_strings(const std::string &t)
{
    std::vector<std::string> o;
    size_t from = 0;
    while (from < t.size()) {
        size_t p = t.find('`', from);
        if (p == std::string::npos) p = t.size();
        for (auto &x : tokens_of(t.substr(from, p - from))) o.push_back(x);
        if (p == t.size()) break;
        size_t e = p + 1;
        int depth = 1;
        while (e < t.size() && depth) { if (t[e] == '`') depth++; if (t[e] == '\'') depth--; e++; }
        o.push_back(t.substr(p, e - p));
        from = e;
    }
    return o;
}
static std::string wrong_source(Rng &r, const std::string &t, std::string &note)
{
    auto k = tokens_and_strings(t);
    auto blank = [](const std::string &x) { return x == " " || x == "\n" || x == "\t"; };
    auto prev = [&](size_t a) { while (a > 0) { a--; if (!blank(k[a])) return k[a]; } return std::string(); };
    auto next = [&](size_t a) { for (a++; a < k.size(); a++) if (!blank(k[a])) return k[a]; return std::string(); };
    auto spots = [&](std::function<bool(size_t)> f) { std::vector<size_t> o; for (size_t a = 0; a < k.size(); a++) if (!blank(k[a]) && f(a)) o.push_back(a); return o; };
    size_t first = 0, last = 0;
    for (size_t a = 0; a < k.size(); a++) { if (keyword(k[a]) == "begin" && !first) first = a + 1; if (keyword(k[a]) == "end") last = a; }
    auto inside = [&](size_t a) { return a >= first && a < last; };
    auto erase = [&](const std::vector<size_t> &s, const std::string &what) {
        if (s.empty()) return false;
        size_t a = r.pick(s);
        note = what + " (" + k[a] + " number " + std::to_string(std::find(s.begin(), s.end(), a) - s.begin()) + ")";
        k[a] = " ";
        return true;
    };
    auto one_of = [](const std::string &x, const char *list) { std::string l = std::string(" ") + list + " "; return !x.empty() && l.find(" " + x + " ") != std::string::npos; };
    // the list of the formal parameters is read leniently
    auto formals = [&](size_t a) { while (a > 0 && k[a] != ";" && keyword(k[a]) != "procedure") a--; return keyword(k[a]) == "procedure"; };
    static const char *operand = "+ - × * / ÷ ↑ ∧ ∨ ¬ ⊃ < > = ≤ ≥ ≠ ≡";
    switch (r.below(8)) {
    case 0: {
        // cut anywhere before the last end
        size_t n = 0;
        for (size_t a = 0; a < last; a++) n += k[a].size();
        n = r.below(n + 1);
        note = fmt("cut at byte %zu", n);
        return t.substr(0, n);
    }
    case 1: if (erase(spots([&](size_t a) { return keyword(k[a]) == "end"; }), "end lost")) return joined(k); break;
    case 2: {
        static const std::vector<std::string> v = { "_k_a", "_h_e_l_l_o", "_j", "_m_o_d", "_n_i_l", "_q", "_x_o_r", "_y", "_z_z" };
        auto s = spots(inside);
        // a word of which no letter begins a word of the language
        std::string w = r.pick(v);
        if (w == "_n_i_l") w = "_m_i_l";
        note = "no such word: " + w;
        k.insert(k.begin() + (long)r.pick(s), " " + w + " ");
        return joined(k);
    }
    case 3: if (erase(spots([&](size_t a) { return one_of(k[a], "( )") && !formals(a); }), "bracket lost")) return joined(k); break;
    case 4: {
        // an operand without a declaration
        auto s = spots([&](size_t a) {
            if (!isalpha((unsigned char)k[a][0]) || !keyword(k[a]).empty() || k[a].find("\xcc\xb2") != std::string::npos) return false;
            std::string q = prev(a);
            return one_of(q, operand) || one_of(keyword(q), "then if step until while goto else do") || (q == "=" && a > 1 && k[a - 1] == "=" && k[a - 2] == ":");
        });
        if (s.empty()) break;
        size_t a = r.pick(s);
        note = "undeclared (instead of " + k[a] + ")";
        k[a] = r.pick(std::vector<std::string>{ "qqzz", "Undeclared", "zq9", "W8w" });
        return joined(k);
    }
    case 5: {
        auto s = spots([&](size_t a) { return k[a][0] == '`'; });
        if (s.empty()) break;
        size_t a = r.pick(s);
        note = "string without an end";
        k[a].pop_back();
        return joined(k);
    }
    case 6: {
        // characters that cannot be
        static const std::vector<std::string> v = { "?", "\"", "|a", "|+", "_+", "_1", "_(", "é", "€", "\xff", "\xc3", "\xe2\x89" };
        auto s = spots([&](size_t a) { return inside(a) && k[a][0] != '`'; });
        if (s.empty()) break;
        std::string w = r.pick(v);
        note = "foreign character " + w;
        k.insert(k.begin() + (long)r.pick(s), " " + w + " ");
        return joined(k);
    }
    case 7: {
        auto s = spots([&](size_t a) { return inside(a) && one_of(k[a], "( )") && !formals(a); });
        if (s.empty()) break;
        size_t a = r.pick(s);
        note = "bracket twice: " + k[a];
        k.insert(k.begin() + (long)a, k[a]);
        return joined(k);
    }
    }
    return "";
}
static void gen24(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Scenario s = base_scenario("C24", seed);
    s.insts.push_back(tool_instance("x1algc", { "t.a60", "/opt/x1/lib/x1algol.lib" }));
    s.insts.push_back(sim_instance({ "t.a60" }));
    std::string src, note;
    int w = (int)r.below(10);
    if (w < 5) {
        Profile p = random_profile(r);
        int k = (int)r.below(6);
        p.input = k == 1; p.xeen = k == 2; p.resym = k == 3;
        Scenario t = base_scenario("C24", seed);
        t.insts.push_back(sim_instance({ "t.a60" }));
        if (!add_program(t, r, "t.a60", p)) return;
        src = data_of(t, "/w/t.a60");
    } else if (w < 8) { auto &c = corpus(); src = c[r.below(c.size())]; }
    else src = from_template(r);
    s.insts[0].in.type = "null";
    s.insts[0].cpu_ms = 2500;
    s.insts[1].in.chunks = { { 0, "1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18\n" } };
    s.insts[1].cpu_ms = 250;
    s.insts[1].out.cap = 300000;
    for (int k = 0; k < 5; k++) {
        Scenario c = s;
        note.clear();
        if (w < 5 && r.chance(40)) {
            std::string t = wrong_source(r, src, note);
            if (t.empty()) continue;
            put_file(c, "/w/t.a60", t);
            if (r.chance(80)) c.x["build"] = "checked";
            c.x["refuse"] = "1";
            c.x["note.damage"] = note;
            if (!emit(c)) return;
            continue;
        }
        std::string t = src;
        int m = (int)r.below(12);
        if (m < 5) t = damage_tokens(r, t, note);
        else if (m < 9) { int n = (int)r.range(1, 3); for (int j = 0; j < n; j++) t = damage_bytes(r, t, note); }
        else if (m == 9) {
            // structure: many of something
            static const std::vector<std::string> open = { "_b_e_g_i_n ", "(", "_i_f _t_r_u_e _t_h_e_n ", "[", "`", "_b_e_g_i_n _i_n_t_e_g_e_r x; ", "_f_o_r x := 1 _d_o ", "x := ", "_p_r_o_c_e_d_u_r_e p; _b_e_g_i_n ", "-", "x[", "f(", "|<", "1⏨", "_s_t_e_p ", "l: ", "_s_w_i_t_c_h s := ", "x, ", "9", "9.", "abc" };
            auto &o = open[r.below(open.size())];
            size_t n = (size_t)r.range(1, r.chance(50) ? 40 : 800);
            std::string many;
            for (size_t j = 0; j < n; j++) many += o;
            auto tk = tokens_of(t);
            if (r.chance(50)) { tk.insert(tk.begin() + (long)r.below(tk.size() + 1), many); t = joined(tk); }
            else t = "_b_e_g_i_n _i_n_t_e_g_e_r x; " + many + " _e_n_d\n";
            note = fmt("%zu times ", n) + o;
        } else if (m == 10) {
            t.clear();
            size_t n = (size_t)r.range(0, 600);
            int kind = (int)r.below(3);
            for (size_t j = 0; j < n; j++) t += kind == 0 ? (char)r.below(256) : kind == 1 ? (char)r.range(32, 126) : (char)0;
            note = "random bytes";
        } else {
            std::string o = corpus()[r.below(corpus().size())];
            t = r.chance(50) ? t + o : t.substr(0, r.below(t.size() + 1)) + o.substr(r.below(o.size() + 1));
            note = "two sources";
        }
        if (t.size() > 20000) t.resize(20000);
        put_file(c, "/w/t.a60", t);
        if (r.chance(80)) c.x["build"] = "checked";
        c.x["note.damage"] = note.substr(0, 200);
        if (!emit(c)) return;
    }
}
static Register r24({ "C24", "A damaged or wrong source is refused, not executed wrongly", 3500, 50000, gen24, check24,
    "one case is a compilation and a run of a source that was damaged (cuts, flips, sectors, tokens lost, doubled, exchanged, foreign bytes, extreme repetition), mostly on builds whose array accesses are checked; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C25
// Another spelling of the same program.
struct Respell {
    Rng &r;
    int space, brk, comment, wild;
    std::string o;
    bool word = false; // an underlined word was written last
    size_t line = 0;
    void put(const std::string &t)
    {
        for (char c : t) line = c == '\n' ? 0 : line + 1;
        o += t;
    }
    std::string blank()
    {
        static const std::vector<std::string> v = { " ", "  ", "\t", " \t ", "\n", "\n\n", "\r\n", "\n    ", "     " };
        return v[r.below(v.size())];
    }
    std::string und(char c)
    {
        if (r.chance(50)) return std::string(1, c) + "\xcc\xb2";
        std::string u = "_";
        while (r.chance(wild)) u += "_";
        return u + c;
    }
    void gap(bool need)
    {
        if (need || r.chance(space)) put(r.chance(brk) ? blank() : " ");
        if (line > 4000) put("\n");
    }
    std::string text()
    {
        static const std::vector<std::string> v = { "note", "the end", "x 1 + 2", "(a, b)", "step until while", "begin end", "3.5", "abc:=def", "[ ]", "a < b", "`quoted'", "loop", "" };
        if (r.chance(30)) {
            // anything at all, except a semicolon
            static const std::vector<std::string> w = { "_t_h_i_s", "|that", "_", "|", ":", ":=", "'", "`", "\"", "?", "_:", "|<", "|>", "_k", "×", "÷", "↑", "≤", "≥", "≠", "≡", "¬", "∧", "∨", "⊃", "⏨", "b̲", "c̲o̲m̲m̲e̲n̲t̲", "_e_n_d", "_b_e_g_i_n", "$", "%", "#", "{", "}", "~", "\\", "&", "^", "!", "\t", "\n", "\r\n", "\x01", "\x7f", "0", "9", "12345678901234567890", "x", "Z", "(", ")", "[", "]", ",", ".", "+", "-", "/", "<", ">", "=", "@", "*", " " };
            std::string o;
            for (int n = (int)r.range(1, 20); n > 0; n--) o += r.pick(w);
            return o;
        }
        return v[r.below(v.size())];
    }
    // t: as the generator writes it
    std::string run(const std::string &t)
    {
        size_t p = 0;
        auto starts_at = [&](const char *x) { return t.compare(p, strlen(x), x) == 0; };
        std::string last;
        while (p < t.size()) {
            char c = t[p];
            if (c == ' ' || c == '\n' || c == '\t') {
                bool any = false;
                while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t')) { p++; any = true; }
                (void)any;
                continue;
            }
            if (c == '`') {
                // a string: nothing inside is touched
                size_t e = p + 1;
                int depth = 1;
                while (e < t.size() && depth) { if (t[e] == '`') depth++; if (t[e] == '\'') depth--; e++; }
                gap(false);
                put(r.chance(50) ? "`" : bar() + "<");
                put(t.substr(p + 1, e - p - 2));
                put(r.chance(50) ? "'" : bar() + ">");
                p = e;
                word = false;
                last = "string";
                continue;
            }
            // underlined word
            std::string w;
            size_t q = p;
            for (;;) {
                if (q + 1 < t.size() && t[q] == '_' && isalpha((unsigned char)t[q + 1])) { w += t[q + 1]; q += 2; }
                else if (q + 2 < t.size() && isalpha((unsigned char)t[q]) && (unsigned char)t[q + 1] == 0xcc && (unsigned char)t[q + 2] == 0xb2) { w += t[q]; q += 3; }
                else break;
            }
            if (!w.empty()) {
                gap(word);
                for (char x : w) put(und(x));
                p = q;
                word = true;
                last = w;
                if ((w == "begin") && r.chance(comment)) remark();
                // text after 'end' up to the next delimiter
                if (w == "end" && r.chance(comment)) {
                    static const std::vector<std::string> v = { " of block", " x 1", "\n  the inner part\n", " abc", " p ∧ q", " a < b", " 99999999999999999999", " `str'", " 1.2.3", " _: ≠ ≡ ⊃ ¬", " 2 × 3 ≤ 4", " |< a |>" };
                    put(v[r.below(v.size())]);
                    word = false;
                }
                continue;
            }
            // operators of two spellings
            struct Op { const char *a, *b, *c; };
            static const Op ops[] = { { "×", "*", "" }, { "÷", "_:", ":\xcc\xb2" }, { "↑", "|∧", "" }, { "≤", "_<", "<\xcc\xb2" }, { "≥", "_>", ">\xcc\xb2" }, { "≠", "|=", "" }, { "⊃", "_¬", "" }, { "≡", "_=", "=\xcc\xb2" }, { "⏨", "@", "" } };
            const Op *op = nullptr;
            for (auto &x : ops) {
                for (auto sp : { x.a, x.b, x.c }) if (*sp && starts_at(sp) && !op) { op = &x; q = p + strlen(sp); }
                if (op) break;
            }
            if (op) {
                std::string sp = r.chance(50) ? op->a : *op->c && r.chance(50) ? op->c : op->b;
                if (sp[0] == '_') { std::string u = "_"; while (r.chance(wild)) u += "_"; sp = u + sp.substr(1); }
                if (sp[0] == '|') sp = bar() + sp.substr(1);
                bool und = sp[0] == '_' || (sp.size() > 1 && (unsigned char)sp[1] == 0xcc);
                gap(word && und);
                put(sp);
                p = q;
                word = false;
                last = "op";
                continue;
            }
            if (starts_at(":=")) { gap(false); put(":="); p += 2; word = false; last = ":="; continue; }
            // letters, digits, other symbols, one by one
            size_t n = 1;
            if ((unsigned char)c >= 0xc0) while (p + n < t.size() && ((unsigned char)t[p + n] & 0xc0) == 0x80) n++;
            bool inside = isalnum((unsigned char)c) && p && isalnum((unsigned char)t[p - 1]);
            if (!inside) gap(false);
            else if (r.chance(wild / 2)) put(r.chance(30) ? blank() : " ");
            put(t.substr(p, n));
            p += n;
            word = false;
            last = t.substr(p - n, n);
            if (c == ';' && r.chance(comment)) remark();
        }
        if (r.chance(70)) put("\n");
        if (r.chance(20)) put("\n\n");
        return o;
    }
    std::string bar() { std::string b = "|"; while (r.chance(wild)) b += "|"; return b; }
    void remark()
    {
        gap(word);
        for (char x : std::string("comment")) put(und(x));
        put(" " + text() + (r.chance(20) ? "\n" : "") + text() + ";");
        word = false;
    }
};
// Other names for everything the program declares itself; what follows the ninth
// character of a name does not count and is another one at each place.
static std::string rename_all(Rng &r, const std::string &t)
{
    static const std::set<std::string> known = { "read", "print", "TAB", "NLCR", "XEEN", "SPACE", "stop", "abs", "sign", "sqrt", "sin", "cos", "arctan", "ln", "exp", "entier",
        "sum", "SUM", "EVEN", "PRSYM", "RESYM", "FIXT", "ABSFIXT", "FLOT", "PRINTTEXT", "RANDOM", "SETRANDOM", "TIMEOFDAY" };
    static const std::string alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789zZaA09";
    auto some = [&](size_t n) { std::string o; while (o.size() < n) o += alnum[r.below(o.empty() ? 52 : alnum.size())]; return o; };
    auto tail = [&] { std::string o; for (int n = (int)r.range(0, r.chance(10) ? 60 : 9); n > 0; n--) o += alnum[r.below(alnum.size())]; return o; };
    std::map<std::string, std::string> to;
    std::set<std::string> taken = known;
    const int longs = r.pick(std::vector<int>{ 0, 10, 50, 100 });
    std::string o;
    for (size_t p = 0; p < t.size();) {
        if (t[p] == '`') {
            size_t e = p + 1;
            for (int depth = 1; e < t.size() && depth; e++) { if (t[e] == '`') depth++; if (t[e] == '\'') depth--; }
            o += t.substr(p, e - p);
            p = e;
            continue;
        }
        if (t[p] == '_' && p + 1 < t.size()) { o += t.substr(p, 2); p += 2; continue; }
        if (isalpha((unsigned char)t[p]) && p + 2 < t.size() && (unsigned char)t[p + 1] == 0xcc) { o += t.substr(p, 3); p += 3; continue; }
        if (isdigit((unsigned char)t[p])) { o += t[p++]; continue; }
        if (!isalpha((unsigned char)t[p])) { o += t[p++]; continue; }
        size_t e = p;
        while (e < t.size() && isalnum((unsigned char)t[e]) && !(e + 1 < t.size() && (unsigned char)t[e + 1] == 0xcc)) e++;
        std::string n = t.substr(p, e - p);
        p = e;
        if (known.count(n)) { o += n; continue; }
        std::string k = n.substr(0, 9);
        if (!to.count(k)) {
            std::string x;
            do x = some(r.chance(longs) ? 9 : (size_t)r.range(1, 9)); while (!taken.insert(x).second);
            to[k] = x;
        }
        o += to[k];
        if (to[k].size() == 9) o += tail();
    }
    return o;
}
static Verdict check25(const Scenario &s)
{
    Verdict v;
    Scenario b = s;
    put_file(b, "/w/t.a60", get(s, "plain"));
    b.faults.clear();
    RunResult q = sim(b, &v);
    auto obj = [](const RunResult &q) { auto f = q.files.find("/w/t.x1"); return f == q.files.end() ? std::string("(none)") : f->second; };
    if (!exact(v, b, q.inst[0], get(s, "want.t.a60"), get(s, "werr.t.a60") == "1", "usual spelling")) return v;
    RunResult r = sim(s, &v);
    nontrivial(r.hash);
    if (!exact(v, s, r.inst[0], get(s, "want.t.a60"), get(s, "werr.t.a60") == "1", "other spelling")) return v;
    // names are part of the object program only as names
    auto unnamed = [&](const std::string &o) {
        if (get(s, "renamed") != "1") return o;
        std::string n;
        std::istringstream in(o);
        for (std::string l; std::getline(in, l);) {
            size_t k = l.find_first_of(" \t");
            n += (!l.empty() && isalpha((unsigned char)l[0]) && k != std::string::npos ? "name " + l.substr(l.find_first_not_of(" \t", k) == std::string::npos ? k : l.find_first_not_of(" \t", k)) : l) + "\n";
        }
        return n;
    };
    if (unnamed(obj(r)) != unnamed(obj(q))) return blame(v, "object", "two spellings, two object programs: " + diff_text(obj(r), obj(q)));
    return v;
}
static void gen25(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Scenario s = base_scenario("C25", seed);
    s.insts.push_back(sim_instance({ "t.a60" }));
    Profile p = random_profile(r);
    p.input = r.chance(20); p.error = r.chance(15);
    if (!add_program(s, r, "t.a60", p)) return;
    s.insts[0].in = random_input(r, get(s, "in.t.a60"));
    s.x.erase("prog.t.a60");
    const std::string src = data_of(s, "/w/t.a60");
    s.x["plain"] = src;
    for (int k = 0; k < 4; k++) {
        Scenario c = s;
        static const std::vector<int> pct = { 0, 5, 30, 70, 100 };
        Respell x{ r, r.pick(pct), r.pick(pct), r.chance(50) ? 0 : (int)r.range(5, 60), r.chance(50) ? 0 : (int)r.range(2, 30), "" };
        const bool other = r.chance(40);
        if (other) c.x["renamed"] = "1";
        std::string t = x.run(other ? rename_all(r, src) : src);
        put_file(c, "/w/t.a60", t);
        if (r.chance(50)) {
            RunResult base = sim(c);
            int n = (int)r.range(1, 12);
            for (int j = 0; j < n; j++) {
                bool ok;
                Fault f = random_fault(r, base.ev, [](const Ev &e) { return e.op == "read" && e.role == "x1algc"; }, false, true, ok);
                if (ok) c.faults.push_back(f);
            }
        }
        if (!emit(c)) return;
    }
}
static Register r25({ "C25", "Spelling and transfer of the source do not matter", 2500, 60000, gen25, check25,
    "one case is a pair of simulated runs of a generated program in its usual and in a randomly chosen equivalent spelling (representations of symbols, layout, comments), half of the latter with reads cut short, compared with each other and the reference interpreter; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C26
// What a library tape must contain, written down independently of objfile.
struct Tape {
    bool ok = true;
    std::string text;
    int length = 0;
};
static Tape tape_of(const std::string &src, int num, bool words)
{
    static const int codes[54] = { 10*1024+384, 6*1024+16, 10*1024+385, 10*1024+386, 10*1024+387, 7*1024+40, 6*1024+17, 10*1024+388, 5*1024+4, 7*1024+41, 6*1024+18, 7*1024+42, 7*1024+43, 10*1024+389, 10*1024+390, 10*1024+391, 10*1024+392, 10*1024+393, 10*1024+394, 10*1024+395, 10*1024+396, 10*1024+397, 6*1024+19, 7*1024+44, 10*1024+398, 4*1024+0, 4*1024+1, 7*1024+45, 10*1024+399, 10*1024+400, 10*1024+401, 7*1024+46, 10*1024+402, 10*1024+403, 10*1024+404, 10*1024+405, 10*1024+406, 10*1024+407, 10*1024+408, 10*1024+409, 10*1024+410, 10*1024+411, 10*1024+412, 10*1024+413, 10*1024+414, 10*1024+415, 10*1024+416, 10*1024+417, 5*1024+5, 10*1024+418, 5*1024+6, 10*1024+419, 10*1024+420, 7*1024+47 };
    static const std::map<int, int> common = { { 21495808, 3076 }, { 71827459, 3077 }, { 88080386, 4108 }, { 71827456, 4109 }, { 4718592, 7280 }, { 71303170, 7281 }, { 88604673, 7282 }, { 0, 7283 },
        { 524291, 7284 }, { 88178690, 7285 }, { 71827457, 7286 }, { 1048577, 7287 }, { 20971522, 7288 }, { 4784128, 7289 }, { 8388608, 7290 }, { 4390912, 7291 }, { 13172736, 7292 }, { 1572865, 7293 }, { 524288, 7294 } };
    std::string bits; // first bit first
    auto code = [&](int c) { for (int i = 0; i < c / 1024; i++) bits += (char)('0' + (((c % 1024) >> i) & 1)); };
    auto address = [&](int a) {
        int l = a % 32, m = a / 32 % 32, h = a / 1024 % 32;
        code(l == 1 ? 2048 : l == 2 ? 3074 : l == 3 ? 3075 : 6176 + l);
        code(m == 0 ? 2048 : m == 1 ? 4100 : m == 2 ? 4101 : m == 4 ? 4102 : m == 5 ? 4103 : 6176 + m);
        code(h == 0 ? 1024 : 6176 + h);
    };
    Tape t;
    for (auto &l : lines_of(src)) {
        const char *p = l.c_str();
        char *e;
        long off = strtol(p, &e, 0);
        if (e == p) continue;
        if (off != t.length) { t.ok = false; return t; }
        p = e;
        long opc = strtol(p, &e, 10);
        if (e == p) { t.ok = false; return t; }
        if (opc < 8) {
            p = e;
            long w = strtol(p, &e, 0);
            if (e == p) { t.ok = false; return t; }
            address((int)w);
            int x = (int)(w / 32768 * 32768 + opc);
            auto c = common.find(x);
            if (c != common.end()) code(c->second);
            else { address((int)(x / 32768 + opc * 4096)); code(7295); }
        } else code(opc <= 61 ? codes[opc - 8] : opc == 85 ? 5127 : (int)opc + 10599);
        t.length++;
    }
    for (int i = 0; i < 13; i++) bits += (char)('0' + ((num >> i) & 1));
    for (int i = 0; i < 13; i++) bits += (char)('0' + ((t.length >> i) & 1));
    bits += '1';
    std::vector<int> w;
    for (size_t i = 0; i < bits.size(); i += 27) {
        int x = 0;
        for (size_t j = 0; j < 27 && i + j < bits.size(); j++) x |= (bits[i + j] - '0') << j;
        w.push_back(x);
    }
    if (words) {
        t.text = "store[mcpb + 1] = 0770000000;\n";
        for (size_t i = 0; i < w.size(); i++) t.text += fmt("store[mcpb + %zu] = %010o;\n", i + 2, (unsigned)w[i]);
        return t;
    }
    std::vector<int> h = { 30 };
    for (size_t i = w.size(); i--;) {
        h.push_back((w[i] >> 21) << 1 | (__builtin_popcount((unsigned)w[i]) % 2 == 0));
        h.push_back((w[i] >> 14) & 127);
        h.push_back((w[i] >> 7) & 127);
        h.push_back(w[i] & 127);
    }
    for (int x : { 127, 0, 0, 0 }) h.push_back(x);
    for (int x : h) t.text += std::to_string(x) + " ";
    return t;
}
// The numbers on a tape, without its layout.
static std::string numbers(const std::string &t)
{
    std::string o;
    for (auto &h : heptads(t)) o += std::to_string(h.val) + " ";
    return o;
}
static Verdict check26(const Scenario &s)
{
    Verdict v;
    RunResult r = sim(s, &v);
    if (s.x.count("whole")) {
        // a library made by objfile serves the compiler
        nontrivial(r.hash);
        std::string lib;
        for (auto &i : r.inst) {
            if (!i.ok()) return blame(v, "status", "objfile failed on a source of the library: " + end_of(i));
            lib += i.out;
        }
        Scenario c = s;
        c.insts = { sim_instance({ "t.a60", "new.lib" }) };
        c.insts[0].in = InputSpec();
        c.insts[0].in.type = "file";
        if (!get(s, "in.t.a60").empty()) c.insts[0].in.chunks = { { 0, get(s, "in.t.a60") } };
        c.faults.clear();
        put_file(c, "/w/new.lib", lib);
        RunResult q = sim(c, &v);
        exact(v, c, q.inst[0], get(s, "want.t.a60"), get(s, "werr.t.a60") == "1", "program with the new library");
        return v;
    }
    auto &i = r.inst[0];
    bool words = get(s, "words") == "1";
    Tape t = tape_of(get(s, "src"), (int)getn(s, "num"), words);
    long refused = 0;
    for (auto &e : r.allocs_fired) refused += e.second;
    if (r.fired_faults || i.lost || refused) nontrivial(r.hash);
    if (i.how == "killed") { probe("killed"); return v; }
    bool hard = refused > 0 || i.lost > 0;
    for (size_t k = 0; k < s.faults.size(); k++) if (k < r.fault_fired.size() && r.fault_fired[k] && !is_harmless(s.faults[k])) hard = true;
    if (refused > 0 && i.how == "signal" && i.code == 6 && !i.err.empty()) { probe("no memory: aborted with a message"); return v; }
    bool mute = i.lost > 0;
    for (size_t k = 0; k < s.faults.size(); k++) if (k < r.fault_fired.size() && r.fault_fired[k] && s.faults[k].cls == "stdout") mute = true;
    if (!contained(v, s, r, 0, false)) return v;
    if (i.how == "signal" && i.code == 13 && s.insts[0].out.fail == "epipe") { probe("reader gone"); return v; }
    if (i.how != "exit") return blame(v, i.how, "objfile did not end: " + end_of(i));
    if (i.ok()) {
        std::string got = words ? i.out : numbers(i.out), want = t.text;
        if (!t.ok) return blame(v, "status", "a source that cannot be assembled was accepted: " + end_of(i));
        if (got != want) return blame(v, "tape", "not the tape that belongs to the source: " + diff_text(got, want));
        if (s.insts[0].in.end == "eio" && s.x.count("stdin")) return blame(v, "status", "the source could not be read to its end, and a tape was made");
        probe("tape is right");
        return v;
    }
    if (i.out.empty() && i.err.empty() && s.insts[0].err.cap < 0 && !mute) return blame(v, "silent", "failed without a message: " + end_of(i));
    if (t.ok && !hard && s.insts[0].in.end != "eio" && s.insts[0].out.cap < 0) return blame(v, "status", "failed without a reason: " + end_of(i));
    probe(t.ok ? "failure reported" : "source refused");
    return v;
}
static std::string random_library_source(Rng &r)
{
    static const std::vector<int> usual = { 21495808, 71827459, 88080386, 71827456, 4718592, 71303170, 88604673, 0, 524291, 88178690, 71827457, 1048577, 20971522, 4784128, 8388608, 4390912, 13172736, 1572865, 524288 };
    std::string src;
    int n = r.chance(10) ? 0 : (int)r.range(1, r.chance(85) ? 60 : 700);
    if (r.chance(20)) src += "Library procedure\n";
    for (int k = 0; k < n; k++) {
        int opc = r.chance(65) ? (int)r.below(4) : r.chance(85) ? (int)r.range(8, 61) : r.chance(50) ? 85 : (int)r.range(62, 112);
        src += r.chance(70) ? fmt("   0%o", k) : fmt("%d", k);
        src += fmt("  %2d", opc);
        if (opc < 8) {
            int w;
            if (r.chance(60)) { int u = r.pick(usual); opc = u % 8 < 4 ? opc : opc; w = u / 32768 * 32768 + (r.chance(50) ? u % 32768 : (int)r.below(600)); }
            else w = (int)r.below(1u << 27);
            src += r.chance(85) ? fmt(" 0%09o", (unsigned)w) : fmt(" %d", w);
        }
        if (r.chance(40)) src += "    2B 000001 A";
        src += r.chance(95) ? "\n" : "\r\n";
        if (r.chance(5)) src += r.chance(50) ? "\n" : "; remark\n";
    }
    if (r.chance(15)) {
        // something wrong in it
        auto l = lines_of(src);
        if (!l.empty()) {
            size_t k = r.below(l.size());
            switch (r.below(5)) {
            case 0: l.erase(l.begin() + (long)k); break;
            case 1: l.insert(l.begin() + (long)k, l[k]); break;
            case 2: l[k] = fmt("%zu\n", k); break;
            case 3: l[k] = fmt("0%zo 2\n", k); break;
            case 4: std::swap(l[k], l[r.below(l.size())]); break;
            }
        }
        src = joined(l);
    } else if (r.chance(15)) src.resize(r.below(src.size() + 1));
    return src;
}
static void gen26(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Scenario s = base_scenario("C26", seed);
    if (r.chance(12)) {
        // the library of this source tree, assembled again
        static const std::vector<std::pair<std::string, int>> parts = { { "sum", 0 }, { "resym", 7 }, { "prsym", 8 }, { "random", 17 }, { "setrandom", 18 } };
        Scenario p = base_scenario("C26", seed);
        p.insts.push_back(sim_instance({ "t.a60" }));
        Profile pf = random_profile(r);
        pf.library = true; pf.resym = r.chance(40);
        if (!add_program(p, r, "t.a60", pf)) return;
        s = p;
        s.insts.clear();
        s.x["whole"] = "1";
        s.x.erase("prog.t.a60");
        s.x.erase("input.t.a60");
        for (auto &x : parts) {
            put_file(s, "/w/" + x.first + ".src", slurp("/repo/library/" + x.first + ".src"));
            Instance i = tool_instance("objfile", { std::to_string(x.second), x.first + ".src" });
            i.in.type = "null";
            s.insts.push_back(i);
        }
        for (int k = 0; k < 60; k++) s.sched.push_back((int)r.below(parts.size()));
        emit(s);
        return;
    }
    std::string src = r.chance(20) ? "" : random_library_source(r);
    static const std::vector<std::string> names = { "sum", "printtext", "even", "resym", "prsym", "random", "setrandom", "timeofday" };
    if (src.empty() && r.chance(90)) src = slurp("/repo/library/" + r.pick(names) + ".src");
    int num = r.chance(50) ? (int)r.below(100) : (int)r.below(8192);
    bool words = r.chance(25), in = r.chance(40);
    std::vector<std::string> a;
    if (words) a.push_back("-w");
    a.push_back(std::to_string(num));
    if (!in) a.push_back("m.src");
    s.insts.push_back(tool_instance("objfile", a));
    s.x["num"] = std::to_string(num);
    s.x["words"] = words ? "1" : "0";
    auto with = [&](Scenario &c, const std::string &t) {
        c.x["src"] = t;
        if (in) {
            c.x["stdin"] = "1";
            c.insts[0].in = random_input(r, t);
            if (c.insts[0].in.type == "null" || c.insts[0].in.type == "closed" || c.insts[0].in.type == "tty") { c.insts[0].in = InputSpec(); if (!t.empty()) c.insts[0].in.chunks = { { 0, t } }; }
            if (c.insts[0].in.end == "block") c.insts[0].in.end = "eof";
            std::string all;
            for (auto &k : c.insts[0].in.chunks) all += k.data;
            c.x["src"] = all;
        } else put_file(c, "/w/m.src", t);
    };
    with(s, src);
    if (!emit(s)) return;
    RunResult base = sim(s);
    for (int k = 0; k < 6; k++) {
        Scenario c = s;
        if (in && r.chance(50)) with(c, src);
        int w = (int)r.below(10);
        bool ok;
        if (w < 2) {
            for (int j = 0; j < 5; j++) {
                Fault f = random_fault(r, base.ev, [](const Ev &e) { return e.op == "read" || e.op == "write"; }, false, true, ok);
                if (ok) c.faults.push_back(f);
            }
        } else if (w < 6) {
            Fault f = random_fault(r, base.ev, [](const Ev &e) { return e.cls != "stderr" && e.cls != "other"; }, true, false, ok);
            if (!ok) continue;
            c.faults.push_back(f);
        } else if (w < 7) {
            if (in) c.insts[0].in.end = "eio";
            else with(c, src.substr(0, r.below(src.size() + 1)));
        } else if (w < 9) {
            size_t len = base.inst[0].out.size();
            auto &o = c.insts[0].out;
            static const std::vector<std::string> fails = { "enospc", "eio", "epipe", "edquot" };
            static const std::vector<std::string> types = { "file", "pipe", "tty" };
            o.type = r.pick(types);
            o.fail = r.pick(fails);
            o.cap = (long)r.below(len + 1);
            if (r.chance(40)) o.maxwrite = (int)r.range(1, 60);
        } else {
            long n = 0;
            for (auto &e : base.allocs) n += e.second;
            if (n < 2) continue;
            Fault f;
            f.inst = 0; f.role = "objfile"; f.op = "malloc"; f.kind = "err";
            f.nth = (int)r.below((uint64_t)n);
            f.arg = r.chance(60) ? 1 : -1;
            c.faults.push_back(f);
        }
        if (!emit(c)) return;
    }
}
static Register r26({ "C26", "objfile writes a complete library tape or fails", 5000, 50000, gen26, check26,
    "one case is one simulated run of objfile on a library source (of this tree or random) with faults on its reads and writes, refused allocations, limited output, cuts and errors in the source, judged by an independent description of the tape; or the assembly of the whole library and a program run with it; "
    "non-trivial: a fault fired or the whole library was used; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C28
// The procedures of a tape, each as its numbers, and what they are called.
static std::vector<std::vector<int>> procedures_of(const std::string &lib)
{
    std::vector<std::vector<int>> o;
    std::vector<int> cur;
    for (auto &h : heptads(lib)) {
        if (cur.empty() && h.val == 0) continue;
        cur.push_back(h.val);
        size_t n = cur.size();
        if (n > 4 && cur[n - 1] == 0 && cur[n - 2] == 0 && cur[n - 3] == 0 && cur[n - 4] == 127) { o.push_back(cur); cur.clear(); }
    }
    return o;
}
static int number_of(const std::vector<int> &p)
{
    // 27 bits of each group of four follow the first one bit: 13 bits length, 13 bits number
    std::string bits;
    for (size_t i = 1; i < p.size(); i++) for (int b = (i % 4 == 1) ? 6 : 6; b >= ((i % 4 == 1) ? 1 : 0); b--) bits += (char)('0' + ((p[i] >> b) & 1));
    size_t q = bits.find('1');
    if (q == std::string::npos || q + 27 > bits.size()) return -1;
    int n = 0;
    for (int k = 0; k < 13; k++) n = n * 2 + (bits[q + 14 + (size_t)k] - '0');
    return n;
}
static std::string tape_text(Rng &r, const std::vector<int> &h, bool binary)
{
    std::string t;
    if (binary) { for (int x : h) t += (char)x; return t; }
    int style = (int)r.below(4);
    for (size_t i = 0; i < h.size(); i++) {
        t += std::to_string(h[i]);
        if (style == 0) t += ' ';
        else if (style == 1) t += '\n';
        else if (style == 2) t += i % 20 == 19 ? "\r\n" : "  ";
        else t += r.chance(20) ? "\n" : r.chance(20) ? "\t" : " ";
    }
    if (r.chance(50)) t += "\n";
    return t;
}
static const std::map<int, std::string> &library_names()
{
    static const std::map<int, std::string> n = { { 0, "SUM" }, { 7, "RESYM" }, { 8, "PRSYM" }, { 17, "RANDOM" }, { 18, "SETRANDOM" } };
    return n;
}
static std::string object_of(const RunResult &r)
{
    auto f = r.files.find("/w/t.x1");
    return f == r.files.end() ? std::string("(none)") : f->second;
}
static Verdict check28(const Scenario &s)
{
    Verdict v;
    // the plain way: the whole library of this tree on one tape
    Scenario b = s;
    b.faults.clear();
    Instance pi = sim_instance({ "t.a60" });
    pi.in = s.insts[0].in;
    if (s.x.count("stdin")) pi.in.type = "null";
    b.insts = { pi };
    put_file(b, "/opt/x1/lib/x1algol.lib", g_library);
    RunResult q = sim(b, &v);
    auto &w = q.inst[0];
    if (!contained(v, b, q, 0)) return v;
    RunResult r = sim(s, &v);
    nontrivial(r.hash);
    auto &i = r.inst[0];
    bool direct = s.insts[0].exe == "x1algc";
    if (!contained(v, s, r, 0, !direct)) return v;
    std::string object = object_of(q);
    auto missing = get(s, "missing");
    if (!missing.empty()) {
        if (i.ok()) return blame(v, "status", "a procedure is on none of the tapes, and the run succeeded: " + missing + end_of(i));
        if (!direct && !i.out.empty()) return blame(v, "output", "a procedure is on none of the tapes, and the program was executed: " + missing + end_of(i));
        // it is named, in the listing of the compiler; when a tape cannot be opened, the tape is
        std::string said = direct ? i.out + i.err : object_of(r) + i.err;
        for (auto &n : lines_of(missing)) {
            std::string x = n.substr(0, n.find('\n'));
            if (said.find(x) == std::string::npos) return blame(v, "silent", "nothing is said about " + x + ": " + end_of(i) + quote(said));
        }
        probe("missing procedure reported");
        return v;
    }
    if (direct) {
        if (!i.ok()) return blame(v, "status", "x1algc failed: " + end_of(i));
        if (i.out != object) return blame(v, "object", "the object program differs: " + diff_text(i.out, object));
        probe(s.x.count("stdin") ? "x1algc, source on its input" : s.x.count("binary") ? "x1algc, binary tapes" : "x1algc");
        return v;
    }
    if (i.status() != w.status() || i.out != w.out) return blame(v, "run", "the run differs: " + end_of(i) + " instead of " + end_of(w) + diff_text(i.out, w.out));
    if (object_of(r) != object) return blame(v, "object", "the object program differs: " + diff_text(object_of(r), object));
    probe("x1sim with tapes");
    return v;
}
static void gen28(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Scenario s = base_scenario("C28", seed);
    s.insts.push_back(sim_instance({ "t.a60" }));
    static const std::vector<std::pair<std::string, std::vector<int>>> uses = {
        { "SETRANDOM(17);", { 18 } }, { "print(RANDOM);", { 17 } }, { "print(SUM(i, 1, 4, i × i));", { 0 } }, { "PRSYM(10);", { 8 } }, { "i := RESYM; print(i);", { 7 } },
        { "PRINTTEXT(`text');", {} }, { "print(EVEN(i));", {} }, { "SPACE(3);", {} },
        { "'begin' 'procedure' p(f); 'real' 'procedure' f; print(f); p(RANDOM) 'end';", { 17 } },
        { "print(SUM(j, 1, 3, SUM(i, 1, j, RANDOM)));", { 0, 17 } },
    };
    std::set<int> needed;
    bool model = r.chance(35);
    if (model) {
        Profile p = random_profile(r);
        p.library = true;
        p.resym = r.chance(40);
        if (!add_program(s, r, "t.a60", p)) return;
        s.insts[0].in = random_input(r, get(s, "in.t.a60"));
        for (auto &x : { "want.t.a60", "werr.t.a60", "prog.t.a60", "in.t.a60", "input.t.a60" }) s.x.erase(x);
    } else {
        std::string body;
        int n = (int)r.range(0, 5);
        for (int k = 0; k < n; k++) {
            auto &u = uses[r.below(uses.size())];
            body += u.first + " ";
            for (int x : u.second) needed.insert(x);
        }
        put_file(s, "/w/t.a60", algol("'begin' 'integer' i, j; i := 3; " + body + "NLCR 'end'") + "\n");
        s.insts[0].in.type = "file";
        s.insts[0].in.chunks = { { 0, "abcdefgh\n12\n" } };
    }
    auto procs = procedures_of(g_library);
    std::map<int, std::vector<int>> by;
    for (auto &p : procs) { int n = number_of(p); if (n >= 0) by[n] = p; }
    for (auto &x : library_names()) if (!by.count(x.first)) return; // the library is built in another way
    for (int k = 0; k < 4; k++) {
        Scenario c = s;
        bool direct = r.chance(40), binary = direct && r.chance(50);
        if (!model && needed.empty() && r.chance(50)) {
            // source from the standard input, no library
            c.insts[0] = tool_instance("x1algc", {});
            c.x["stdin"] = "1";
            c.insts[0].in = InputSpec();
            std::string src = data_of(c, "/w/t.a60");
            c.insts[0].in.type = r.chance(50) ? "pipe" : "file";
            size_t p = 0;
            while (p < src.size()) { size_t n = 1 + r.below(r.chance(50) ? 10 : 2000); c.insts[0].in.chunks.push_back({ r.range(0, 3000), src.substr(p, n) }); p += n; }
            if (r.chance(50)) c.insts[0].in.maxread = (int)r.range(1, 100);
            if (!emit(c)) return;
            continue;
        }
        // what is on the tapes, in which order
        struct Part { std::vector<int> h; int n; };
        std::vector<Part> parts;
        std::vector<int> order;
        for (auto &x : by) order.push_back(x.first);
        std::set<int> lost;
        if (!model && r.chance(20)) for (int x : order) if (r.chance(30)) lost.insert(x);
        bool only = !model && r.chance(30); // nothing that is not needed
        for (size_t a = order.size(); a > 1; a--) std::swap(order[a - 1], order[r.below(a)]);
        auto decoy = [&](int num) {
            for (int tries = 0; tries < 8; tries++) {
                std::string src = random_library_source(r);
                Tape t = tape_of(src, num, false);
                if (!t.ok || t.length < 1 || t.length > 1000) continue;
                std::vector<int> h;
                for (auto &x : heptads(t.text)) h.push_back(x.val);
                // two blanks in a row end a procedure that is passed over, so none may be inside, and it must be longer than what is read ahead
                if (h.size() < 20) continue;
                bool blanks = false;
                for (size_t a = 9; a + 4 < h.size(); a++) if (h[a] == 0 && h[a + 1] == 0) blanks = true;
                if (!blanks) { parts.push_back({ h, -1 }); return; }
            }
        };
        std::set<int> seen;
        for (int x : order) {
            if (lost.count(x) || (only && !needed.count(x))) continue;
            while (r.chance(25)) { static const std::vector<int> free_numbers = { 1, 2, 3, 4, 5, 6, 9, 10, 24, 33, 49, 50 }; decoy(r.pick(free_numbers)); }
            parts.push_back({ by[x], x });
            seen.insert(x);
            // a later procedure of the same number is not used
            if (r.chance(15)) { if (r.chance(50)) parts.push_back({ by[x], x }); else decoy(x); }
        }
        if (r.chance(10) && !seen.empty()) decoy(*seen.begin());
        // on which tapes
        int tapes = (int)r.range(1, 5);
        std::vector<std::string> names, data;
        std::vector<int> h;
        auto finish = [&]() {
            if (r.chance(20)) { for (int x : { 30, 124, 0, 0, 0, 0, 0 }) h.push_back(x); }
            else if (r.chance(20)) for (int a = (int)r.below(30); a > 0; a--) h.push_back(0);
            std::string name = fmt("/w/lib%d%s", (int)names.size(), r.chance(30) ? ".x1" : r.chance(50) ? ".lib" : "");
            names.push_back(name.substr(3));
            if (r.chance(30)) { name = "/d/" + name.substr(3); names.back() = name; }
            put_file(c, name, tape_text(r, h, binary));
            h.clear();
        };
        std::vector<size_t> cuts;
        for (int a = 1; a < tapes && !parts.empty(); a++) cuts.push_back(r.below(parts.size() + 1));
        for (size_t a = 0; a < parts.size(); a++) {
            if (a > 0 && !h.empty() && std::count(cuts.begin(), cuts.end(), a)) finish();
            if (r.chance(30)) for (int b = (int)r.below(12); b > 0; b--) h.push_back(0);
            h.insert(h.end(), parts[a].h.begin(), parts[a].h.end());
        }
        if (!h.empty()) finish();
        std::string missing;
        std::set<int> open = needed;
        for (int x : seen) open.erase(x);
        for (int x : open) missing += library_names().at(x) + "\n";
        // a tape that is not there, behind the others
        if (r.chance(10)) {
            names.push_back("nowhere.lib");
            if (!missing.empty()) missing = "nowhere.lib\n";
        }
        if (names.empty()) continue;
        std::vector<std::string> args = { "t.a60" };
        args.insert(args.end(), names.begin(), names.end());
        if (binary) args.insert(args.begin(), "-b");
        Instance old = c.insts[0];
        c.insts[0] = direct ? tool_instance("x1algc", args) : sim_instance(args);
        c.insts[0].in = old.in;
        if (binary) c.x["binary"] = "1";
        if (!missing.empty()) c.x["missing"] = missing;
        if (!direct && r.chance(50)) c.files.erase(std::remove_if(c.files.begin(), c.files.end(), [](const FileSpec &f) { return f.path == "/opt/x1/lib/x1algol.lib"; }), c.files.end());
        c.x["note.parts"] = fmt("%d parts on %d tapes", (int)parts.size(), (int)names.size());
        if (!emit(c)) return;
    }
}
static Register r28({ "C28", "The library may be laid out in any way", 1500, 40000, gen28, check28,
    "one case is one simulated compilation with the procedures of the library in some order, on one or several tapes, among procedures that are not needed or come a second time, with blank tape between, in decimal or in binary, or with the source on the standard input, "
    "compared with the compilation with the library as shipped; or with a needed procedure on none of the tapes; distinct by execution hash", "" });
