// What a program and its environment say to each other: input, output, operator, clock, random numbers.
#include "oracle.h"
#include <cmath>
#include <stdlib.h>
#include <time.h>
#include <string.h>

size_t given(const Instance &i)
{
    size_t n = 0;
    for (auto &c : i.in.chunks) n += c.data.size();
    return n;
}
static void truncate_input(Instance &i, size_t len)
{
    std::vector<Chunk> o;
    for (auto &c : i.in.chunks) {
        if (len == 0) break;
        Chunk k = c;
        if (k.data.size() > len) k.data.resize(len);
        len -= k.data.size();
        o.push_back(k);
    }
    i.in.chunks = o;
}
static bool end_kind(char k) { return k == 'e' || k == 'E' || k == 'X'; }
static bool bad_kind(char k) { return k == 'B' || k == 'Y'; }
// The first request that cannot be served from so many characters.
static int unmet(const ModelRun &m, size_t have)
{
    for (size_t k = 0; k < m.needs.size(); k++)
        if (end_kind(m.needs[k].kind) || m.needs[k].in_need > have) return (int)k;
    return -1;
}
static const char *RETRY = "Bad input, try again.\n";

// The whole dialogue: every read happens at a request of the program which the characters so far
// do not satisfy, with all output before that request delivered; and the end is as it must be.
bool dialogue(Verdict &v, const Scenario &s, const RunResult &r, const ModelRun &m, const std::string &what)
{
    auto &in = s.insts[0];
    auto &i = r.inst[0];
    bool live = in.in.type != "file";
    size_t have = 0;
    bool over = false;
    for (auto &e : r.ev) {
        if (e.inst != 0 || e.role != "x1sim" || e.cls != "stdin" || (e.op != "read" && e.op != "blocked")) continue;
        int k = unmet(m, have);
        if (over) continue; // asking again after the end
        if (k < 0) { blame(v, "eager", what + fmt(": asked for input beyond the %zu characters it needs", have)); return false; }
        if (live && !(e.out_len == m.needs[k].out_len ||
            (in.in.type == "tty" && m.needs[k].kind == 'B' && e.out_len == m.needs[k].out_len + strlen(RETRY)))) {
            blame(v, "order", what + fmt(": waited for input after %zu characters of output and %zu of input, should be after %zu of output", e.out_len, have, m.needs[k].out_len));
            return false;
        }
        probe(live ? "awaited input" : "read input");
        if (e.ret <= 0) over = true;
        else have += (size_t)e.ret;
    }
    size_t n = given(in);
    int k = unmet(m, n);
    if (in.in.end == "block") {
        if (k < 0) return exact(v, s, i, m.out, m.error, what + ", all input given and left open");
        if (bad_kind(m.needs[k].kind) && !(in.in.type == "tty")) return true; // decided by an incomplete entry
        if (i.how != "blocked") { blame(v, "eager", what + ": did not wait for its input: " + end_of(i)); return false; }
        std::string w = m.out.substr(0, m.needs[k].out_len);
        if (i.out != w && !(bad_kind(m.needs[k].kind) && i.out == w + RETRY)) { blame(v, "order", what + ": while waiting for input: " + diff_text(i.out, w)); return false; }
        probe("left waiting");
        return true;
    }
    if (k >= 0 && !(end_kind(m.needs[k].kind) && n >= m.needs[k].in_need)) {
        // cut short before a number or the switches
        std::string w = m.out.substr(0, m.needs[k].out_len);
        return exact(v, s, i, w, true, what + ", input ended early");
    }
    if (in.in.end == "eio" && k >= 0) {
        // the failing read is the one that would have met the end
        std::string w = m.out.substr(0, m.needs[k].out_len);
        return exact(v, s, i, w, true, what + ", input failed");
    }
    return exact(v, s, i, m.out, m.error, what);
}
// Applies what x says about the input: cut at a request, how it ends, characters nobody asks for.
Scenario with_input(const Scenario &s, const ModelRun &m)
{
    Scenario c = s;
    auto &in = c.insts[0];
    if (s.x.count("cutneed") && !m.needs.empty()) {
        size_t k = (size_t)getn(s, "cutneed") % (m.needs.size() + 1);
        size_t len = k < m.needs.size() ? m.needs[k].in_need : m.in.size();
        long d = getn(s, "cutoff");
        if (d < 0 && (size_t)-d > len) len = 0;
        else len = (size_t)((long)len + d);
        if (len > m.in.size()) len = m.in.size();
        if (in.in.end != "block") {
            // end or fail only between requests, and where numbers or switches come next
            for (; k < m.needs.size(); k++) {
                size_t from = k ? m.needs[k - 1].in_need : 0;
                if ((m.needs[k].kind == 'n' || m.needs[k].kind == 'x')) { len = from; break; }
            }
            if (k >= m.needs.size()) len = m.in.size();
        }
        truncate_input(in, len);
    }
    if (s.x.count("tail")) {
        bool may = true;
        for (auto &n : m.needs) if (end_kind(n.kind) || bad_kind(n.kind)) may = false;
        if (may) {
            long t = in.in.chunks.empty() ? 0 : in.in.chunks.back().at_us + 100;
            in.in.chunks.push_back({ t, get(s, "tail") });
        }
    }
    return c;
}
Scenario input_scenario(const std::string &prop, uint64_t seed, Rng &r, Profile p, int cut, int bad)
{
    Scenario s = base_scenario(prop, seed);
    s.insts.push_back(sim_instance({ "t.a60" }));
    if (!add_program(s, r, "t.a60", p, cut, bad)) return s;
    s.insts[0].in = random_input(r, get(s, "in.t.a60"), p.tty);
    return s;
}
static Profile input_profile(Rng &r)
{
    Profile p = random_profile(r);
    p.stmts = (int)r.range(4, 14);
    int w = (int)r.below(7);
    p.input = w != 1 && w != 2;
    p.xeen = w == 1 || w == 3 || w == 4;
    p.resym = w == 2 || w == 4 || w == 5;
    p.stop = p.xeen && r.chance(60);
    return p;
}

// ---------------------------------------------------------------------- C03
static Verdict check03(const Scenario &s)
{
    Verdict v;
    Program P = program_of(s, "t.a60");
    Scenario c = with_input(s, P.model);
    RunResult r = sim(c, &v);
    if (r.inst[0].in_reads > 1 || r.fired_faults) nontrivial(r.hash);
    std::string how = s.insts[0].in.type + " input";
    if (exact(v, c, r.inst[0], P.model.out, P.model.error, how)) probe(fmt("%s in %s reads", how.c_str(), r.inst[0].in_reads < 2 ? "0-1" : r.inst[0].in_reads < 10 ? "2-9" : "10+"));
    return v;
}
static void gen03(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Profile p = input_profile(r);
    int cut = r.chance(25) ? (int)r.below(6) : -1;
    int bad = cut < 0 && p.resym && !p.input && !p.xeen && r.chance(40) ? (int)r.below(8) : -1;
    Scenario s = input_scenario("C03", seed, r, p, cut, bad);
    if (!s.x.count("prog.t.a60")) return;
    const std::string in = get(s, "in.t.a60");
    for (int k = 0; k < 5; k++) {
        Scenario c = s;
        c.insts[0].in = random_input(r, in);
        if (k == 0) c.insts[0].in.type = "file";
        if (r.chance(40)) {
            static const std::vector<std::string> t = { "1", "\n", "abc", " 12 34\n", "?\xff", "\xe2\x8f", "0 0 0 0 0 0 0 0", "-" };
            c.x["tail"] = r.pick(t);
        }
        if (k >= 3) {
            c.x.erase("tail");
            RunResult b = sim(c);
            for (int j = 0; j < 8; j++) {
                bool ok;
                Fault f = random_fault(r, b.ev, [](const Ev &e) { return e.op == "read" && e.cls == "stdin"; }, false, true, ok);
                if (ok) c.faults.push_back(f);
            }
        }
        if (!emit(c)) return;
    }
}
static Register r03({ "C03", "How input arrives does not matter", 1700, 50000, gen03, check03,
    "one case is one simulated run of a generated program that reads numbers, characters or switches, its input arriving from a file, pipe or device in seeded pieces, delays and short reads, sometimes followed by characters nobody asks for; "
    "non-trivial: more than one read or a fault fired; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C04
static Verdict check04(const Scenario &s)
{
    Verdict v;
    Program P = program_of(s, "t.a60");
    Scenario c = with_input(s, P.model);
    RunResult r = sim(c, &v);
    if (r.inst[0].in_reads) nontrivial(r.hash);
    if (!contained(v, c, r, 0)) return v;
    dialogue(v, c, r, P.model, c.insts[0].in.type + " input");
    return v;
}
static void gen04(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Profile p = input_profile(r);
    p.tty = r.chance(40);
    int bad = p.tty && r.chance(25) ? 125 : -1;
    int cut = bad < 0 && r.chance(20) ? (int)r.below(6) : -1;
    Scenario s = input_scenario("C04", seed, r, p, cut, bad);
    if (!s.x.count("prog.t.a60")) return;
    const std::string in = get(s, "in.t.a60");
    for (int k = 0; k < 6; k++) {
        Scenario c = s;
        c.insts[0].in = random_input(r, in, p.tty);
        if (c.insts[0].in.type == "file") c.insts[0].in.type = "pipe", c.insts[0].in.maxread = 0;
        if (r.chance(40)) c.insts[0].out.type = r.chance(50) ? "tty" : "pipe";
        if (k == 0) { emit(c); continue; }
        c.insts[0].in.end = k < 4 ? "block" : k == 4 ? "eof" : "eio";
        c.x["cutneed"] = std::to_string(r.below(40));
        c.x["cutoff"] = std::to_string(r.chance(50) ? -1 : r.chance(50) ? 0 : r.range(-4, 4));
        if (!emit(c)) return;
    }
}
static Register r04({ "C04", "Output appears before input is awaited", 1300, 40000, gen04, check04,
    "one case is one simulated run of a generated program whose input arrives in seeded pieces and then stalls, ends or fails at a seeded place; every read of the program is compared with the request of the reference interpreter that needs it; "
    "non-trivial: at least one read of input; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C13
static Verdict check13(const Scenario &s)
{
    Verdict v;
    Program P = program_of(s, "t.a60");
    Scenario c = with_input(s, P.model);
    RunResult r = sim(c, &v);
    int asks = 0;
    for (auto &n : P.model.needs) if (n.kind == 'x' || n.kind == 'X' || n.kind == 'Y') asks++;
    if (asks) nontrivial(r.hash);
    probe(fmt("%d requests for switches", std::min(asks, 5)));
    if (!contained(v, c, r, 0)) return v;
    dialogue(v, c, r, P.model, "operator at a " + c.insts[0].in.type);
    return v;
}
static void gen13(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Profile p = random_profile(r);
    p.stmts = (int)r.range(6, 16);
    p.xeen = p.stop = true;
    p.input = r.chance(30);
    p.resym = r.chance(15);
    p.tty = r.chance(60);
    int bad = r.chance(45) ? (p.tty ? (r.chance(50) ? 130 : (int)r.below(4)) : (int)r.below(4)) : -1;
    int cut = bad < 0 && r.chance(20) ? (int)r.below(4) : -1;
    Scenario s = input_scenario("C13", seed, r, p, cut, bad);
    if (!s.x.count("prog.t.a60")) return;
    const std::string in = get(s, "in.t.a60");
    for (int k = 0; k < 4; k++) {
        Scenario c = s;
        c.insts[0].in = random_input(r, in, p.tty);
        if (k >= 2) {
            c.insts[0].in.end = k == 2 ? "block" : r.chance(50) ? "eof" : "eio";
            if (c.insts[0].in.type == "file" && k == 2) c.insts[0].in.type = "pipe";
            c.x["cutneed"] = std::to_string(r.below(20));
            c.x["cutoff"] = std::to_string(r.chance(50) ? -1 : 0);
        }
        if (!emit(c)) return;
    }
}
static Register r13({ "C13", "Console switches follow the operator", 1700, 50000, gen13, check13,
    "one case is one simulated dialogue between a generated program using switches and STOP and an operator whose entries (valid or not) arrive in seeded pieces, stall, end or fail; non-trivial: the switches were asked for; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C23
static Verdict check23(const Scenario &s)
{
    Verdict v;
    Program P = program_of(s, "t.a60");
    Scenario c = with_input(s, P.model);
    RunResult r = sim(c, &v);
    int bad = 0;
    for (auto &n : P.model.needs) if (bad_kind(n.kind)) bad++;
    if (bad) nontrivial(r.hash);
    probe(fmt("%d refused entries", std::min(bad, 6)));
    if (!contained(v, c, r, 0)) return v;
    dialogue(v, c, r, P.model, "dialogue at a " + c.insts[0].in.type);
    return v;
}
static void gen23(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Profile p = input_profile(r);
    p.input = true;
    p.tty = r.chance(75);
    int bad = p.tty ? (r.chance(60) ? 100 + (int)r.range(10, 70) : (int)r.below(5)) : (int)r.below(5);
    Scenario s = input_scenario("C23", seed, r, p, -1, bad);
    if (!s.x.count("prog.t.a60")) return;
    const std::string in = get(s, "in.t.a60");
    for (int k = 0; k < 4; k++) {
        Scenario c = s;
        c.insts[0].in = random_input(r, in, p.tty);
        if (r.chance(40)) c.insts[0].out.type = r.chance(50) ? "tty" : "pipe";
        if (k == 3) {
            c.insts[0].in.end = "block";
            if (c.insts[0].in.type == "file") c.insts[0].in.type = "pipe";
            c.x["cutneed"] = std::to_string(r.below(20));
            c.x["cutoff"] = std::to_string(r.chance(50) ? -1 : r.chance(50) ? 0 : -2);
        }
        if (!emit(c)) return;
    }
}
static Register r23({ "C23", "Wrong entries at the terminal are asked for again", 1700, 50000, gen23, check23,
    "one case is one simulated dialogue with a program that reads, the entries (a seeded share of them no numbers) arriving in seeded pieces at a terminal or elsewhere; non-trivial: at least one entry is refused; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C05
// The program is a list of steps, kept in x so that it can be read in a replay.
static std::string clock_program(const std::string &steps)
{
    std::string d, b;
    int loops = 0;
    for (size_t k = 0; k < steps.size(); k++) {
        char c = steps[k];
        std::string id = std::to_string(k);
        switch (c) {
        case 'P': b += "print(TIMEOFDAY); NLCR;\n"; break;
        case 'S': b += "t" + id + " := TIMEOFDAY; print(7); NLCR;\n"; d += "_r_e_a_l t" + id + ";\n"; break;
        case 'V': {
            size_t p = steps.rfind('S', k);
            b += p == std::string::npos ? "print(8); NLCR;\n" : "print(t" + std::to_string(p) + "); NLCR;\n";
            break;
        }
        case 'D': b += "print(TIMEOFDAY - 0); NLCR;\n"; break;
        case 'R': b += "x := read; print(x); NLCR;\n"; break;
        case 'L': b += "_f_o_r i := 1 _s_t_e_p 1 _u_n_t_i_l 30 _d_o x := x + 1;\n"; loops++; break;
        case 'F': b += "twice(TIMEOFDAY);\n"; break;
        case 'G': b += "once(TIMEOFDAY);\n"; break;
        case 'U': b += "_i_f TIMEOFDAY > - 1 _t_h_e_n print(9) _e_l_s_e print(6); NLCR;\n"; break;
        }
    }
    return "_b_e_g_i_n _r_e_a_l x; _i_n_t_e_g_e_r i;\n" + d +
        "_p_r_o_c_e_d_u_r_e twice(a); _r_e_a_l a; _b_e_g_i_n print(a); NLCR; print(a); NLCR _e_n_d;\n"
        "_p_r_o_c_e_d_u_r_e once(a); _v_a_l_u_e a; _r_e_a_l a; _b_e_g_i_n print(5); NLCR; print(a); NLCR _e_n_d;\n"
        "x := 0;\n" + b + "print(1); NLCR _e_n_d\n";
}
static long double local_seconds(const std::string &tz, long us)
{
    setenv("TZ", tz.c_str(), 1);
    tzset();
    long sec = us / 1000000, rest = us % 1000000;
    if (rest < 0) { rest += 1000000; sec--; }
    time_t t = sec;
    struct tm tm;
    localtime_r(&t, &tm);
    return tm.tm_hour * 3600.0L + tm.tm_min * 60.0L + tm.tm_sec + rest * 1e-6L;
}
static Verdict check05(const Scenario &s)
{
    Verdict v;
    RunResult r = sim(s, &v);
    auto &i = r.inst[0];
    const std::string steps = get(s, "steps"), tz = get(s, "tz", "UTC");
    nontrivial(r.hash);
    if (!i.ok()) return blame(v, i.how == "exit" ? "status" : i.how, "should have succeeded: " + end_of(i));
    // lines, and where each starts
    std::vector<std::string> line;
    std::vector<size_t> start;
    for (size_t p = 0; p < i.out.size();) {
        size_t e = i.out.find('\n', p);
        if (e == std::string::npos) return blame(v, "output", "unfinished line: " + end_of(i));
        start.push_back(p);
        line.push_back(i.out.substr(p, e - p));
        p = e + 1;
    }
    // where each value was asked for: line during which, line that shows it
    std::vector<std::pair<int, int>> ask;
    std::vector<int> used;
    int n = 0;
    size_t reads = 0;
    std::map<size_t, int> saved;
    std::vector<std::pair<int, std::string>> fixed;
    for (size_t k = 0; k < steps.size(); k++) {
        switch (steps[k]) {
        case 'P': case 'D': ask.push_back({ n, n }); n++; break;
        case 'S': saved[k] = n; fixed.push_back({ n, "7" }); n++; break;
        case 'V': {
            size_t p = steps.rfind('S', k);
            if (p == std::string::npos) fixed.push_back({ n, "8" });
            else ask.push_back({ saved[p], n });
            n++;
            break;
        }
        case 'R': reads++; n++; break;
        case 'F': ask.push_back({ n, n }); n++; ask.push_back({ n, n }); n++; break;
        case 'G': fixed.push_back({ n, "5" }); ask.push_back({ n, n + 1 }); n += 2; break;
        case 'U': fixed.push_back({ n, "9" }); n++; break;
        }
    }
    fixed.push_back({ n, "1" });
    n++;
    if ((int)line.size() != n) return blame(v, "output", fmt("%zu lines instead of %d: ", line.size(), n) + quote(i.out));
    for (auto &f : fixed) if (line[f.first] != f.second) return blame(v, "output", fmt("line %d is ", f.first) + quote(line[f.first]));
    for (auto &a : ask) {
        char *e;
        long double val = strtold(line[a.second].c_str(), &e);
        if (*e || line[a.second].empty()) return blame(v, "output", fmt("line %d is no time: ", a.second) + quote(line[a.second]));
        if (val < 0 || val >= 86400.002L) return blame(v, "range", fmt("time %Lf", val));
        // the clock must have been read while this line was the next to be written
        bool any = false, good = false;
        std::string seen;
        for (auto &ev : r.ev) {
            if (ev.inst != 0 || ev.role != "x1sim" || ev.op != "clock" || ev.cls != "wall" || ev.out_len != start[a.first]) continue;
            any = true;
            long double want = local_seconds(tz, ev.val);
            if (fabsl(want - val) <= 0.002L || (want > 86399.99L && val < 0.01L) ) good = true;
            seen += fmt(" %.6Lf", want);
        }
        if (!any) return blame(v, "stale", fmt("the time shown in line %d was not taken when it was asked for", a.second));
        if (!good) return blame(v, "wrong", fmt("line %d shows %.6Lf, the clock was", a.second, val) + seen);
        probe("time of day checked");
    }
    return v;
}
static void gen05(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Scenario s = base_scenario("C05", seed);
    s.insts.push_back(sim_instance({ "t.a60" }));
    static const std::vector<std::string> zones = { "UTC", "UTC", "XXX-3:30", "YYY+11", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "ZZZ-14", "WWW+12", "NNN-5:45" };
    std::string steps;
    int n = (int)r.range(3, 12);
    static const char kinds[] = "PPPPSSVVDRRLFGU";
    size_t reads = 0;
    for (int k = 0; k < n; k++) { steps += kinds[r.below(sizeof kinds - 1)]; if (steps.back() == 'R') reads++; }
    steps += 'P';
    s.x["steps"] = steps;
    s.x["note.steps"] = steps;
    put_file(s, "/w/t.a60", clock_program(steps));
    for (int k = 0; k < 4; k++) {
        Scenario c = s;
        std::string tz = r.pick(zones);
        c.x["tz"] = tz;
        c.insts[0].env["TZ"] = tz;
        if (r.chance(10)) { c.insts[0].env.erase("TZ"); c.x["tz"] = "UTC"; }
        c.tick_us = r.chance(50) ? 50 : 200000;
        if (r.chance(60)) {
            // close to midnight, to the change of the clocks, to the start of the era
            long day = 86400000000l;
            long base = r.chance(70) ? 1700000000000000l / day * day + (long)r.below(400) * day : r.chance(50) ? 1711846800000000l : 1729990800000000l;
            long off = (long)local_seconds(tz, base) * 1000000l;
            if (r.chance(70)) base -= off;
            c.wall0_us = base + r.range(-3, 3) * 1000000l * (long)(r.chance(50) ? 1 : 60) + (long)r.below(1000000);
        } else c.wall0_us = (long)r.below(4000000000u) * 1000000l + (long)r.below(1000000);
        c.insts[0].in.type = "pipe";
        long t = 0;
        for (size_t j = 0; j < reads; j++) {
            t += r.chance(50) ? (long)r.below(5000000) : (long)r.below(100000000000l);
            c.insts[0].in.chunks.push_back({ t, std::to_string(r.below(50)) + "\n" });
        }
        if (r.chance(60)) {
            RunResult b = sim(c);
            std::vector<const Ev *> at;
            for (auto &e : b.ev) if (e.op == "clock" && e.cls == "wall") at.push_back(&e);
            for (int j = (int)r.range(1, 3); j > 0 && !at.empty(); j--) {
                const Ev &e = *at[r.below(at.size())];
                Fault f;
                f.inst = e.inst; f.role = e.role; f.op = e.op; f.cls = e.cls; f.nth = e.nth; f.kind = "jump";
                static const std::vector<long> js = { 3600000000l, -3600000000l, 86400000000l, -86400000000l * 3, 1500000, -1500000, -200000, 400000000000l };
                f.arg = r.pick(js) + (long)r.below(1000);
                c.faults.push_back(f);
            }
        }
        if (!emit(c)) return;
    }
}
static Register r05({ "C05", "The time of day is taken when it is asked for", 1700, 50000, gen05, check05,
    "one case is one simulated run of a program that asks for the time in various ways, between delayed input and output, under a seeded clock (start, speed, time zone, steps forwards and back, midnight); every value is compared with the simulated clock at its request; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C06
// Steps: R P N G print a random number, ? check of its range, L many of them, 0-9 set seed, noise: i input, l loop, o output, t time.
static const char *seed_text[] = { "0", "1", "2", "0.25", "- 3", "12345", "0.1", "67108863", "2.5@7", "17" };
static std::string random_program(const std::string &steps, const std::vector<std::string> &seeds)
{
    std::string b;
    for (char c : steps) {
        if (c == 'R') b += "x := RANDOM; print(x); NLCR;\n";
        else if (c == 'P') b += "print(RANDOM); NLCR;\n";
        else if (c == 'N') b += "p(RANDOM);\n";
        else if (c == 'G') b += "a[entier(1.5)] := RANDOM; print(a[1]); NLCR;\n";
        else if (c == '?') b += "x := RANDOM; _i_f x < 0 _t_h_e_n print(- 8) _e_l_s_e _i_f x < 1 _t_h_e_n print(x) _e_l_s_e print(8); NLCR;\n";
        else if (c == 'L') b += "y := 0; _f_o_r i := 1 _s_t_e_p 1 _u_n_t_i_l 320 _d_o _b_e_g_i_n x := RANDOM; _i_f x < 0 _t_h_e_n y := - 8 _e_l_s_e _i_f x < 1 _t_h_e_n _e_l_s_e y := 8 _e_n_d; "
            "print(_i_f y = 0 _t_h_e_n x _e_l_s_e y); NLCR;\n";
        else if (c >= '0' && c <= '9') b += "SETRANDOM(" + seeds[c - '0'] + ");\n";
        else if (c == 'i') b += "y := read; SPACE(3); NLCR;\n";
        else if (c == 'l') b += "_f_o_r i := 1 _s_t_e_p 1 _u_n_t_i_l 20 _d_o y := sqrt(i);\n";
        else if (c == 'o') b += "SPACE(3); NLCR;\n";
        else if (c == 't') b += "y := TIMEOFDAY;\n";
    }
    return "_b_e_g_i_n _r_e_a_l x, y; _i_n_t_e_g_e_r i; _a_r_r_a_y a[1:3]; _p_r_o_c_e_d_u_r_e p(z); _r_e_a_l z; _b_e_g_i_n print(z); NLCR _e_n_d;\n x := y := 0;\n" + b + "SPACE(2) _e_n_d\n";
}
static size_t draws(char c) { return c == 'R' || c == 'P' || c == '?' || c == 'N' || c == 'G' ? 1 : c == 'L' ? 320 : 0; }
// Seeds the generator's 32-bit register cannot tell apart.
static bool coincide(long double a, long double b)
{
    auto sum = [](long double x) {
        int e = 0;
        long double m = frexpl(fabsl(x), &e);
        unsigned long f = (unsigned long)ldexpl(m, 40);
        return x == 0 ? 0ul : ((f >> 14) + ((f & 0x3FFF) << 12) + (unsigned long)(e & 0xFFF)) & 0xFFFFFFFF;
    };
    return (a < 0) != (b < 0) || sum(a) == sum(b);
}
static std::vector<std::string> seeds_of(const Scenario &s)
{
    std::vector<std::string> o;
    for (int k = 0; k < 10; k++) o.push_back(get(s, fmt("seed.%d", k), seed_text[k]));
    return o;
}
static std::vector<std::string> numbers_in(const std::string &out)
{
    std::vector<std::string> o;
    std::stringstream l(out);
    std::string t;
    while (l >> t) o.push_back(t);
    return o;
}
static Verdict check06(const Scenario &s)
{
    Verdict v;
    RunResult r = sim(s, &v);
    nontrivial(r.hash);
    std::vector<std::vector<std::string>> got;
    for (size_t n = 0; n < s.insts.size(); n++) {
        if (!r.inst[n].ok()) return blame(v, r.inst[n].how == "exit" ? "status" : r.inst[n].how, fmt("run %zu should have succeeded: ", n) + end_of(r.inst[n]));
        got.push_back(numbers_in(r.inst[n].out));
    }
    const std::string steps = get(s, "steps.0");
    size_t want = 0;
    for (char c : steps) if (draws(c)) want++;
    for (size_t n = 0; n < got.size(); n++) {
        if (got[n].size() != want) return blame(v, "output", fmt("run %zu printed %zu numbers instead of %zu", n, got[n].size(), want));
        for (size_t k = 0; k < want; k++) {
            long double x = strtold(got[n][k].c_str(), nullptr);
            if (x < 0 || x > 1) return blame(v, "range", fmt("random number %zu of run %zu is ", k, n) + got[n][k]);
            if (got[n][k] != got[0][k]) return blame(v, "differs", fmt("random number %zu is %s in run %zu and %s in run 0", k, got[n][k].c_str(), n, got[0][k].c_str()));
        }
    }
    // sequences since the last setting of the seed
    std::map<std::string, std::map<size_t, std::string>> seq; // seed -> place -> number
    const auto seeds = seeds_of(s);
    auto value = [&](const std::string &t) { // without a blank between sign and digits, and ten as E
        std::string n;
        for (char c : t) if (c == '@') n += 'E'; else if (c != ' ') n += c;
        return strtold(n.c_str(), nullptr);
    };
    std::string cur = "*";
    size_t k = 0, at = 0;
    for (char c : steps) {
        if (c >= '0' && c <= '9') { cur = fmt("%.20Lg", round40(value(seeds[c - '0']))); at = 0; }
        else if (draws(c)) {
            at += draws(c);
            auto &q = seq[cur];
            if (q.count(at) && q[at] != got[0][k]) return blame(v, "seed", fmt("number %zu after seed %s is %s, and was %s before", at, cur.c_str(), q[at].c_str(), got[0][k].c_str()));
            if (q.count(at)) probe("sequence restarted");
            q[at] = got[0][k++];
        }
    }
    for (auto &a : seq) {
        std::set<std::string> all;
        for (auto &x : a.second) all.insert(x.second);
        if (a.second.size() >= 4 && all.size() < 3) return blame(v, "constant", "the numbers repeat themselves: " + *all.begin() + " " + *all.rbegin());
        for (auto &b : seq) {
            if (!(a.first < b.first)) continue;
            int same = 0, other = 0;
            for (auto &x : a.second) if (b.second.count(x.first)) (b.second[x.first] == x.second ? same : other)++;
            if (same < 3 || other) { if (other) probe("seeds told apart"); continue; }
            if (a.first != "*" && b.first != "*" && coincide(strtold(a.first.c_str(), nullptr), strtold(b.first.c_str(), nullptr))) continue;
            return blame(v, "seed", "seeds " + a.first + " and " + b.first + " give the same numbers");
        }
    }
    return v;
}
static void gen06(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    for (int k = 0; k < 2; k++) {
        Scenario s = base_scenario("C06", seed + k);
        // the same requests, with different things going on in between
        std::string core;
        int blocks = (int)r.range(1, 5);
        bool first = true;
        std::vector<char> seeds;
        if (r.chance(70)) {
            // seeds that differ a little, or not at all
            long double base = r.chance(50) ? (long double)r.range(1, 60) : ldexpl(1 + (long double)r.below(4096) / 4096, (int)r.range(-20, 20));
            for (int j = 0; j < 10; j++) {
                long double x = base;
                int w = (int)r.below(5);
                if (w == 0) x = ldexpl(base, (int)r.range(-9, 9));
                if (w == 1) x = base * (1 + ldexpl((long double)r.range(1, 15), -(int)r.range(4, 12)));
                if (w == 2) x = base * (1 + ldexpl(1, -(int)r.range(20, 36)));
                if (w == 3) x = base + (long double)r.range(0, 5);
                x = round40(x);
                std::string t = fmt("%.20Lg", x);
                if (t.find('e') == std::string::npos) s.x[fmt("seed.%d", j)] = t;
            }
        }
        for (int i = 0; i < blocks; i++) {
            if (!first || r.chance(50)) {
                char c = !seeds.empty() && r.chance(50) ? r.pick(seeds) : (char)('0' + r.below(10));
                seeds.push_back(c);
                core += c;
                if (r.chance(10)) core += c;
            }
            first = false;
            for (int n = (int)r.range(1, 8); n > 0; n--) core += "RP?NG"[r.below(5)];
            if (r.chance(4)) core += 'L';
        }
        int runs = (int)r.range(2, 4);
        for (int n = 0; n < runs; n++) {
            std::string st;
            size_t inputs = 0;
            for (char c : core) {
                if (n && r.chance(40)) { st += "ilot"[r.below(4)]; if (st.back() == 'i') inputs++; }
                st += c;
            }
            std::string name = fmt("t%d.a60", n);
            put_file(s, "/w/" + name, random_program(st, seeds_of(s)));
            s.x[fmt("steps.%d", n)] = n == 0 ? core : st;
            Instance in = sim_instance({ name });
            in.phase = r.chance(50) ? 0 : n;
            if (n && r.chance(40)) { in.argv.insert(in.argv.begin() + 1, "--trace=t.log"); in.argv.insert(in.argv.begin() + 1, "-d"); in.phase = n + 5; }
            if (n && r.chance(40)) in.env["RANDOM"] = "5", in.env["TZ"] = "CET-1";
            in.in.type = "pipe";
            long t = 0;
            for (size_t j = 0; j < inputs; j++) { t += (long)r.below(10000000); in.in.chunks.push_back({ t, "3\n" }); }
            s.insts.push_back(in);
        }
        // and once more the object program of the first
        Instance again = sim_instance({ "t0.x1" });
        again.phase = 20;
        s.insts.push_back(again);
        if (!emit(s)) return;
    }
}
static Register r06({ "C06", "Random numbers are a fixed sequence in [0, 1)", 1400, 40000, gen06, check06,
    "one case is a history of simulated runs that make the same requests for random numbers and seeds with different activity, clock, environment, tracing and concurrency around them, compared number by number; distinct by execution hash", "" });
