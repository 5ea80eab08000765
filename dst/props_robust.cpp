// Output that cannot be delivered, tracing, exhausted memory, combinations of everything, independence of the surroundings.
#include "oracle.h"
#include "templates.h"
#include <string.h>
#include <cmath>

static bool is_prefix(const std::string &a, const std::string &b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }
static Instance tool_instance(const std::string &exe, const std::vector<std::string> &args)
{
    Instance i = sim_instance(args);
    i.exe = exe;
    i.argv[0] = "/opt/x1/bin/" + exe;
    return i;
}

// ---------------------------------------------------------------------- C02
static Verdict check02(const Scenario &s)
{
    Verdict v;
    std::string want;
    bool werr = false;
    auto &in = s.insts[0];
    const bool traced = in.exe == "x1sim" && in.argv.size() == 3;
    if (in.exe == "x1sim" && !traced) {
        want = get(s, "want.t.a60");
        werr = get(s, "werr.t.a60") == "1";
    } else {
        Scenario b = s;
        b.faults.clear();
        b.insts[0].out = SinkSpec();
        b.insts[0].err = SinkSpec();
        RunResult q = sim(b, &v);
        if (traced) werr = get(s, "werr.t.a60") == "1";
        if (q.inst[0].ok() == werr) return blame(v, "status", in.exe + " failed without a fault: " + end_of(q.inst[0]));
        want = q.inst[0].out;
    }
    RunResult r = sim(s, &v);
    auto &i = r.inst[0];
    if (i.lost || r.fired_faults) nontrivial(r.hash);
    bool errok = in.err.cap < 0 && in.err.type != "closed";
    for (auto &f : s.faults) if (f.cls == "stderr") errok = false;
    if (!contained(v, s, r, 0, errok)) return v;
    // after a passing failure the tools may go on, but not as if nothing had happened
    bool passing = false;
    for (size_t k = 0; k < s.faults.size(); k++) passing |= k < r.fault_fired.size() && r.fault_fired[k] && !is_harmless(s.faults[k]);
    if (passing && in.exe != "x1sim" && in.out.cap < 0 && !i.ok()) { probe(in.exe + " reported a passing failure"); return v; }
    if (!is_prefix(i.out, want)) return blame(v, "output", in.exe + ": what was delivered is not what belongs there: " + diff_text(i.out, want));
    bool all = i.out == want && in.out.type != "closed";
    if (i.lost || in.out.type == "closed") all = want.empty();
    if (i.ok() && !all) return blame(v, "lost", in.exe + fmt(": success reported although %zu of %zu bytes were delivered", i.out.size(), want.size()));
    if (i.ok() && werr) return blame(v, "status", "success reported for a program that failed");
    if (!i.ok() && all && !werr && !r.fired_faults && errok) return blame(v, "status", in.exe + ": failed although everything was delivered: " + end_of(i));
    probe(in.exe + (i.ok() ? " delivered everything" : all ? " failed otherwise" : " reported the loss"));
    return v;
}
static void limit_output(Rng &r, SinkSpec &o, size_t len)
{
    static const std::vector<std::string> fails = { "enospc", "eio", "epipe", "edquot" };
    static const std::vector<std::string> types = { "file", "pipe", "tty" };
    o.type = r.pick(types);
    o.fail = r.pick(fails);
    if (r.chance(30)) o.maxwrite = (int)r.range(1, 40);
    int w = (int)r.below(10);
    o.cap = w == 0 ? 0 : w == 1 ? 1 : w == 2 ? (long)len - 1 : w == 3 ? (long)len : w == 4 ? (long)len + 1 : (long)r.below(len + 2);
    if (o.cap < 0) o.cap = 0;
}
static void gen02(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Scenario s = base_scenario("C02", seed);
    int w = (int)r.below(10);
    size_t len = 0;
    if (w < 6) {
        Profile p = random_profile(r);
        p.min_out = r.chance(15) ? 0 : 1;
        p.input = r.chance(30);
        p.error = r.chance(20);
        p.tty = r.chance(15);
        s.insts.push_back(sim_instance({ "t.a60" }));
        if (!add_program(s, r, "t.a60", p)) return;
        s.insts[0].in = random_input(r, get(s, "in.t.a60"), p.tty);
        len = get(s, "want.t.a60").size();
        if (r.chance(10)) s.insts[0].argv.insert(s.insts[0].argv.begin() + 1, "-d"); // the trace goes where the output goes
    } else if (w < 8) {
        Profile p = random_profile(r);
        s.insts.push_back(tool_instance("x1algc", { "t.a60", "/opt/x1/lib/x1algol.lib" }));
        if (!add_program(s, r, "t.a60", p)) return;
        if (r.chance(50)) s.x.erase("prog.t.a60");
    } else {
        std::string src;
        int n = (int)r.range(0, 60);
        for (int i = 0; i < n; i++) {
            int opc = r.chance(60) ? (int)r.below(4) : (int)r.range(8, 61);
            src += fmt("0%o %3d", i, opc);
            if (opc < 8) src += fmt(" 0%09o", (unsigned)r.below(1u << 27));
            src += "\n";
        }
        put_file(s, "/w/m.src", src);
        s.insts.push_back(tool_instance("objfile", { std::to_string(r.range(0, 100)), "m.src" }));
        if (r.chance(30)) s.insts[0].argv.insert(s.insts[0].argv.begin() + 1, "-w");
    }
    RunResult base = sim(s);
    if (w >= 6 || s.insts[0].argv.size() == 3) len = base.inst[0].out.size();
    if (len > 300000) return;
    for (int k = 0; k < 6; k++) {
        Scenario c = s;
        auto &o = c.insts[0].out;
        if (k < 3) limit_output(r, o, len);
        else if (k == 3) {
            // a passing fault; short writes must make no difference
            static const std::vector<std::string> types = { "file", "pipe", "tty" };
            o.type = r.pick(types);
            bool harmless = r.chance(40);
            for (int j = 0; j < (harmless ? 6 : 1); j++) {
                bool ok;
                Fault f = random_fault(r, base.ev, [](const Ev &e) { return e.op == "write" && e.cls == "stdout"; }, false, harmless, ok);
                if (ok) c.faults.push_back(f);
            }
        } else if (k == 4) {
            // no trouble, or none but with the messages
            if (r.chance(50)) o.maxwrite = (int)r.range(1, 20);
            if (r.chance(50)) { c.insts[0].err.cap = (long)r.below(20); c.insts[0].err.fail = r.chance(50) ? "enospc" : "eio"; }
            if (r.chance(30)) c.insts[0].err.type = "closed";
            if (r.chance(60)) limit_output(r, o, len);
        } else {
            if (r.chance(60)) continue;
            o.type = "closed";
            if (r.chance(30)) c.insts[0].in = InputSpec(), c.insts[0].in.type = "closed";
            if (c.insts[0].in.type == "closed" && !get(s, "in.t.a60").empty()) continue;
        }
        if (!emit(c)) return;
    }
}
static Register r02({ "C02", "Output is never silently lost", 3000, 40000, gen02, check02,
    "one case is one simulated run of x1sim, x1algc or objfile whose output goes to a place that fills up, breaks, fails now and then, is closed or takes a few bytes at a time; "
    "non-trivial: output was refused or a fault fired; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C07
static Verdict check07(const Scenario &s)
{
    Verdict v;
    Program P = program_of(s, "t.a60");
    Scenario c = with_input(s, P.model);
    RunResult r = sim(c, &v);
    auto &i = r.inst[0];
    if (!contained(v, c, r, 0)) return v;
    const std::string T = "/w/trace.log";
    bool opened = true, broken = false, hard = false;
    for (size_t k = 0; k < c.faults.size(); k++) {
        if (k >= r.fault_fired.size() || !r.fault_fired[k] || is_harmless(c.faults[k])) continue;
        hard = true;
        if (c.faults[k].op == "open") opened = false;
        else broken = true;
    }
    if (s.x.count("noplace")) opened = false;
    if (!opened) {
        nontrivial(r.hash);
        probe("trace could not be created");
        if (i.ok() || !i.out.empty()) return blame(v, "trace", "the program was executed although its trace could not be created: " + end_of(i));
        return v;
    }
    if (broken) {
        nontrivial(r.hash);
        probe("trace could not be written");
        Scenario d = c;
        d.faults.clear();
        RunResult q = sim(d, &v);
        if (!dialogue(v, d, q, P.model, "traced run")) return v;
        if (i.out != q.inst[0].out) return blame(v, "trace", "output changed because the trace could not be written: " + diff_text(i.out, q.inst[0].out));
        if (i.ok()) return blame(v, "trace", "loss of the trace was not reported");
        return v;
    }
    (void)hard;
    if (!dialogue(v, c, r, P.model, "traced run")) return v;
    if (i.how != "exit") return v;
    // the same program on the same input: the same trace
    std::string t1 = r.files.count(T) ? r.files.at(T) : "";
    if (t1.size() < 50) return blame(v, "trace", "no trace was written");
    Scenario d = c;
    d.faults.clear();
    d.poison = c.poison ^ 0x3C;
    d.pid0 = c.pid0 + 4321;
    d.wall0_us = c.wall0_us + 7200000000l;
    d.tick_us = c.tick_us == 1 ? 400 : 1;
    d.insts[0].in.type = c.insts[0].in.type == "tty" ? "tty" : "file";
    d.insts[0].in.maxread = 0;
    std::string all;
    for (auto &k : c.insts[0].in.chunks) all += k.data;
    d.insts[0].in.chunks = { { 0, all } };
    RunResult q = sim(d, &v);
    std::string t2 = q.files.count(T) ? q.files.at(T) : "";
    nontrivial(r.hash);
    probe(fmt("trace of 2^%d bytes", (int)(t1.size() ? 63 - __builtin_clzl(t1.size()) : 0)));
    if (t1 != t2) return blame(v, "trace", "two traces of the same run differ: " + diff_text(t1, t2));
    return v;
}
static void gen07(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Profile p = random_profile(r);
    p.stmts = (int)r.range(2, 7);
    int w = (int)r.below(5);
    p.input = w == 1 || w == 3;
    p.xeen = w == 2; p.stop = w == 2;
    p.resym = w == 3 || w == 4;
    p.error = r.chance(30);
    p.tty = r.chance(25);
    Scenario s = input_scenario("C07", seed, r, p, r.chance(20) ? (int)r.below(3) : -1);
    if (!s.x.count("prog.t.a60")) return;
    Program P = program_of(s, "t.a60");
    if (P.model.steps > 4000) return;
    bool obj = r.chance(30);
    if (obj) {
        RunResult b = sim(s);
        for (auto &f : b.files) if (f.first == "/w/t.x1") { put_file(s, "/w/t.x1", f.second); s.insts[0].argv.back() = "t.x1"; s.x.erase("input.t.a60"); }
        if (s.insts[0].argv.back() != "t.x1") return;
        s.x["note.obj"] = "object file";
    }
    auto &a = s.insts[0].argv;
    switch (r.below(4)) {
    case 0: a.insert(a.begin() + 1, { "-d", "--trace=trace.log" }); break;
    case 1: a.insert(a.begin() + 1, { "--trace=trace.log", "-d" }); break;
    case 2: a.insert(a.begin() + 1, { "--debug", "x", "--trace=/w/trace.log" }); a[2] = "--trace=/w/trace.log"; a.erase(a.begin() + 3); a[1] = "-d"; break;
    case 3: a.push_back("-d"); a.push_back("--trace=trace.log"); break;
    }
    const std::string in = get(s, "in.t.a60");
    if (!emit(s)) return;
    RunResult b = sim(s);
    for (int k = 0; k < 4; k++) {
        Scenario c = s;
        c.insts[0].in = random_input(r, in, p.tty);
        if (k == 0) {
            bool ok;
            for (int j = 0; j < 5; j++) {
                Fault f = random_fault(r, b.ev, [](const Ev &e) { return (e.op == "read" || e.op == "write") && e.role == "x1sim"; }, false, true, ok);
                if (ok) c.faults.push_back(f);
            }
        } else if (k == 1) {
            bool ok;
            Fault f = random_fault(r, b.ev, [](const Ev &e) { return e.cls == "trace" && e.role == "x1sim" && e.op == "write"; }, false, false, ok);
            if (ok && f.kind != "fulldisk") c.faults.push_back(f);
        } else if (k == 2) {
            if (!r.chance(50)) continue;
            bool ok;
            Fault f = random_fault(r, b.ev, [](const Ev &e) { return e.cls == "trace" && e.role == "x1sim" && e.op == "open"; }, false, false, ok);
            if (!ok) continue;
            c.faults.push_back(f);
        } else {
            if (!r.chance(30)) continue;
            for (auto &x : c.insts[0].argv) if (starts(x, "--trace=")) x = "--trace=/nowhere/trace.log";
            c.x["noplace"] = "1";
        }
        if (!emit(c)) return;
    }
}
static Register r07({ "C07", "Tracing does not change the program", 500, 12000, gen07, check07,
    "one case is one simulated run of a generated program with -d and a trace file, compared with the reference interpreter, and its trace with that of a run under different memory contents, process numbers, clock and input timing; some with faults on the trace file; "
    "non-trivial: a trace was compared or a fault on it fired; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C08
static const long PEAK = 400l << 20; // bytes a run may have in use at once
static Verdict check08(const Scenario &s)
{
    Verdict v;
    RunResult r = sim(s, &v);
    auto &i = r.inst[0];
    long fired = 0;
    for (auto &e : r.allocs_fired) fired += e.second;
    if (fired) probe("allocations refused", fired);
    std::string want = get(s, "want.t.a60");
    bool werr = get(s, "werr.t.a60") == "1";
    if (fired || s.x.count("size")) nontrivial(r.hash);
    if (!contained(v, s, r, 0, fired == 0)) return v;
    for (auto &e : r.peak) if (e.second > PEAK) return blame(v, "memory", e.first + fmt(" used %ld bytes of memory", e.second));
    const std::string what = s.x.count("tmpl") ? get(s, "tmpl") + ", size " + get(s, "size") : "program";
    if (s.x.count("endless")) {
        if (i.ok() || !is_prefix(i.out, want)) return blame(v, "output", what + " has no result: " + end_of(i));
        probe(what + " stopped");
        return v;
    }
    if (i.ok()) {
        if (werr || i.out != want) return blame(v, "output", what + ": wrong result: " + diff_text(i.out, want));
        probe(s.x.count("tmpl") ? "fits" : "allocation failures survived");
        return v;
    }
    if (!is_prefix(i.out, want)) return blame(v, "output", what + ": wrong output before the end: " + diff_text(i.out, want));
    if (werr && i.out == want) return v;
    if (!fired && getn(s, "floor") >= getn(s, "size", 1)) return blame(v, "capacity", what + " must fit: " + end_of(i));
    if (!fired && !s.x.count("tmpl")) return blame(v, "status", "failed without a reason: " + end_of(i));
    probe(fired ? "allocation failure reported" : "too large: " + get(s, "tmpl"));
    return v;
}
static void gen08(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    auto &t = templates();
    if (r.chance(65)) {
        for (int k = 0; k < 2; k++) {
            auto &x = t[r.below(t.size())];
            long n;
            int w = (int)r.below(10);
            bool slow = starts(x.name, "many");
            if (x.floor == 0) n = 1;
            else if (w < 3) n = r.range(1, std::max(2l, x.floor));
            else if (w < 5) n = x.floor;
            else if (w < 7) n = r.range(1, std::min(x.max, x.floor * 4));
            else if (w == 7) n = std::min(x.max, (1l << r.range(1, 17)) + r.range(-1, 1)); // about the powers of two
            else { // any magnitude
                double lg = (double)r.below(10000) / 10000.0;
                n = (long)(powl((long double)x.max, lg));
            }
            if (n < 1) n = 1;
            if (slow && g_tier == "quick" && n > x.floor) n = x.floor;
            Scenario s = base_scenario("C08", seed);
            Sized z = x.make(n, r);
            put_file(s, "/w/t.a60", z.source);
            s.x["want.t.a60"] = z.want;
            s.x["tmpl"] = x.name;
            s.x["size"] = std::to_string(n);
            s.x["floor"] = std::to_string(x.floor);
            if (z.endless) s.x["endless"] = "1";
            s.insts.push_back(sim_instance({ "t.a60" }));
            s.insts[0].in.type = "null";
            if (r.chance(15)) s.x["build"] = "checked";
            if (!emit(s)) return;
        }
        return;
    }
    Profile p = random_profile(r);
    p.input = r.chance(40); p.error = r.chance(25);
    p.tty = r.chance(10);
    Scenario s = base_scenario("C08", seed);
    s.insts.push_back(sim_instance({ "t.a60" }));
    if (r.chance(70)) {
        if (!add_program(s, r, "t.a60", p)) return;
        s.insts[0].in = random_input(r, get(s, "in.t.a60"), p.tty);
        if (r.chance(20)) { s.insts[0].argv.push_back("-d"); s.insts[0].argv.push_back("--trace=trace.log"); }
        if (program_of(s, "t.a60").model.steps > 5000) return;
    } else {
        auto &x = t[r.below(17)];
        long n = r.range(1, 200);
        Sized z = x.make(n, r);
        put_file(s, "/w/t.a60", z.source);
        s.x["want.t.a60"] = z.want;
        s.x["note.tmpl"] = x.name;
    }
    RunResult b = sim(s);
    std::vector<std::string> roles;
    for (auto &e : b.allocs) if (e.second > 2) roles.push_back(e.first);
    if (roles.empty()) return;
    for (int k = 0; k < 6; k++) {
        Scenario c = s;
        Fault f;
        const std::string &key = r.pick(roles);
        f.inst = 0;
        f.role = key.substr(key.find('|') + 1);
        f.op = "malloc";
        f.kind = "err";
        f.nth = (int)r.below((uint64_t)b.allocs[key]);
        if (r.chance(5)) f.nth = (int)r.below(3);
        f.arg = r.chance(40) ? 1 : r.chance(50) ? -1 : r.range(2, 20);
        c.faults.push_back(f);
        if (r.chance(30)) { f.nth = (int)r.below((uint64_t)b.allocs[key]); f.arg = 1; c.faults.push_back(f); }
        if (!emit(c)) return;
    }
}
static Register r08({ "C08", "Running out of memory, stack or store is contained", 2500, 20000, gen08, check08,
    "one case is one simulated run: either a program of one of 50 kinds whose size (depth of recursion, parameters called by name, arrays, statements, nesting, identifiers, constants...) is chosen by the seed and whose result is known, "
    "or a generated program with memory allocations failing at seeded places in the simulator or the compiler; non-trivial: sized program or allocation refused; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C20
static Verdict check20(const Scenario &s)
{
    Verdict v;
    Program P = program_of(s, "t.a60");
    auto &m = P.model;
    RunResult r = sim(s, &v);
    auto &i = r.inst[0];
    auto &in = s.insts[0];
    bool any = false, hard = false, killed = false, errfault = in.err.cap >= 0 || in.err.type == "closed", mem = false;
    for (size_t k = 0; k < s.faults.size(); k++) {
        auto &f = s.faults[k];
        if (f.cls == "stderr") errfault = true;
        if (k >= r.fault_fired.size() || !r.fault_fired[k]) continue;
        any = true;
        if (!is_harmless(f)) hard = true;
        if ((starts(f.kind, "kill") || f.kind == "torn") && f.role == "x1sim") killed = true;
        if (f.op == "malloc") mem = true;
    }
    bool closed = in.in.type == "closed" || in.out.type == "closed" || in.err.type == "closed";
    if (any || closed || i.lost) nontrivial(r.hash);
    if (i.how == "killed" && !killed) return blame(v, "crash", "killed by nobody: " + end_of(i));
    if (i.how != "killed" && !contained(v, s, r, 0, !errfault && !mem)) return v;
    // what the characters given allow
    size_t have = given(in);
    size_t limit = m.out.size();
    bool starved = false;
    for (auto &n : m.needs) {
        bool at_end = n.kind == 'e' || n.kind == 'E' || n.kind == 'X';
        if (at_end ? (n.in_need <= have && in.in.end == "eof") : n.in_need <= have) continue;
        starved = true;
        limit = n.out_len;
        break;
    }
    if (in.in.type == "closed" && !m.needs.empty()) { starved = true; limit = m.needs[0].out_len; }
    std::string most = m.out.substr(0, limit);
    if (!is_prefix(i.out, most)) return blame(v, "output", "output the program did not produce: " + diff_text(i.out, most) + "; " + i.status());
    if (i.how == "blocked" && !(starved && in.in.end == "block")) return blame(v, "hang", "waits for input it has: " + end_of(i));
    bool complete = i.out == m.out && !m.error && !starved && !i.lost && in.out.type != "closed";
    if (m.out.empty() && in.out.type == "closed" && !m.error && !starved) complete = true;
    if (i.ok() && !complete)
        return blame(v, "untruthful", std::string("status 0, but ") + (m.error ? "the program failed" : starved ? "the program did not get its input" : "not all output was delivered") + ": " + end_of(i));
    if (i.how == "exit" && i.code == 1 && complete && !hard && !closed && in.out.cap < 0 && !errfault) return blame(v, "untruthful", "status 1 although nothing went wrong: " + end_of(i));
    probe(i.how + fmt(" %d", i.code) + (any ? " after faults" : ""));
    return v;
}
static void gen20(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Profile p = random_profile(r);
    int w = (int)r.below(8);
    p.input = w < 4; p.xeen = w == 3 || w == 4; p.resym = w == 5; p.stop = p.xeen;
    p.error = r.chance(20);
    p.tty = r.chance(15);
    Scenario s = input_scenario("C20", seed, r, p);
    if (!s.x.count("prog.t.a60")) return;
    if (program_of(s, "t.a60").model.steps > 20000) return;
    const std::string in = get(s, "in.t.a60");
    if (r.chance(25)) { // an old object file in the way, sometimes not writable
        put_file(s, "/w/t.x1", " 9 26  0\n10048       96\n", r.chance(30) ? 0444 : 0644);
    }
    bool traced = r.chance(25);
    if (traced) { s.insts[0].argv.push_back("-d"); s.insts[0].argv.push_back("--trace=trace.log"); }
    if (traced && program_of(s, "t.a60").model.steps > 3000) return;
    RunResult b = sim(s);
    for (int k = 0; k < 7; k++) {
        Scenario c = s;
        c.insts[0].in = random_input(r, in, p.tty);
        auto &i = c.insts[0];
        if (r.chance(25)) limit_output(r, i.out, get(s, "want.t.a60").size());
        if (r.chance(15)) { i.err.cap = (long)r.below(60); i.err.fail = r.chance(50) ? "enospc" : "eio"; }
        if (r.chance(20)) {
            // which of the standard descriptors are open at all
            int bits = (int)r.range(1, 7);
            if (bits & 1) i.in = InputSpec(), i.in.type = "closed";
            if (bits & 2) i.out = SinkSpec(), i.out.type = "closed";
            if (bits & 4) i.err = SinkSpec(), i.err.type = "closed";
        }
        if (i.in.type != "closed" && r.chance(30) && !in.empty()) {
            // input ends, fails or stalls between two entries
            auto needs = program_of(s, "t.a60").model.needs;
            if (!needs.empty()) {
                size_t n = r.below(needs.size());
                if (needs[n].kind == 'n' || needs[n].kind == 'x') {
                    size_t len = n ? needs[n - 1].in_need : 0;
                    i.in.chunks = { { 0, in.substr(0, len) } };
                    if (len == 0) i.in.chunks.clear();
                    i.in.end = r.chance(40) ? "eof" : r.chance(50) ? "eio" : "block";
                    if (i.in.end == "block" && i.in.type == "file") i.in.type = "pipe", i.in.maxread = 0;
                }
            }
        }
        int nf = (int)r.below(5);
        for (int j = 0; j < nf; j++) {
            bool ok;
            Fault f = random_fault(r, b.ev, [&](const Ev &e) { return !(e.cls == "stdin" && c.insts[0].in.type == "closed"); }, true, r.chance(25), ok);
            if (ok) c.faults.push_back(f);
        }
        if (r.chance(20)) {
            std::vector<std::string> roles;
            for (auto &e : b.allocs) if (e.second > 2) roles.push_back(e.first);
            if (!roles.empty()) {
                const std::string &key = r.pick(roles);
                Fault f;
                f.inst = 0; f.role = key.substr(key.find('|') + 1); f.op = "malloc"; f.kind = "err";
                f.nth = (int)r.below((uint64_t)b.allocs[key]);
                f.arg = r.chance(60) ? 1 : r.chance(50) ? -1 : 3;
                c.faults.push_back(f);
            }
        }
        if (!emit(c)) return;
    }
}
static Register r20({ "C20", "Every run ends with a truthful status", 2000, 30000, gen20, check20,
    "one case is one simulated run under up to four seeded faults at once (failing and short calls, killed processes, full disk, refused allocations), with seeded limits on its output, missing descriptors and input that ends, fails or stalls; "
    "non-trivial: a fault fired, output was refused or a descriptor was missing; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C21
static Verdict check21(const Scenario &s)
{
    Verdict v;
    RunResult a = sim(s, &v);
    Scenario d = s;
    Rng r(mix(s.seed, (uint64_t)getn(s, "variant")));
    d.poison = (int)r.below(256);
    if (d.poison == s.poison) d.poison ^= 0x55;
    d.pid0 = (int)r.range(2, 4000000);
    long wall0 = (long)r.below(2000000000) * 1000000 + (long)r.below(1000000), tick = r.chance(50) ? 1 : 20000;
    // an altered object program may happen to look at the clock
    if (!s.x.count("asobj")) { d.wall0_us = wall0; d.tick_us = tick; }
    for (auto &i : d.insts) {
        int n = (int)r.below(6);
        static const std::vector<std::string> names = { "LANG", "LC_ALL", "TZ", "USER", "TMPDIR", "COLUMNS", "LINES", "POSIXLY_CORRECT2", "MALLOC_PERTURB_X", "SHELL", "EDITOR", "XYZZY", "LC_NUMERIC", "OLDPWD" };
        static const std::vector<std::string> vals = { "C", "de_DE.UTF-8", "Europe/Amsterdam", "1", "", "/tmp", "80", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx" };
        for (int k = 0; k < n; k++) i.env[r.pick(names)] = r.pick(vals);
    }
    const std::string W = get(s, "dir", "/w"), cd = get(s, "dir2");
    if (!cd.empty()) {
        // the same files in another directory
        for (auto &f : d.files) if (starts(f.path, "/w/")) f.path = cd + f.path.substr(2);
        for (auto &i : d.insts) i.cwd = cd;
    }
    const std::string W2 = cd.empty() ? W : cd;
    for (auto &f : d.files) f.age_s = r.range(-200000, r.chance(10) ? 5000 : 0);
    if (s.x.count("junk")) {
        // what earlier runs may have left
        auto old = [&](const std::string &p, const std::string &data) { if (get(s, "keep") != p) { put_file(d, W2 + "/" + p, data); d.files.back().age_s = r.range(-100000, 5000); } };
        old("t.x1", get(s, "junk"));
        old(fmt("t.x1.%d", d.pid0), get(s, "junk"));
        old(fmt("t.x1.%d", d.pid0 + 1), "junk\n");
        old("u.x1", "999 999 999 999 999\n");
        old("x1algol.lib", "31 31 31\n");
        old("trace.log", "old\n");
    }
    RunResult b = sim(d, &v);
    if (s.x.count("note.uninit")) probe("programs that read what they never set");
    nontrivial(a.hash ^ b.hash);
    for (size_t n = 0; n < s.insts.size(); n++) {
        auto &x = a.inst[n], &y = b.inst[n];
        const std::string what = s.insts[n].argv.back();
        probe(x.status());
        // cut off by a limit on processor time, at no particular point
        if (x.how == "hang" || y.how == "hang") {
            probe("cut off while looping");
            if (!is_prefix(x.out, y.out) && !is_prefix(y.out, x.out)) return blame(v, "output", what + ": output differs between two worlds: " + diff_text(y.out, x.out));
            continue;
        }
        if (x.status() != y.status()) return blame(v, "status", what + ": " + end_of(x) + " in one world, " + end_of(y) + " in another");
        if (x.out != y.out) return blame(v, "output", what + ": output differs between two worlds: " + diff_text(y.out, x.out));
    }
    auto obj = [](const RunResult &q, const std::string &p) { auto f = q.files.find(p); return f == q.files.end() ? std::string("(none)") : f->second; };
    if (!s.x.count("asobj") && obj(a, W + "/t.x1") != obj(b, W2 + "/t.x1")) return blame(v, "object", "object files differ between two worlds: " + diff_text(obj(b, W2 + "/t.x1"), obj(a, W + "/t.x1")));
    return v;
}
static std::string careless_program(Rng &r)
{
    static const std::vector<std::string> v = {
        "'begin' 'integer' i, j; 'real' x; print(i); NLCR; print(x); NLCR; j := i + 1; print(j) 'end'",
        "'begin' 'integer' 'array' a[1:20]; 'integer' i; 'for' i := 1 'step' 1 'until' 20 'do' 'begin' print(a[i]); NLCR 'end' 'end'",
        "'begin' 'array' a[1:5, 1:5]; 'integer' i, j; 'for' i := 1 'step' 1 'until' 5 'do' 'for' j := 1 'step' 1 'until' 5 'do' 'begin' print(a[i, j]); NLCR 'end' 'end'",
        "'begin' 'integer' 'procedure' f; ; print(1); NLCR; print(f); NLCR; print(f + 1) 'end'",
        "'begin' 'procedure' p; 'begin' 'integer' a, b; print(a); print(b); a := 77; b := 88; NLCR 'end'; 'procedure' q; 'begin' 'real' c, d; print(c); print(d); c := 3.5; NLCR 'end'; p; q; p; q; p 'end'",
        "'begin' 'integer' n; n := 7; 'begin' 'integer' 'array' a[1:n]; a[3] := 5; print(a[3]); print(a[4]); NLCR 'end'; 'begin' 'array' b[0:n]; print(b[3]); NLCR 'end' 'end'",
        "'begin' 'boolean' b; 'if' b 'then' print(1) 'else' print(2); NLCR 'end'",
        "'begin' 'own' 'integer' k; 'own' 'real' x; print(k); print(x); NLCR 'end'",
        "'begin' 'integer' 'array' a[1:4]; 'integer' k; 'procedure' v(b); 'value' b; 'integer' 'array' b; 'for' k := 1 'step' 1 'until' 4 'do' print(b[k]); v(a); NLCR 'end'",
        "'begin' 'integer' k; 'switch' s := l, m; 'goto' s[k + 1]; print(3); l: print(1); m: print(2); NLCR 'end'",
        "'begin' 'integer' k, j; 'for' k := j 'step' 1 'until' 5 'do' print(k); NLCR 'end'",
        "'begin' 'procedure' p(a, b); 'integer' a, b; 'begin' print(a); print(b) 'end'; 'integer' z; p(z, z + 1); NLCR 'end'",
        "'begin' 'integer' 'procedure' f(n); 'value' n; 'integer' n; 'begin' 'integer' 'array' a[1:5]; 'integer' k; print(a[2]); a[2] := n; f := 'if' n > 0 'then' f(n - 1) + a[2] 'else' a[1] 'end'; print(f(4)); NLCR 'end'",
    };
    return algol(v[r.below(v.size())]) + "\n";
}
static void gen21(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Scenario s = base_scenario("C21", seed);
    s.insts.push_back(sim_instance({ "t.a60" }));
    int w = (int)r.below(10);
    if (w < 5) {
        Profile p = random_profile(r);
        int k = (int)r.below(6);
        p.input = k == 1 || k == 3; p.xeen = k == 2; p.stop = k == 2; p.resym = k == 3; p.error = r.chance(35);
        if (!add_program(s, r, "t.a60", p)) return;
        s.insts[0].in = random_input(r, get(s, "in.t.a60"));
        s.x.erase("prog.t.a60");
        if (w == 4) {
            // a source in which something is wrong
            std::string src;
            for (auto &f : s.files) if (f.path == "/w/t.a60") src = f.data;
            int n = (int)r.range(1, 3);
            for (int j = 0; j < n && !src.empty(); j++) {
                size_t p = r.below(src.size());
                if (r.chance(40)) src.erase(p, r.range(1, 6)); else if (r.chance(50)) src[p] = (char)r.below(256); else src.insert(p, src.substr(r.below(src.size()), 5));
            }
            put_file(s, "/w/t.a60", src);
            s.x["note.bad"] = "damaged source";
            s.insts[0].cpu_ms = 500;
        }
    } else if (w < 8) {
        put_file(s, "/w/t.a60", careless_program(r));
        s.insts[0].in.type = "null";
        s.x["note.uninit"] = "1";
        s.insts[0].cpu_ms = 500;
    } else {
        // object programs that are not quite right
        Profile p = random_profile(r);
        p.error = r.chance(20);
        if (!add_program(s, r, "t.a60", p)) return;
        s.x.erase("prog.t.a60");
        RunResult b = sim(s);
        auto f = b.files.find("/w/t.x1");
        if (f == b.files.end()) return;
        std::string o = f->second;
        int n = (int)r.range(1, 4);
        for (int j = 0; j < n; j++) {
            // one digit of a word
            size_t p = r.below(o.size());
            if (o[p] >= '0' && o[p] <= '9') o[p] = (char)('0' + r.below(10));
        }
        put_file(s, "/w/t.x1", o);
        s.insts[0].argv.back() = "t.x1";
        s.insts[0].in.type = "null";
        s.insts[0].cpu_ms = 300;
        s.x["asobj"] = "1";
        s.x["keep"] = "t.x1";
        s.x["note.obj"] = "altered object program";
    }
    for (int k = 0; k < 3; k++) {
        Scenario c = s;
        c.x["variant"] = std::to_string(r.below(1000000));
        if (r.chance(30)) c.x["dir2"] = r.chance(50) ? "/some/where else" : "/";
        if (c.x.count("dir2") && c.x["dir2"] == "/") c.x["dir2"] = "/r";
        if (r.chance(50)) {
            int w = (int)r.below(4);
            std::string j = " 9 26  0\n10048       96\n";
            if (w == 0) j = std::string("garbage\n", (size_t)r.range(0, 8));
            if (w > 1) {
                j = "\n\n\n 9 26  0\n";
                for (int a = 9984; a < (w == 2 ? 12500 : 10100); a++) j += fmt("%5d%10d\n", a, (int)r.pick(std::vector<int>{ 97, 105, 0, 103 }));
            }
            c.x["junk"] = j;
        }
        if (!emit(c)) return;
    }
}
static Register r21({ "C21", "A run depends on nothing but its program and input", 3000, 25000, gen21, check21,
    "one case is a pair of simulated runs of the same program on the same input in two worlds that differ in the initial contents of memory, process numbers, clock, speed, directory, environment and left-over files; "
    "programs include failing ones, ones that read variables they never set, damaged sources and altered object programs; distinct by the hashes of both executions", "" });
