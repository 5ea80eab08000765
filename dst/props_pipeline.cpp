// From source to running program: compilation, object file, crashes, concurrent runs, look-up.
#include "oracle.h"

static const char *SIM_RULE_FAULT = "one case is one simulated run of the real programs under a seeded fault sequence, placed on system calls the fault-free run of the same program was seen to make; "
    "non-trivial: at least one of the faults actually fired; distinct by the hash of all system calls, results and times";

// An object program other than the one being compiled, to be found in the way.
static std::string stale_object(Rng &r, uint64_t seed)
{
    Scenario s = base_scenario("stale", seed);
    s.insts.push_back(sim_instance({ "t.a60" }));
    Profile p;
    p.stmts = 3; p.procs = 0; p.min_out = 1;
    if (!add_program(s, r, "t.a60", p)) return "";
    RunResult q = sim(s);
    for (auto &f : q.files) if (ends(f.first, ".x1")) return f.second;
    return "";
}
static Scenario simple_run(const std::string &prop, uint64_t seed, Rng &r, Profile p)
{
    Scenario s = base_scenario(prop, seed);
    s.insts.push_back(sim_instance({ "t.a60" }));
    add_program(s, r, "t.a60", p);
    s.insts[0].in = random_input(r, get(s, "in.t.a60"), p.tty);
    return s;
}

// ---------------------------------------------------------------------- C01
static Verdict check01(const Scenario &s)
{
    Verdict v;
    RunResult r = sim(s, &v);
    auto &i = r.inst[0];
    const std::string want = get(s, "want.t.a60");
    if (s.x.count("cut")) {
        nontrivial(r.hash);
        if (!i.out.empty()) return blame(v, "partial", "a source that lost its end was executed: " + end_of(i));
        if (i.ok()) return blame(v, "partial", "a source that lost its end was accepted");
        contained(v, s, r, 0);
        return v;
    }
    if (s.faults.empty()) { exact(v, s, i, want, false, "fault-free run"); return v; }
    bool hard = false, killed = false, self = false;
    for (size_t k = 0; k < s.faults.size(); k++) {
        if (k >= r.fault_fired.size() || !r.fault_fired[k]) continue;
        auto &f = s.faults[k];
        if (!is_harmless(f)) hard = true;
        bool kill = starts(f.kind, "kill") || f.kind == "torn";
        if (kill && f.role != "x1sim") killed = true;
        if (kill && f.role == "x1sim") self = true;
    }
    if (r.fired_faults) nontrivial(r.hash);
    if (!contained(v, s, r, 0)) return v;
    if (!hard) { exact(v, s, i, want, false, "run with short transfers only"); return v; }
    if (i.ok()) {
        probe("fault survived");
        if (i.out != want) return blame(v, "partial", "success with the wrong output: " + diff_text(i.out, want));
        if (killed) return blame(v, "partial", "the compiler was killed, yet the run reports success");
        return v;
    }
    probe("fault reported");
    if (self) probe("simulator killed while compiling");
    if (!i.out.empty()) return blame(v, "partial", "the program was executed although its translation failed: " + end_of(i));
    return v;
}
static void gen01(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Profile p = random_profile(r);
    p.min_out = 1;
    Scenario s = simple_run("C01", seed, r, p);
    if (r.chance(40)) {
        std::string o = stale_object(r, seed ^ 5);
        put_file(s, r.chance(70) ? "/w/t.x1" : fmt("/w/t.x1.%d", s.pid0), o);
        s.files.back().age_s = r.range(-100000, 1000);
        s.x["note.stale"] = "another t.x1 in the way";
    }
    for (auto &f : s.files) if (ends(f.path, ".a60")) f.age_s = r.range(-100000, 0);
    if (!emit(s)) return;
    RunResult base = sim(s);
    size_t start = start_of_program(base.ev, 0);
    std::vector<Ev> ev(base.ev.begin(), base.ev.begin() + (long)start);
    // loss of the end of the source
    const std::string src = program_of(s, "t.a60").source;
    for (int k = 0; k < 2; k++) {
        size_t e = src.find_last_not_of("\n ");
        size_t lim = e > 12 ? e - 12 : 0;
        Scenario c = s;
        size_t cut = r.chance(30) ? lim - r.below(std::min<size_t>(lim, 40)) : r.below(lim);
        c.x["cut"] = std::to_string(cut);
        c.x.erase("prog.t.a60");
        put_file(c, "/w/t.a60", src.substr(0, cut));
        if (!emit(c)) return;
    }
    for (int k = 0; k < 6; k++) {
        Scenario c = s;
        int n = k < 4 ? 1 : (int)r.range(2, 4);
        bool harmless = k == 3;
        for (int j = 0; j < n; j++) {
            bool ok;
            Fault f = random_fault(r, ev, [](const Ev &e) { return !(e.cls == "stdout" || e.cls == "stderr" || e.cls == "stdin"); }, true, harmless, ok);
            if (ok) c.faults.push_back(f);
        }
        if (harmless) for (int j = 0; j < 6; j++) {
            bool ok;
            Fault f = random_fault(r, ev, [](const Ev &e) { return e.op == "read" || e.op == "write"; }, false, true, ok);
            if (ok) c.faults.push_back(f);
        }
        if (r.chance(10)) { c.disk_free = (long)r.below(4000); c.x["note.disk"] = "nearly full disk"; Fault f; }
        if (c.disk_free >= 0) { // a full disk counts as a fault of its own
            c.disk_free = -1;
            Fault f; f.inst = 0; f.role = "x1sim.child"; f.op = "child"; f.nth = 0; f.kind = "fulldisk"; f.arg = (long)r.below(4000);
            c.faults.push_back(f);
        }
        if (!emit(c)) return;
    }
}
static Register r01({ "C01", "A program is executed only from a complete translation of its source", 1400, 40000, gen01, check01, SIM_RULE_FAULT, "" });

// ---------------------------------------------------------------------- C09
static Verdict check09(const Scenario &s)
{
    Verdict v;
    RunResult r = sim(s, &v);
    if (r.fired_faults) nontrivial(r.hash);
    for (size_t n = 0; n < s.insts.size(); n++) {
        auto &in = s.insts[n];
        std::string name = get(s, fmt("of.%zu", n));
        const std::string want = get(s, "want." + name);
        if (in.phase == 0) {
            auto &o = r.inst[n].out;
            if (!starts(want, o)) return blame(v, "output", "interrupted run: " + diff_text(o, want));
            continue;
        }
        if (!exact(v, s, r.inst[n], want, get(s, "werr." + name) == "1", "run after the interruption")) return v;
    }
    if (r.fired_faults) probe("recovered after " + s.faults[0].kind);
    return v;
}
static void gen09(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Profile p = random_profile(r);
    p.min_out = 1;
    p.input = r.chance(40);
    Scenario s = base_scenario("C09", seed);
    bool edited = r.chance(60);
    // two versions of one program, both translated to /w/t.x1
    if (!add_program(s, r, "a/t.a60", p)) return;
    if (!add_program(s, r, "b/t.a60", p)) return;
    std::string second = edited ? "b/t.a60" : "a/t.a60";
    s.insts.push_back(sim_instance({ "a/t.a60" }));
    s.x["of.0"] = "a/t.a60";
    s.insts[0].in = random_input(r, get(s, "in.a/t.a60"));
    bool traced = r.chance(20);
    if (traced) s.insts[0].argv.insert(s.insts[0].argv.begin() + 1, "--trace=trace.log");
    // sources are older or newer than what was made from them; process numbers may return
    for (auto &f : s.files) if (ends(f.path, ".a60")) f.age_s = r.chance(80) ? r.range(-100000, -1) : r.range(0, 5000);
    s.same_pids = r.chance(50);
    RunResult base = sim(s);
    if (!base.inst[0].ok()) return;
    Instance again = sim_instance({ second });
    again.phase = 1;
    again.in = random_input(r, get(s, "in." + second));
    s.x["of.1"] = second;
    s.insts.push_back(again);
    Instance obj = sim_instance({ "t.x1" });
    obj.phase = 2;
    obj.in = random_input(r, get(s, "in." + second));
    s.x["of.2"] = second;
    s.insts.push_back(obj);
    if (!emit(s)) return;
    for (int k = 0; k < 4; k++) {
        Scenario c = s;
        // a crash at any event of the first run: the process, the whole session or the machine
        const Ev *e = nullptr;
        std::map<std::string, std::vector<const Ev *>> by;
        for (auto &x : base.ev) if (x.op != "exit") by[x.role + x.op + x.cls].push_back(&x);
        auto it = by.begin();
        std::advance(it, (long)r.below(by.size()));
        e = it->second[r.below(it->second.size())];
        Fault f;
        f.inst = 0; f.role = e->role; f.op = e->op; f.cls = e->cls; f.nth = e->nth;
        int kind = (int)r.below(5);
        f.kind = kind == 0 ? "power" : kind == 1 && e->op == "write" ? "torn" : kind == 2 && e->op != "exec" && e->op != "fork" && e->op != "start" && e->op != "child" ? "kill_after" : "kill";
        if (f.kind == "power" && (e->op == "child")) f.kind = "kill";
        if (f.kind == "power") f.arg = r.chance(30) ? -1 : (long)r.below(5000);
        else if (f.kind == "torn") { f.arg = e->ret > 1 ? (long)r.below((uint64_t)e->ret) : 0; f.arg2 = (long)r.below(3); }
        else { f.arg = (long)r.below(3); f.arg2 = 9; }
        c.faults.push_back(f);
        if (!edited && r.chance(25)) c.orphans = true;
        if (!emit(c)) return;
    }
}
static Register r09({ "C09", "After a crash at any point the next run is correct", 1200, 30000, gen09, check09,
    "one case is a history: a run interrupted by a crash (process killed, session killed, or power failure that loses or tears unsynced file contents) at an event of its fault-free execution, then runs of the same or an edited source, and of the object file; "
    "non-trivial: the crash fired; distinct by the hash of all system calls, results and times", "" });

// ---------------------------------------------------------------------- C10
static Verdict check10(const Scenario &s)
{
    Verdict v;
    RunResult r = sim(s, &v);
    if (r.switches > 20) nontrivial(r.order_hash);
    for (size_t n = 0; n < s.insts.size(); n++) {
        std::string name = get(s, fmt("of.%zu", n));
        const std::string want = get(s, "want." + name);
        if (r.inst[n].how == "killed") {
            if (!starts(want, r.inst[n].out)) return blame(v, "output", fmt("killed run %zu: ", n) + diff_text(r.inst[n].out, want));
            continue;
        }
        if (!exact(v, s, r.inst[n], want, get(s, "werr." + name) == "1", fmt("concurrent run %zu of %s", n, name.c_str()))) return v;
    }
    return v;
}
static void gen10(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Profile p = random_profile(r);
    p.min_out = 1;
    p.stmts = (int)r.range(3, 8);
    p.input = r.chance(50);
    Scenario s = base_scenario("C10", seed);
    int n = (int)r.range(2, 4);
    int mode = (int)r.below(4); // same source; different sources; same stem in different directories; same stem, same directory
    std::vector<std::string> names;
    for (int i = 0; i < n; i++) {
        std::string nm = mode == 0 ? "t.a60" : mode == 1 ? fmt("t%d.a60", i) : fmt("d%d/t.a60", i);
        names.push_back(nm);
        if (mode != 0 || i == 0) if (!add_program(s, r, nm, p)) return;
    }
    static const char *how[] = { "same source", "different sources", "same stem, different directories", "same stem, same directory" };
    s.x["note.mode"] = how[mode];
    for (int i = 0; i < n; i++) {
        std::string arg = names[i];
        Instance in = sim_instance({ arg });
        if (mode == 2) { in.cwd = fmt("/w/d%d", i); in.argv.back() = "t.a60"; }
        in.in = random_input(r, get(s, "in." + names[i]));
        in.start_us = r.chance(50) ? 0 : (long)r.below(4000);
        s.x[fmt("of.%d", i)] = names[i];
        s.insts.push_back(in);
    }
    for (auto &e : std::map<std::string, std::string>(s.x)) if (starts(e.first, "input.")) s.x.erase(e.first); // inputs stay as they are
    for (int k = 0; k < 5; k++) {
        Scenario c = s;
        int len = (int)r.range(50, 1500), stick = (int)r.below(3);
        int cur = 0;
        for (int i = 0; i < len; i++) {
            if (stick == 0 || r.chance(stick == 1 ? 30 : 5)) cur = (int)r.below(12);
            c.sched.push_back(cur);
        }
        if (k == 4) {
            RunResult base = sim(c);
            bool ok;
            Fault f = random_fault(r, base.ev, [&](const Ev &e) { return e.inst == 0 && e.role != "x1sim"; }, true, false, ok);
            if (ok) { f.kind = "kill"; f.arg = 1; f.arg2 = 9; c.faults.push_back(f); }
        }
        if (!emit(c)) return;
    }
}
static Register r10({ "C10", "Concurrent runs do not disturb each other", 900, 25000, gen10, check10,
    "one case is one simulated execution of two to four x1sim processes (and the compilers they start) interleaved at every system call by a seeded schedule, sometimes with one of them killed; "
    "non-trivial: more than 20 context switches; distinct by the hash of the order in which processes were served", "" });

// ---------------------------------------------------------------------- C19
static Verdict check19(const Scenario &s)
{
    Verdict v;
    RunResult r = sim(s, &v);
    nontrivial(r.hash);
    auto &i = r.inst[0];
    if (!contained(v, s, r, 0)) return v;
    if (get(s, "expect") == "ok") exact(v, s, i, get(s, "want.t.a60"), false, "library expected at " + get(s, "note.lib"));
    else if (get(s, "expect") == "either") {
        if (i.ok() ? i.out != get(s, "want.t.a60") : !i.out.empty()) blame(v, "output", "wrong outcome: " + end_of(i));
    } else {
        if (i.ok()) return blame(v, "lookup", "succeeded although " + get(s, "note.lib"));
        if (!i.out.empty()) return blame(v, "lookup", "the program was executed although " + get(s, "note.lib") + ": " + end_of(i));
    }
    return v;
}
static void gen19(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Profile p = random_profile(r);
    p.min_out = 1;
    Scenario s = simple_run("C19", seed, r, p);
    s.insts[0].in = InputSpec();
    // what a useless library does to this program
    s.files.erase(std::remove_if(s.files.begin(), s.files.end(), [](const FileSpec &f) { return ends(f.path, ".lib"); }), s.files.end());
    const std::string good = g_library, bad = r.chance(50) ? "" : "not a library tape\n";
    Scenario t = s;
    put_file(t, "/opt/x1/lib/x1algol.lib", bad);
    if (sim(t).inst[0].ok()) return;
    struct Loc { const char *path; };
    // places in order of precedence, with a state each: absent, good, decoy, unreadable
    for (int k = 0; k < 8; k++) {
        Scenario c = s;
        std::string note;
        auto &in = c.insts[0];
        bool explicit_lib = r.chance(20), env = r.chance(45), home = r.chance(80), local = r.chance(15);
        in.env.erase("HOME");
        if (home) in.env["HOME"] = "/home/u";
        std::vector<std::pair<std::string, std::string>> order; // path, state
        auto st = [&](bool may_absent) { int w = (int)r.below(may_absent ? 8 : 5); return std::string(w < 3 ? "good" : w < 5 ? "decoy" : "absent"); };
        if (local) {
            // the simulator in a directory without lib or library next to it
            in.argv[0] = r.chance(50) ? "x1sim" : "/opt/x1/bin/x1sim";
        }
        std::string expect;
        auto place = [&](const std::string &path, const std::string &state) {
            if (state == "good") put_file(c, path, good);
            if (state == "decoy") put_file(c, path, bad);
            if (state == "unreadable") put_file(c, path, good, 0);
        };
        std::string sh = r.chance(70) ? st(true) : "unreadable", sl = st(true), sb = st(true);
        if (explicit_lib) {
            std::string e = st(false);
            place("/w/my.lib", e);
            in.argv.push_back("my.lib");
            expect = e;
            note = "named on the command line: " + e;
        }
        if (env) {
            std::string e = st(true);
            place("/e/env.lib", e);
            in.env["X1ALGOL_LIB"] = "/e/env.lib";
            if (expect.empty()) { expect = e == "absent" ? "bad" : e; note = "X1ALGOL_LIB: " + e; }
        }
        place("/home/u/.x1algol.lib", sh);
        if (home && expect.empty() && sh != "absent" && sh != "unreadable") { expect = sh; note = "in HOME: " + sh; }
        place("/opt/x1/lib/x1algol.lib", sl);
        if (in.argv[0] == "/opt/x1/bin/x1sim") {
            if (expect.empty() && sl != "absent") { expect = sl; note = "beside the simulator: " + sl; }
            place("/opt/library/x1algol.lib", sb);
            if (expect.empty() && sb != "absent") { expect = sb; note = "in the source tree: " + sb; }
        } else {
            std::string su = st(true);
            place("/usr/local/lib/x1algol.lib", su);
            if (expect.empty() && su != "absent") { expect = su; note = "in /usr/local/lib: " + su; }
        }
        if (expect.empty()) { expect = "bad"; note = "no library anywhere"; }
        c.x["expect"] = expect == "good" ? "ok" : "fail";
        c.x["note.lib"] = note;
        probe(note);
        if (k >= 6) {
            RunResult base = sim(c);
            bool ok;
            Fault f = random_fault(r, base.ev, [](const Ev &e) { return e.cls == "lib"; }, false, false, ok);
            if (!ok) continue;
            c.faults.push_back(f);
            c.x["expect"] = "either";
        }
        if (!emit(c)) return;
    }
}
static Register r19({ "C19", "The library is looked up in the documented order", 700, 20000, gen19, check19,
    "one case is one simulated run in a file system and environment where the library is present, useless, unreadable or absent at each of the documented places; some with a fault on an access to it; distinct by execution hash", "" });

// ---------------------------------------------------------------------- C27
static Verdict check27(const Scenario &s)
{
    Verdict v;
    RunResult r = sim(s, &v);
    nontrivial(r.hash);
    const std::string want = get(s, "want.t.a60");
    bool werr = get(s, "werr.t.a60") == "1";
    for (size_t n = 0; n < s.insts.size(); n++) {
        auto &i = s.insts[n];
        if (i.exe == "x1algc") {
            if (!r.inst[n].ok()) return blame(v, "status", "the compiler failed: " + end_of(r.inst[n]));
            continue;
        }
        if (!exact(v, s, r.inst[n], want, werr, i.argv.back() == "t.x1" ? "object program" : "source")) return v;
    }
    // the compiler alone writes what the simulator keeps
    std::string obj = r.files.count("/w/t.x1") ? r.files.at("/w/t.x1") : "";
    for (size_t n = 0; n < s.insts.size(); n++)
        if (s.insts[n].exe == "x1algc" && r.inst[n].out != obj) return blame(v, "object", "object file and compiler output differ " + diff_text(obj, r.inst[n].out));
    return v;
}
static void gen27(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Profile p = random_profile(r);
    p.input = r.chance(40); p.xeen = r.chance(25); p.resym = r.chance(20); p.error = r.chance(25);
    p.tty = r.chance(15);
    Scenario s = simple_run("C27", seed, r, p);
    int n = (int)r.range(1, 3);
    for (int i = 0; i < n; i++) {
        Instance o = sim_instance({ "t.x1" });
        if (r.chance(30)) o.argv.insert(o.argv.begin() + 1, "--trace=trace.log");
        o.phase = i + 1;
        o.in = random_input(r, get(s, "in.t.a60"), p.tty);
        s.insts.push_back(o);
    }
    if (r.chance(40)) {
        // the source can be elsewhere; its object program comes to the current directory
        static const std::vector<std::string> dirs = { "sub/", "/w/sub/", "./", "../w/", "/x/y/z/", "a b/" };
        const std::string d = r.pick(dirs);
        for (auto &f : s.files) if (f.path == "/w/t.a60") f.path = d[0] == '/' ? d + "t.a60" : "/w/" + d + "t.a60";
        s.insts[0].argv.back() = d + "t.a60";
        s.x.erase("prog.t.a60");
        s.x.erase("input.t.a60");
    }
    for (auto &f : s.files) f.age_s = r.range(-100000, r.chance(20) ? 1000 : 0);
    s.same_pids = r.chance(30);
    Instance c = sim_instance({ s.insts[0].argv.back(), "/opt/x1/lib/x1algol.lib" });
    c.exe = "x1algc";
    c.argv[0] = "/opt/x1/bin/x1algc";
    c.phase = (int)r.below(2);
    if (c.phase == 0 && r.chance(50)) c.start_us = (long)r.below(2000);
    s.insts.push_back(c);
    for (int i = 0; i < 200; i++) s.sched.push_back((int)r.below(4));
    if (r.chance(50)) {
        RunResult base = sim(s);
        for (int j = 0; j < 5; j++) {
            bool ok;
            Fault f = random_fault(r, base.ev, [](const Ev &e) { return e.op == "read" || e.op == "write"; }, false, true, ok);
            if (ok) s.faults.push_back(f);
        }
    }
    emit(s);
}
static Register r27({ "C27", "An object file behaves as the source it was made from", 2500, 60000, gen27, check27,
    "one case is a history of one run of a source, runs of the object file it left (different input timing, tracing, short transfers) and a run of the compiler alone, on a generated program; distinct by execution hash", "" });
