#include "oracle.h"

bool contained(Verdict &v, const Scenario &s, const RunResult &r, int n, bool stderr_ok)
{
    auto &i = r.inst[n];
    bool pipe = s.insts[n].out.fail == "epipe" || s.insts[n].err.fail == "epipe";
    for (auto &f : s.faults) if (f.kind == "err" && f.arg == EPIPE) pipe = true;
    if (i.how == "hang") { blame(v, "hang", s.insts[n].argv.back() + " did not end: " + end_of(i)); return false; }
    if (i.how == "signal" && !(pipe && i.code == 13)) { blame(v, "crash", "died of signal " + std::to_string(i.code) + ": " + end_of(i)); return false; }
    if (i.sub_abnormal && !(pipe && i.sub_note.find(":13 ") != std::string::npos)) { blame(v, "crash", "a child process died: " + i.sub_note + "; " + end_of(i)); return false; }
    if (i.how == "exit" && i.code != 0 && i.code != 1) { blame(v, "status", "unexpected exit status: " + end_of(i)); return false; }
    if (i.how == "exit" && i.code == 1 && i.err.empty() && stderr_ok) { blame(v, "silent", "failed without a message: " + end_of(i)); return false; }
    return true;
}
bool exact(Verdict &v, const Scenario &s, const InstResult &i, const std::string &want, bool werr, const std::string &what)
{
    (void)s;
    if (i.how != "exit") { blame(v, i.how, what + ": ended by " + end_of(i)); return false; }
    if (i.out != want) { blame(v, "output", what + ": " + diff_text(i.out, want) + "; " + i.status() + " stderr " + quote(i.err, 100)); return false; }
    if (!werr && i.code != 0) { blame(v, "status", what + ": should have succeeded: " + end_of(i)); return false; }
    if (werr && i.code != 1) { blame(v, "status", what + ": should have failed: " + end_of(i)); return false; }
    if (werr && i.err.empty()) { blame(v, "silent", what + ": failed without a message"); return false; }
    if (i.sub_abnormal) { blame(v, "crash", what + ": a child process died: " + i.sub_note); return false; }
    return true;
}
bool is_harmless(const Fault &f) { return f.kind == "short" || f.kind == "jump"; }
std::vector<Fault> faults_for(const Ev &e, bool kills, bool harmless)
{
    std::vector<Fault> o;
    auto add = [&](const char *kind, long arg = 0, long arg2 = 0) {
        Fault f;
        f.inst = e.inst; f.role = e.role; f.op = e.op; f.cls = e.cls; f.nth = e.nth; f.kind = kind; f.arg = arg; f.arg2 = arg2;
        o.push_back(f);
    };
    if (e.op == "exit" || e.op == "crash" || e.op == "blocked") return o;
    if (e.op == "start" || e.op == "child") {
        if (kills) { add("kill", 0, 9); add("kill", 0, 15); add("kill", 0, 2); add("kill", 0, 11); }
        return o;
    }
    if (harmless) {
        if ((e.op == "read" || e.op == "write") && e.ret > 1) { add("short", 0); add("short", 1); add("short", e.ret / 2); }
        if (e.op == "clock") { add("jump", 3600000000l); add("jump", -7200000000l); }
        return o;
    }
    if (e.op == "open") {
        for (int x : { EACCES, EMFILE, ENFILE, EIO, ENOMEM, ELOOP }) add("err", x);
        if (e.cls == "obj" || e.cls == "trace") { add("err", ENOSPC); add("err", EROFS); add("err", EDQUOT); }
        else add("err", ENOENT);
    } else if (e.op == "read") {
        add("err", EIO);
        if (e.cls != "stdin") add("err", EISDIR);
    } else if (e.op == "write") {
        for (int x : { ENOSPC, EIO, EDQUOT, EFBIG }) add("err", x);
        if (e.cls == "obj") { add("fulldisk", 0); add("fulldisk", 100); }
    } else if (e.op == "fork") { add("err", EAGAIN); add("err", ENOMEM); }
    else if (e.op == "exec") { add("err", ENOENT); add("err", EACCES); add("err", ENOMEM); add("err", ETXTBSY); add("err", E2BIG); }
    else if (e.op == "dup") { add("err", EMFILE); add("err", EBUSY); }
    else if (e.op == "rename") { add("err", EIO); add("err", ENOSPC); add("err", EACCES); }
    else if (e.op == "access") { add("err", EACCES); add("err", EIO); }
    else if (e.op == "pipe") { add("err", EMFILE); }
    if (kills) {
        add("kill", 0, 9); add("kill", 0, 15); add("kill", 0, 11); add("kill", 0, 6);
        if (e.op != "exec" && e.op != "fork") { add("kill_after", 0, 9); }
        if (e.op == "write") { add("torn", e.ret > 0 ? e.ret / 2 : 0, 0); add("torn", 1, 0); }
    }
    return o;
}
Fault random_fault(Rng &r, const std::vector<Ev> &ev, std::function<bool(const Ev &)> where, bool kills, bool harmless, bool &ok)
{
    ok = false;
    // choose the kind of place first, so that rare operations are not drowned by frequent ones
    std::map<std::string, std::vector<const Ev *>> by;
    for (auto &e : ev) if (where(e)) by[e.role + "|" + e.op + "|" + e.cls].push_back(&e);
    for (int tries = 0; tries < 20 && !by.empty(); tries++) {
        auto it = by.begin();
        std::advance(it, (long)r.below(by.size()));
        auto &l = it->second;
        const Ev &e = *l[r.below(l.size())];
        auto f = faults_for(e, kills, harmless);
        if (f.empty()) continue;
        ok = true;
        Fault x = f[r.below(f.size())];
        if (x.kind == "torn" && e.ret > 1) x.arg = (long)r.below((uint64_t)e.ret);
        if (x.kind == "short" && e.ret > 2) x.arg = (long)r.below((uint64_t)e.ret - 1);
        if (x.kind == "fulldisk") x.arg = r.chance(30) ? 0 : (long)r.below(3000);
        return x;
    }
    return Fault();
}
size_t start_of_program(const std::vector<Ev> &ev, int inst)
{
    size_t n = 0;
    for (size_t i = 0; i < ev.size(); i++) {
        auto &e = ev[i];
        if (e.inst == inst && e.role == "x1sim" && e.op == "read" && e.cls == "obj") n = i + 1;
    }
    return n;
}
Profile random_profile(Rng &r)
{
    Profile p;
    p.stmts = (int)r.range(3, 14);
    p.procs = (int)r.range(0, 4);
    p.arrays = r.chance(70); p.byname = r.chance(80); p.gotos = r.chance(70); p.loops = r.chance(85); p.reals = r.chance(75); p.bools = r.chance(75);
    p.nested = r.chance(75); p.library = r.chance(75); p.callbacks = r.chance(70); p.format = r.chance(60);
    p.input = false; p.xeen = false; p.resym = false;
    return p;
}
bool add_program(Scenario &s, Rng &r, const std::string &name, Profile p, int cut, int bad)
{
    Program P;
    for (int t = 0; t < 6; t++) {
        uint64_t ps = find_program(r.next() >> 1, p, P, cut, bad);
        if (!P.model.ok) continue;
        use_program(s, name, ps, p, cut, bad);
        return true;
    }
    return false;
}
