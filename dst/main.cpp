#include "driver.h"
#include "templates.h"
#include <dirent.h>
#include <errno.h>
#include <fstream>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
// differential test of the reference interpreter, for development
static int fuzz(int argc, char **argv)
{
    uint64_t from = strtoull(argv[0], nullptr, 10), n = strtoull(argv[1], nullptr, 10);
    std::string mode = argc > 2 ? argv[2] : "";
    int workers = 8;
    for (int w = 0; w < workers; w++) {
        if (fork() == 0) {
            world_setup();
            std::map<std::string, long> rej, feat;
            long bad = 0, done = 0, total = 0, oks = 0;
            for (uint64_t i = from + w; i < from + n; i += workers) {
                Rng r(mix(i, 999));
                Profile p;
                p.stmts = (int)r.range(3, 14);
                p.procs = (int)r.range(0, 5);
                p.input = mode.find('i') != std::string::npos;
                p.xeen = mode.find('x') != std::string::npos;
                p.resym = mode.find('r') != std::string::npos;
                p.stop = p.xeen;
                p.error = mode.find('e') != std::string::npos;
                    p.tty = mode.find('t') != std::string::npos;
        p.format = p.error || p.input;
        p.gotos = p.nested = p.byname = p.callbacks = p.reals = p.bools = true;
        p.big = 30;
        p.tty = mode.find('t') != std::string::npos;
        p.format = p.error || p.input;
        p.gotos = p.nested = p.byname = p.callbacks = p.reals = p.bools = true;
        p.big = 30;
                int cut = mode.find('c') != std::string::npos ? (int)r.below(4) : -1, bd = mode.find('b') != std::string::npos ? (int)r.below(4) : -1;
                total++;
                Program P = make_program(i, p, {}, cut, bd);
                if (!P.model.ok) { rej[P.model.reject]++; continue; }
                oks++;
                for (auto &f : P.features) feat[f.first]++;
                Scenario s = base_scenario("fuzz", i);
                put_file(s, "/w/t.a60", P.source);
                s.insts.push_back(sim_instance({ "t.a60" }));
                s.insts[0].in = random_input(r, P.model.in, p.tty);
                RunResult q;
                try { q = sim(s); } catch (HarnessError &e) { printf("%lu HARNESS %s\n", i, e.what.c_str()); continue; }
                done++;
                bool good = q.inst[0].out == P.model.out && (P.model.error ? q.inst[0].status() == "exit:1" && !q.inst[0].err.empty() : q.inst[0].ok());
                if (!good && bad++ < 3) {
                    printf("---- seed %lu model error=%d %s status %s err=%s\n%s\n%s\n", i, P.model.error, P.model.errkind.c_str(), q.inst[0].status().c_str(), quote(q.inst[0].err).c_str(),
                        diff_text(q.inst[0].out, P.model.out).c_str(), P.source.size() < 1500 ? P.source.c_str() : "");
                }
            }
            printf("worker %d: total %ld accepted %ld run %ld bad %ld\n", w, total, oks, done, bad);
            if (w == 0) {
                for (auto &e : rej) printf("  reject %s: %ld\n", e.first.c_str(), e.second);
                for (auto &e : feat) printf(" %s=%ld", e.first.c_str(), e.second);
                printf("\n");
            }
            fflush(stdout);
            _exit(0);
        }
    }
    while (wait(nullptr) > 0) { }
    return 0;
}
static Profile fuzz_profile(uint64_t i, const std::string &mode, int &cut, int &bd, Rng &r)
{
    (void)i;
    Profile p;
    p.stmts = (int)r.range(3, 14);
    p.procs = (int)r.range(0, 5);
    p.input = mode.find('i') != std::string::npos;
    p.xeen = mode.find('x') != std::string::npos;
    p.resym = mode.find('r') != std::string::npos;
    p.stop = p.xeen;
    p.error = mode.find('e') != std::string::npos;
        p.tty = mode.find('t') != std::string::npos;
        p.format = p.error || p.input;
        p.gotos = p.nested = p.byname = p.callbacks = p.reals = p.bools = true;
        p.big = 30;
    cut = mode.find('c') != std::string::npos ? (int)r.below(4) : -1, bd = mode.find('b') != std::string::npos ? (int)r.below(4) : -1;
    return p;
}
static int shrink(uint64_t seed, const std::string &mode)
{
    world_setup();
    Rng r(mix(seed, 999));
    int cut, bd;
    Profile p = fuzz_profile(seed, mode, cut, bd, r);
    std::set<int> del;
    RunResult q;
    auto bad = [&](const std::set<int> &d, Program &P) {
        P = make_program(seed, p, d, cut, bd);
        if (!P.model.ok) return false;
        Scenario s = base_scenario("fuzz", seed);
        put_file(s, "/w/t.a60", P.source);
        s.insts.push_back(sim_instance({ "t.a60" }));
        s.insts[0].in.type = p.tty ? "tty" : "file";
        s.insts[0].in.chunks.push_back({ 0, P.model.in });
        q = sim(s);
        return !(q.inst[0].out == P.model.out && (P.model.error ? q.inst[0].status() == "exit:1" && !q.inst[0].err.empty() : q.inst[0].ok()));
    };
    Program P;
    if (!bad(del, P)) { printf("no mismatch\n"); return 0; }
    for (int again = 0; again < 2; again++)
        for (int i = 0; i < P.nstmts; i++) {
            if (del.count(i)) continue;
            auto d = del;
            d.insert(i);
            Program P2;
            if (bad(d, P2)) del = d;
        }
    bad(del, P);
    printf("---- seed %lu status %s err=%s\n%s\n%s\n", seed, q.inst[0].status().c_str(), quote(q.inst[0].err).c_str(), diff_text(q.inst[0].out, P.model.out).c_str(), P.source.c_str());
    return 0;
}

// ------------------------------------------------------------ known findings
struct Known { std::string prop, key, text; };
static std::vector<Known> g_known;
static void load_known(const std::string &path)
{
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line)) {
        // known: property=C01 key=... text
        if (!starts(line, "known: property=")) continue;
        Known k;
        std::istringstream l(line.substr(16));
        std::string kk;
        l >> k.prop >> kk;
        std::getline(l, k.text);
        if (starts(kk, "key=")) k.key = kk.substr(4);
        g_known.push_back(k);
    }
}
static bool is_known(const std::string &prop, const Verdict &v)
{
    for (auto &k : g_known) if (k.prop == prop && !v.key.empty() && k.key == v.key) return true;
    return false;
}

// -------------------------------------------------------------- minimisation
static bool still(const Property &p, const Scenario &s, const std::string &cls, Verdict &out)
{
    try {
        Stats keep = g_stats;
        out = p.check(s);
        g_stats = keep;
    } catch (HarnessError &) { return false; }
    return out.cls == cls && !is_known(p.id, out);
}
static Scenario minimise(const Property &p, Scenario s, Verdict &v)
{
    double t_end = now() + 60;
    const std::string cls = v.cls;
    Verdict w;
    auto attempt = [&](const Scenario &c) {
        if (now() > t_end) return false;
        if (!still(p, c, cls, w)) return false;
        s = c;
        v = w;
        return true;
    };
    for (int round = 0; round < 3; round++) {
        bool any = false;
        for (size_t i = s.faults.size(); i-- > 0;) {
            Scenario c = s;
            c.faults.erase(c.faults.begin() + (long)i);
            if (attempt(c)) any = true;
        }
        if (!s.sched.empty()) {
            Scenario c = s;
            c.sched.clear();
            if (attempt(c)) any = true;
            else
                while (s.sched.size() > 1) {
                    c = s;
                    c.sched.resize(s.sched.size() / 2);
                    if (!attempt(c)) break;
                    any = true;
                }
        }
        std::vector<std::string> progs;
        for (auto &e : s.x) if (starts(e.first, "prog.")) progs.push_back(e.first.substr(5));
        for (auto &n : progs) {
            Program P = program_of(s, n);
            int step = P.nstmts > 16 ? P.nstmts / 4 : 1;
            for (; step >= 1; step = step == 1 ? 0 : step / 2)
                for (int i = 0; i < P.nstmts; i += step) {
                    auto d = deleted_of(s, n);
                    size_t before = d.size();
                    for (int k = i; k < i + step && k < P.nstmts; k++) d.insert(k);
                    if (d.size() == before) continue;
                    if (now() > t_end) break;
                    Scenario c = s;
                    if (!rebuild(c, n, d)) continue;
                    if (attempt(c)) any = true;
                }
        }
        for (size_t i = 0; i < s.insts.size(); i++) {
            Scenario c = s;
            bool diff = false;
            for (auto &k : c.insts[i].in.chunks) if (k.at_us) { k.at_us = 0; diff = true; }
            if (diff && attempt(c)) any = true;
            if (s.insts[i].in.chunks.size() > 1) {
                c = s;
                std::string all;
                for (auto &k : c.insts[i].in.chunks) all += k.data;
                c.insts[i].in.chunks = { { 0, all } };
                if (attempt(c)) any = true;
            }
            if (s.insts[i].in.maxread) { c = s; c.insts[i].in.maxread = 0; if (attempt(c)) any = true; }
            if (s.insts[i].out.maxwrite) { c = s; c.insts[i].out.maxwrite = 0; if (attempt(c)) any = true; }
            if (s.insts[i].start_us) { c = s; c.insts[i].start_us = 0; if (attempt(c)) any = true; }
        }
        if (s.tick_us != 1) { Scenario c = s; c.tick_us = 1; if (attempt(c)) any = true; }
        if (!any) break;
    }
    return s;
}

// ------------------------------------------------------------------- workers
static void dump_stats(std::ostream &o, const Stats &t)
{
    o << "n " << t.runs << ' ' << t.cases << ' ' << t.steps << ' ' << t.skipped << ' ' << t.sim_us << ' ' << t.switches << "\n";
    for (auto &e : t.fired) o << "f " << e.second << ' ' << e.first << "\n";
    for (auto &e : t.probes) o << "p " << e.second << ' ' << e.first << "\n";
    for (auto &e : t.how) o << "h " << e.second << ' ' << e.first << "\n";
    for (auto v : t.orders) o << "o " << v << "\n";
    for (auto v : t.traces) o << "t " << v << "\n";
    for (auto v : t.nontrivial) o << "z " << v << "\n";
    for (auto &s : t.samples) o << "s " << esc(s) << "\n";
    if (!t.harness.empty()) o << "e " << esc(t.harness) << "\n";
}
static Stats read_stats(std::istream &i)
{
    Stats t;
    std::string line;
    while (std::getline(i, line)) {
        if (line.size() < 3) continue;
        std::istringstream l(line.substr(2));
        std::string k;
        long n = 0;
        uint64_t u;
        auto name = [&]() { std::getline(l, k); return k.empty() ? k : k.substr(1); };
        switch (line[0]) {
        case 'n': l >> t.runs >> t.cases >> t.steps >> t.skipped >> t.sim_us >> t.switches; break;
        case 'f': l >> n; t.fired[name()] += n; break;
        case 'p': l >> n; t.probes[name()] += n; break;
        case 'h': l >> n; t.how[name()] += n; break;
        case 'o': l >> u; t.orders.insert(u); break;
        case 't': l >> u; t.traces.insert(u); break;
        case 'z': l >> u; t.nontrivial.insert(u); break;
        case 's': t.samples.push_back(unesc(line.substr(2))); break;
        case 'e': t.harness = unesc(line.substr(2)); break;
        }
    }
    return t;
}
struct Board { // shared by the workers
    volatile long min_bad; // lowest index of a violating seed
    volatile long done;
};
static std::string describe(const Scenario &s)
{
    std::string o = fmt("seed %lu;", (unsigned long)s.seed);
    for (auto &i : s.insts) {
        o += fmt(" phase %d:", i.phase);
        for (auto &a : i.argv) o += " " + a.substr(a.rfind('/') == std::string::npos || a[0] == '-' ? 0 : a.rfind('/') + 1);
        size_t n = 0;
        for (auto &c : i.in.chunks) n += c.data.size();
        o += fmt(" <%s:%zu bytes in %zu chunks, then %s", i.in.type.c_str(), n, i.in.chunks.size(), i.in.end.c_str());
        if (i.out.cap >= 0) o += fmt(" >%s full after %ld (%s)", i.out.type.c_str(), i.out.cap, i.out.fail.c_str());
        o += ";";
    }
    for (auto &f : s.faults) {
        o += fmt(" fault[%d %s %s %s #%d: %s %ld]", f.inst, f.role.c_str(), f.op.c_str(), f.cls.c_str(), f.nth, f.kind.c_str(), f.arg);
        if (o.size() > 1500) break;
    }
    if (!s.sched.empty()) o += fmt(" schedule of %zu choices", s.sched.size());
    for (auto &e : s.x) if (starts(e.first, "note")) o += " " + e.first + "=" + e.second.substr(0, 300);
    return o;
}
struct Found { bool any = false; Scenario s; Verdict v; };
static std::string g_replays = "/verif/replays";

static uint64_t case_seed(const Property &p, uint64_t base, long i)
{
    uint64_t h = 0;
    for (char c : p.id) h = h * 131 + (unsigned char)c;
    return mix(mix(base, h), (uint64_t)i) >> 1;
}
static void work(const Property &p, uint64_t base, long n, int w, int workers, double t_end, Board *bd, const std::string &tmp)
{
    world_setup();
    Found found;
    long found_at = -1;
    std::set<std::string> known_hit;
    for (long i = w; i < n; i += workers) {
        if (bd->min_bad < i) break;
        if (now() > t_end) { probe("stopped early by the time limit"); break; }
        uint64_t seed = case_seed(p, base, i);
        bool stop = false;
        try {
            p.gen(seed, [&](Scenario &s) {
                s.prop = p.id;
                s.seed = seed;
                g_stats.cases++;
                if (g_stats.cases <= 2 && w < 3) g_stats.samples.push_back(describe(s));
                static const double slow = getenv("X1DST_SLOW") ? atof(getenv("X1DST_SLOW")) : 0;
                double t0 = now();
                Verdict v = p.check(s);
                if (slow > 0 && now() - t0 > slow) {
                    std::string f = fmt("/tmp/slow.%s.%ld.%ld", p.id.c_str(), i, g_stats.cases);
                    std::ofstream(f) << s.save();
                    fprintf(stderr, "%.1f s: %s\n", now() - t0, f.c_str());
                }
                if (!v.bad()) return true;
                if (is_known(p.id, v)) { probe("known finding " + v.key); return true; }
                // the same again, before anybody is told
                Verdict v2 = p.check(s);
                if (v2.cls != v.cls || v2.hash != v.hash) { g_stats.harness = "not repeatable: " + v.cls + " " + v.msg + " / " + v2.cls + " " + v2.msg + "\n" + s.save(); stop = true; return false; }
                found.any = true;
                found.s = s;
                found.v = v;
                stop = true;
                return false;
            });
        } catch (HarnessError &e) { g_stats.harness = e.what; stop = true; }
        __atomic_fetch_add(&bd->done, 1, __ATOMIC_SEQ_CST);
        if (stop) {
            found_at = i;
            for (;;) {
                long m = bd->min_bad;
                if (m <= i || __atomic_compare_exchange_n(&bd->min_bad, &m, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) break;
            }
            break;
        }
    }
    std::ofstream o(tmp + fmt(".%d", w));
    dump_stats(o, g_stats);
    if (found.any) {
        std::ofstream r(tmp + fmt(".bad.%d", w));
        r << found_at << "\n" << found.s.save();
    }
    if (!g_stats.harness.empty()) { std::ofstream r(tmp + fmt(".err.%d", w)); r << found_at << "\n"; }
}
static const Property *find_property(const std::string &id)
{
    for (auto &p : properties()) if (p.id == id) return &p;
    return nullptr;
}
static int run_replay(const std::string &file, bool quiet)
{
    Scenario s;
    std::string err;
    if (!Scenario::load(slurp(file), s, err)) { fprintf(stderr, "%s: %s\n", file.c_str(), err.c_str()); return 3; }
    auto p = find_property(s.prop);
    if (!p) { fprintf(stderr, "%s: unknown property %s\n", file.c_str(), s.prop.c_str()); return 3; }
    world_setup();
    g_replaying = true;
    Verdict v;
    try { v = p->check(s); } catch (HarnessError &e) { fprintf(stderr, "simulator: %s\n", e.what.c_str()); return 3; }
    if (quiet) { printf("%s %016lx\n", v.bad() ? v.cls.c_str() : "-", (unsigned long)v.hash); return v.bad() ? 1 : 0; }
    printf("%s\n%s\n", describe(s).c_str(), v.bad() ? ("violated: " + v.cls + ": " + v.msg).c_str() : "held");
    if (v.bad()) printf("VIOLATION property=%s replay=%s\n", s.prop.c_str(), file.c_str());
    return v.bad() ? 1 : 0;
}
static std::string jmap(const std::map<std::string, long> &m)
{
    std::string o = "{";
    for (auto &e : m) o += (o.size() > 1 ? ", " : "") + jstr(e.first) + ": " + std::to_string(e.second);
    return o + "}";
}
static int check(const std::string &id, int argc, char **argv)
{
    auto p = find_property(id);
    if (!p) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 3; }
    long n = g_tier == "thorough" ? p->thorough : p->quick;
    uint64_t base = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
    int workers = 8;
    double limit = g_tier == "thorough" ? 7200 : 240;
    bool no_evidence = false;
    for (int i = 0; i < argc; i++) {
        std::string a = argv[i];
        if (starts(a, "--n=")) n = atol(a.c_str() + 4);
        if (starts(a, "--seed=")) base = strtoull(a.c_str() + 7, nullptr, 10);
        if (starts(a, "--workers=")) workers = atoi(a.c_str() + 10);
        if (starts(a, "--limit=")) limit = atof(a.c_str() + 8);
        if (a == "--dry") no_evidence = true;
    }
    if (getenv("X1DST_LIMIT")) limit = atof(getenv("X1DST_LIMIT"));
    printf("property %s, %s tier, VERIF_SEED %lu, %ld seeds\n", id.c_str(), g_tier.c_str(), (unsigned long)base, n);
    fflush(stdout);
    double t0 = now();
    auto bd = (Board *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bd->min_bad = 1l << 60;
    char tmpl[] = "/tmp/x1dst.XXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
    std::string tmp = std::string(tmpl) + "/w";
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; w++) {
        pid_t c = fork();
        if (c == 0) { work(*p, base, n, w, workers, t0 + limit, bd, tmp); _exit(0); }
        pids.push_back(c);
    }
    bool lost = false;
    for (auto c : pids) { int st = 0; waitpid(c, &st, 0); if (st) lost = true; }
    Stats all;
    long best = -1, erridx = -1;
    std::string besttext;
    for (int w = 0; w < workers; w++) {
        std::ifstream f(tmp + fmt(".%d", w));
        if (!f) { lost = true; continue; }
        all.merge(read_stats(f));
        std::ifstream e(tmp + fmt(".err.%d", w));
        long i;
        if (e >> i) if (erridx < 0 || i < erridx) erridx = i;
        std::string t = slurp(tmp + fmt(".bad.%d", w));
        if (!t.empty()) {
            i = atol(t.c_str());
            if (best < 0 || i < best) { best = i; besttext = t.substr(t.find('\n') + 1); }
        }
        unlink((tmp + fmt(".%d", w)).c_str());
        unlink((tmp + fmt(".bad.%d", w)).c_str());
        unlink((tmp + fmt(".err.%d", w)).c_str());
    }
    rmdir(tmpl);
    double wall = now() - t0;
    int rc = 0;
    for (auto &k : g_known) if (k.prop == id) printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), k.text.c_str());
    if (lost) { fprintf(stderr, "a worker was lost\n"); rc = 3; }
    if (!all.harness.empty() && (best < 0 || erridx < best)) { fprintf(stderr, "simulator error: %s\n", all.harness.c_str()); rc = 3; }
    long violations = 0;
    std::string replay;
    if (best >= 0 && rc == 0) {
        // reduce, then reproduce in a fresh process
        Scenario s;
        std::string err;
        Scenario::load(besttext, s, err);
        replay = g_replays + "/" + id + fmt("-%lu.replay", (unsigned long)s.seed);
        (void)!system(("mkdir -p " + g_replays).c_str());
        std::string msg;
        pid_t c = fork();
        if (c == 0) {
            world_setup();
            Verdict v, w;
            v = p->check(s);
            if (!v.bad()) _exit(4);
            Scenario m = minimise(*p, s, v);
            std::ofstream o(replay);
            o << m.save();
            o << "# " << v.cls << ": " << esc(v.msg) << "\n";
            o.close();
            std::ofstream(replay + ".msg") << v.cls << ": " << v.msg << fmt("\nhash %016lx\n", (unsigned long)v.hash);
            std::ofstream(replay + ".hash") << v.cls << fmt(" %016lx\n", (unsigned long)v.hash);
            _exit(0);
        }
        int st = 0;
        waitpid(c, &st, 0);
        if (st) { fprintf(stderr, "the violation did not reproduce when it was reduced\n"); rc = 3; }
        else {
            msg = slurp(replay + ".msg");
            std::string want = slurp(replay + ".hash");
            unlink((replay + ".msg").c_str());
            unlink((replay + ".hash").c_str());
            std::string self(4096, 0);
            ssize_t k = readlink("/proc/self/exe", &self[0], self.size());
            self.resize(k > 0 ? (size_t)k : 0);
            FILE *f = popen((self + " replay-quiet " + replay).c_str(), "r");
            char b[512] = "";
            if (f) { if (!fgets(b, sizeof b, f)) b[0] = 0; pclose(f); }
            if (want != b) { fprintf(stderr, "the replay differs in a fresh process: %s / %s\n", want.c_str(), b); rc = 3; }
            else {
                violations = 1;
                rc = 1;
                printf("%s", msg.c_str());
                printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str());
            }
        }
    }
    printf("%ld seeds, %ld cases, %ld simulated runs in %.1f s; %zu distinct executions; outcome %d\n", (long)bd->done, all.cases, all.runs, wall, all.traces.size(), rc);
    if (!no_evidence) {
        std::string V = getenv("X1DST_VERIF") ? getenv("X1DST_VERIF") : "/verif";
        (void)!system(("mkdir -p " + V + "/evidence").c_str());
        std::ofstream o(V + "/evidence/" + id + ".json");
        o << "{\"property\": " << jstr(id) << ", \"tier\": " << jstr(g_tier) << ", \"seed\": " << base << ", \"level\": \"exploration\",\n \"coverage\": {\n";
        o << "  \"evaluations\": " << all.cases << ",\n  \"distinct_nontrivial\": " << all.nontrivial.size() << ",\n  \"rule\": " << jstr(p->rule) << ",\n  \"samples\": [";
        for (size_t i = 0; i < all.samples.size(); i++) o << (i ? ",\n    " : "\n    ") << jstr(all.samples[i]);
        o << "],\n  \"seeds\": " << (long)bd->done << ",\n  \"simulated_runs\": " << all.runs << ",\n  \"runs_per_hour\": " << (long)((double)all.runs / (wall > 0 ? wall : 1) * 3600)
          << ",\n  \"seeds_per_hour\": " << (long)((double)bd->done / (wall > 0 ? wall : 1) * 3600) << ",\n  \"simulated_seconds\": " << fmt("%.3f", (double)all.sim_us / 1e6)
          << ",\n  \"system_calls_simulated\": " << all.steps << ",\n  \"context_switches\": " << all.switches
          << ",\n  \"faults_fired\": " << jmap(all.fired) << ",\n  \"probes\": " << jmap(all.probes) << ",\n  \"outcomes\": " << jmap(all.how)
          << ",\n  \"distinct_executions\": " << all.traces.size() << ",\n  \"distinct_interleavings\": " << all.orders.size()
          << ",\n  \"measure\": \"executions: hash of every system call with arguments, result and time; interleavings: hash of the sequence of processes served\""
          << ",\n  \"real_code\": " << jstr(p->real_code.empty() ? "x1sim and x1algc as built from the working tree, with libc and libstdc++" : p->real_code)
          << ",\n  \"stubbed\": \"kernel: files, descriptors, pipes, terminal, processes, signals, clock, memory allocation\"\n },\n";
        o << " \"assumptions\": [\"the simulated kernel behaves like Linux for the calls used\", \"programs under test make no decision outside system calls, allocation and the clock\"],\n";
        o << " \"wall_s\": " << fmt("%.2f", wall) << ", \"violations\": " << violations << "}\n";
    }
    return rc;
}
int main(int argc, char **argv)
{
    std::string B = getenv("X1DST_BUILD") ? getenv("X1DST_BUILD") : "/verif/.build";
    std::string R = getenv("X1_REPO") ? getenv("X1_REPO") : "/repo";
    g_bin.libsim = B + "/libsim.so";
    g_bin.real["x1sim"] = B + "/repo/simulator/x1sim";
    g_bin.real["x1algc"] = B + "/repo/compiler/x1algc";
    g_bin.real["objfile"] = B + "/tools/objfile";
    g_bin.real["from5track"] = B + "/tools/from5track";
    g_bin.checked["x1sim"] = B + "/checked/simulator/x1sim";
    g_bin.checked["x1algc"] = B + "/checked/compiler/x1algc";
    g_library = slurp(R + "/library/x1algol.lib");
    std::string c = argc > 1 ? argv[1] : "";
    std::string V = getenv("X1DST_VERIF") ? getenv("X1DST_VERIF") : "/verif";
    g_replays = V + "/replays";
    if (getenv("VERIF_TIER")) g_tier = getenv("VERIF_TIER");
    for (int i = 1; i < argc; i++) if (starts(argv[i], "--tier=")) g_tier = argv[i] + 7;
    load_known(V + "/known_findings.txt");
    if (c == "check" && argc > 2) return check(argv[2], argc - 3, argv + 3);
    if (c == "replay" && argc > 2) return run_replay(argv[2], false);
    if (c == "replay-quiet" && argc > 2) return run_replay(argv[2], true);
    if (c == "fuzz") return fuzz(argc - 2, argv + 2);
    if (c == "shrink") return shrink(strtoull(argv[2], nullptr, 10), argc > 3 ? argv[3] : "");
    if (c == "tmpl") { // [number size seed want]
        auto &t = templates();
        if (argc < 5) { for (size_t i = 0; i < t.size(); i++) printf("%zu\t%ld\t%ld\t%s\n", i, t[i].floor, t[i].max, t[i].name.c_str()); return 0; }
        Rng r(strtoull(argv[4], nullptr, 10));
        Sized z = t[(size_t)atoi(argv[2])].make(atol(argv[3]), r);
        printf("%s", argc > 5 ? z.want.c_str() : z.source.c_str());
        return 0;
    }
    if (c == "show") { // seed mode
        Program P; 
        Rng r(mix(strtoull(argv[2], nullptr, 10), 999));
        std::string mode = argc > 3 ? argv[3] : "";
        Profile p;
        p.stmts = (int)r.range(3, 14);
        p.procs = (int)r.range(0, 5);
        p.input = mode.find('i') != std::string::npos;
        p.xeen = mode.find('x') != std::string::npos;
        p.resym = mode.find('r') != std::string::npos;
        p.stop = p.xeen;
        p.error = mode.find('e') != std::string::npos;
        p.tty = mode.find('t') != std::string::npos;
        p.format = p.error || p.input;
        p.gotos = p.nested = p.byname = p.callbacks = p.reals = p.bools = true;
        p.big = 30;
        int cut = mode.find('c') != std::string::npos ? (int)r.below(4) : -1, bd = mode.find('b') != std::string::npos ? (int)r.below(4) : -1;
        P = make_program(strtoull(argv[2], nullptr, 10), p, {}, cut, bd);
        printf("%s", argc > 4 ? P.model.in.c_str() : P.source.c_str());
        return 0;
    }
    return 3;
}
