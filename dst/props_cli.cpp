// Command lines: what they ask for is done, and nothing else.
#include "oracle.h"
#include <string.h>
#include <algorithm>

static std::string resolve(const std::string &cwd, const std::string &p)
{
    std::vector<std::string> v;
    std::stringstream ss(p.size() && p[0] == '/' ? p : cwd + "/" + p);
    std::string c;
    while (std::getline(ss, c, '/')) {
        if (c.empty() || c == ".") continue;
        if (c == "..") { if (v.size()) v.pop_back(); }
        else v.push_back(c);
    }
    std::string o;
    for (auto &x : v) o += "/" + x;
    return o.empty() ? "/" : o;
}
static std::string base_of(const std::string &p) { size_t k = p.rfind('/'); return k == std::string::npos ? p : p.substr(k + 1); }
static std::string dir_of(const std::string &p) { size_t k = p.rfind('/'); return k == 0 ? "/" : p.substr(0, k); }

// What a command line of x1sim asks for.
struct Asked {
    enum Kind { HELP, VERSION, WRONG, RUN } kind = RUN;
    std::vector<std::string> files;
    std::vector<std::string> traces; // opened, in this order; the last one is used
    bool debug = false;
};
// Arguments as the C library's getopt_long takes them apart.
static Asked take_apart(const std::vector<std::string> &argv, std::function<bool(const std::string &)> can_open)
{
    static const std::vector<std::string> longs = { "help", "version", "trace", "debug" };
    Asked a;
    // false: no further
    auto act = [&](char o, const std::string &arg) {
        if (o == 'h') { a.kind = Asked::HELP; return false; }
        if (o == 'V') { a.kind = Asked::VERSION; return false; }
        if (o == 'd') { a.debug = true; return true; }
        if (o == 'T') {
            if (!can_open(arg)) { a.kind = Asked::WRONG; return false; }
            a.traces.push_back(arg);
            return true;
        }
        a.kind = Asked::WRONG;
        return false;
    };
    for (size_t i = 1; i < argv.size(); i++) {
        const std::string &w = argv[i];
        if (w.size() < 2 || w[0] != '-') { a.files.push_back(w); continue; }
        if (w[1] == '-') {
            size_t eq = w.find('=');
            std::string name = w.substr(2, eq == std::string::npos ? eq : eq - 2), arg = eq == std::string::npos ? "" : w.substr(eq + 1);
            std::vector<std::string> m;
            for (auto &l : longs) if (l.compare(0, name.size(), name) == 0) m.push_back(l);
            if (m.size() != 1) { a.kind = Asked::WRONG; return a; }
            bool needs = m[0] == "trace";
            if (!needs && eq != std::string::npos) { a.kind = Asked::WRONG; return a; }
            if (needs && eq == std::string::npos) {
                if (i + 1 >= argv.size()) { a.kind = Asked::WRONG; return a; }
                arg = argv[++i];
            }
            if (!act(m[0] == "help" ? 'h' : m[0] == "version" ? 'V' : m[0] == "trace" ? 'T' : 'd', arg)) return a;
            continue;
        }
        for (size_t k = 1; k < w.size(); k++) {
            std::string arg;
            bool last = false;
            if (w[k] == 'T') {
                last = true;
                arg = w.substr(k + 1);
                if (arg.empty()) {
                    if (i + 1 >= argv.size()) { a.kind = Asked::WRONG; return a; }
                    arg = argv[++i];
                }
            }
            if (!act(w[k], arg)) return a;
            if (last) break;
        }
    }
    return a;
}
static std::string extension(const std::string &p)
{
    std::string b = base_of(p);
    size_t k = b.rfind('.');
    return k == std::string::npos || k == 0 || b == ".." ? "" : b.substr(k);
}

// x: id.PATH says which program a source is, want.NAME and werr.NAME what it does; bad: it has an error; lib.PATH: a good library.
static Verdict check11(const Scenario &s)
{
    Verdict v;
    RunResult r = sim(s, &v);
    nontrivial(r.hash);
    // object program of each source
    std::map<std::string, std::string> object;
    auto object_of = [&](const std::string &name) -> const std::string & {
        if (object.count(name)) return object[name];
        Scenario t = s;
        t.faults.clear();
        t.insts.clear();
        t.insts.push_back(sim_instance({ "ref.a60" }));
        t.insts[0].in.type = "null";
        t.files.clear();
        for (auto &f : s.files) {
            if (f.path == "/opt/x1/lib/x1algol.lib") t.files.push_back(f);
            if (get(s, "id." + f.path) == name) put_file(t, "/w/ref.a60", f.data);
        }
        RunResult q = sim(t, &v);
        return object[name] = q.files.count("/w/ref.x1") ? q.files["/w/ref.x1"] : "";
    };
    // most programs cannot be translated without a library
    std::map<std::string, bool> needs;
    auto needs_library = [&](const std::string &name) {
        if (needs.count(name)) return needs[name];
        Scenario t = s;
        t.faults.clear();
        t.insts.clear();
        t.insts.push_back(sim_instance({ "ref.a60", "none.lib" }));
        t.insts[0].in.type = "null";
        t.files.clear();
        for (auto &f : s.files) if (get(s, "id." + f.path) == name) put_file(t, "/w/ref.a60", f.data);
        RunResult q = sim(t, &v);
        return needs[name] = q.inst[0].out.empty();
    };
    struct File { std::string what; std::string data; }; // fixed source object trace diag
    std::map<std::string, File> fs;
    std::set<std::string> dirs = { "/", "/w" };
    for (auto &f : s.files) {
        if (!f.dir) fs[f.path] = { "fixed", f.data };
        for (std::string d = f.dir ? f.path : dir_of(f.path); dirs.insert(d).second; d = dir_of(d)) { }
    }
    std::vector<size_t> ord(s.insts.size());
    for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
    std::stable_sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return s.insts[a].phase < s.insts[b].phase; });
    std::map<std::string, std::string> objects; // path -> program, or "?" for what a failed translation left
    std::string hist;
    for (size_t n : ord) {
        auto &in = s.insts[n];
        auto &i = r.inst[n];
        std::string cmd = in.exe;
        for (size_t k = 1; k < in.argv.size(); k++) cmd += " '" + in.argv[k] + "'";
        if (in.cwd != "/w") cmd = "cd " + in.cwd + "; " + cmd;
        hist += (hist.empty() ? "" : "; then ") + cmd;
        if (!contained(v, s, r, (int)n, in.exe != "objfile")) { v.msg = hist + ": " + v.msg; return v; }
        if (in.exe != "x1sim") {
            bool help = in.argv.size() > 1 && in.argv[1] == "-h";
            probe(in.exe + (help ? " -h" : " cannot"));
            if (help && (!i.ok() || i.out.empty())) return blame(v, "help", hist + ": no help: " + end_of(i));
            if (!help && i.ok()) return blame(v, "status", hist + ": success without doing anything: " + end_of(i));
            continue;
        }
        std::vector<std::string> opened;
        Asked a = take_apart(in.argv, [&](const std::string &p) {
            std::string q = resolve(in.cwd, p);
            return dirs.count(dir_of(q)) && !dirs.count(q) && q != "/";
        });
        for (auto &t : a.traces) fs[resolve(in.cwd, t)] = { "trace", "" };
        auto refuse = [&](const std::string &why) {
            probe(why);
            if (i.how != "exit" || i.code != 1) { blame(v, "status", hist + ": " + why + ", but status 1 did not follow: " + end_of(i)); return false; }
            bool quiet = i.out.empty() || (a.debug && a.traces.empty());
            if (!quiet) { blame(v, "output", hist + ": " + why + ", but something was written to standard output: " + end_of(i)); return false; }
            return true;
        };
        if (a.kind == Asked::HELP || a.kind == Asked::VERSION) {
            probe(a.kind == Asked::HELP ? "help" : "version");
            if (!i.ok()) return blame(v, "status", hist + ": should have succeeded: " + end_of(i));
            if (i.out.find(a.kind == Asked::HELP ? "Usage" : "ersion") == std::string::npos) return blame(v, "help", hist + ": the information asked for is missing: " + end_of(i));
            continue;
        }
        if (a.kind == Asked::WRONG) { if (!refuse("wrong option")) return v; continue; }
        if (a.files.empty()) { if (!refuse("no program named")) return v; continue; }
        std::string p = resolve(in.cwd, a.files[0]), e = extension(a.files[0]), prog, lib;
        bool translated = true;
        std::string why;
        if (e == ".a60") {
            prog = get(s, "id." + p);
            std::string o = base_of(p);
            o = resolve(in.cwd, o.substr(0, o.size() - 4) + ".x1");
            if (a.files.size() > 1) lib = resolve(in.cwd, a.files[1]);
            else lib = in.env.count("X1ALGOL_LIB") ? resolve(in.cwd, in.env.at("X1ALGOL_LIB")) : "/opt/x1/lib/x1algol.lib";
            if (prog.empty() || !fs.count(p)) translated = false, why = "no such source";
            else if (get(s, "bad." + prog) == "1") translated = false, why = "error in the source";
            else if (get(s, "lib." + lib) != "1" && needs_library(prog)) translated = false, why = "no such library";
            if (translated) fs[o] = { "object", object_of(prog) }, objects[o] = prog;
            else fs[o] = { "diag", "" }, objects[o] = "?";
        } else if (e == ".x1") {
            if (a.files.size() > 1) translated = false, why = "files besides an object program";
            else if (!objects.count(p)) translated = false, why = "no such object program";
            else if (objects[p] == "?") translated = false, why = "object program left by a failed translation";
            else prog = objects[p];
        } else translated = false, why = "unknown extension";
        if (!translated) { if (!refuse(why)) return v; continue; }
        bool werr = get(s, "werr." + prog) == "1";
        probe(std::string(e == ".a60" ? "source" : "object program") + (a.debug ? a.traces.size() ? " traced to a file" : " traced to the output" : "") + (a.files.size() > 1 ? " with libraries named" : ""));
        if (a.debug && a.traces.empty()) {
            if (i.how != "exit" || i.code != (werr ? 1 : 0)) return blame(v, "status", hist + ": wrong status: " + end_of(i));
            if (i.out.size() < 500) return blame(v, "trace", hist + ": no trace was written: " + end_of(i));
        } else if (!exact(v, s, i, get(s, "want." + prog), werr, hist)) return v;
        if (a.traces.size()) {
            fs[resolve(in.cwd, a.traces.back())].data = a.debug ? "long" : "short";
        }
    }
    for (auto &f : r.files) {
        if (!fs.count(f.first)) return blame(v, "files", hist + ": " + f.first + " was created: " + quote(f.second, 60));
        auto &w = fs[f.first];
        if (w.what == "fixed" && f.second != w.data) return blame(v, "files", hist + ": " + f.first + " was changed: " + diff_text(f.second, w.data));
        if (w.what == "object" && f.second != w.data) return blame(v, "files", hist + ": " + f.first + " is not the object program of its source: " + diff_text(f.second, w.data));
        if (w.what == "trace" && w.data == "long" && f.second.size() < 500) return blame(v, "trace", hist + ": no trace in " + f.first + ": " + quote(f.second));
        if (w.what == "trace" && w.data == "short" && f.second.size() > 200) return blame(v, "trace", hist + ": a trace nobody asked for in " + f.first);
    }
    for (auto &f : fs) {
        if (f.second.what == "diag") continue;
        if (!r.files.count(f.first)) return blame(v, "files", hist + ": " + f.first + " is missing");
    }
    return v;
}
static void gen11(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Scenario s = base_scenario("C11", seed);
    s.x["lib./opt/x1/lib/x1algol.lib"] = "1";
    static const std::vector<std::string> places = { "/w/p.a60", "/w/q.v2.a60", "/w/sub/p.a60", "/w/a b.a60", "/w/sub/deep/r.a60", "/x/s.a60", "/w/-d.a60", "/w/t.x1.a60", "/w/sub/q.v2.a60" };
    int np = (int)r.range(1, 3);
    std::vector<std::string> sources;
    bool brief = true; // can be traced
    for (int k = 0; k < np; k++) {
        Profile p = random_profile(r);
        p.stmts = (int)r.range(2, 5);
        p.error = r.chance(15);
        p.min_out = 1;
        std::string name = fmt("p%d", k);
        if (!add_program(s, r, name, p)) return;
        std::string path;
        do path = r.pick(places); while (std::find(sources.begin(), sources.end(), path) != sources.end());
        for (auto &f : s.files) if (f.path == "/w/" + name) {
            f.path = path;
            if (r.chance(12)) { f.data = "_b_e_g_i_n print(1);\n undeclared:= 2;\n print(3)\n_e_n_d\n\n"; s.x["bad." + name] = "1"; }
        }
        s.x.erase("prog." + name);
        s.x.erase("input." + name);
        s.x.erase("in." + name);
        s.x["id." + path] = name;
        Scenario t = s;
        t.insts.push_back(sim_instance({ "-d", "-Tlong.tr", path }));
        t.insts[0].in.type = "null";
        RunResult q = sim(t);
        brief = brief && q.inst[0].how == "exit" && q.files.count("/w/long.tr") && q.files["/w/long.tr"].size() < 4000000;
        sources.push_back(path);
    }
    put_file(s, "/w/my.lib", g_library);
    s.x["lib./w/my.lib"] = "1";
    put_file(s, "/w/sub/keep", "not touched\n");
    put_file(s, "/w/notes.txt", "not touched\n");
    put_file(s, "/w/p", "no extension\n");
    auto from = [&](const std::string &cwd, const std::string &path) {
        // one way of naming it
        int w = (int)r.below(5);
        if (w == 0) return path;
        std::string up;
        std::string d = cwd;
        while (path.compare(0, d.size() + 1, d == "/" ? "/" : d + "/") != 0) { up += "../"; d = dir_of(d); if (d == "/") break; }
        std::string rest = path.substr(d == "/" ? 1 : d.size() + 1);
        if (w == 1 && up.empty()) return "./" + rest;
        if (w == 2 && d == "/w" && up.empty()) return "sub/../" + rest;
        std::string q = up + rest;
        return q[0] == '-' ? "./" + q : q;
    };
    int n = (int)r.range(1, 6);
    for (int k = 0; k < n; k++) {
        Instance in = sim_instance({});
        in.phase = k;
        in.in.type = "null";
        if (r.chance(15)) in.cwd = "/w/sub";
        if (r.chance(6)) {
            in.exe = r.chance(50) ? "x1algc" : "objfile";
            in.argv[0] = "/opt/x1/bin/" + in.exe;
            int w = (int)r.below(3);
            if (w == 0) in.argv.push_back("-h");
            else if (in.exe == "x1algc") in.argv.push_back("missing.a60");
            else if (w == 1) { in.argv.push_back("5"); in.argv.push_back("missing.src"); }
            s.insts.push_back(in);
            continue;
        }
        // files
        std::vector<std::vector<std::string>> items;
        int w = (int)r.below(100);
        const std::string &src = r.pick(sources);
        std::string b = base_of(src), obj = in.cwd + "/" + b.substr(0, b.size() - 4) + ".x1";
        if (w < 55) items.push_back({ from(in.cwd, src) });
        else if (w < 80) items.push_back({ from(in.cwd, obj) });
        else if (w < 85) items.push_back({ from(in.cwd, "/w/missing.a60") });
        else if (w < 89) items.push_back({ "missing.x1" });
        else if (w < 93) items.push_back({ r.pick(std::vector<std::string>{ from("/w", "/w/notes.txt"), "p", "-", "p.A60", "p.a60.bak", ".a60", "my.lib", "p.x1.1000", "p.x11", "p.xx1", ".x1" }) });
        int libs = items.size() && r.chance(20) ? (int)r.range(1, 2) : 0;
        for (int j = 0; j < libs; j++) {
            int q = (int)r.below(10);
            items.push_back({ q < 4 ? from(in.cwd, "/w/my.lib") : q < 8 ? "/opt/x1/lib/x1algol.lib" : "missing.lib" });
        }
        if (r.chance(8)) in.env["X1ALGOL_LIB"] = r.chance(50) ? "/w/my.lib" : "/none/such.lib";
        // options anywhere between them
        int no = r.chance(35) ? 0 : (int)r.range(1, 3);
        for (int j = 0; j < no; j++) {
            std::string t = r.pick(std::vector<std::string>{ "tr.log", "sub/tr", "/w/abs.tr", "t r", "t2", "-d", "--help", "-", "tr=1" });
            if (in.cwd != "/w") t = "/w/abs.tr";
            if (r.chance(5)) t = r.chance(50) ? "nowhere/tr" : "/w/sub";
            std::vector<std::string> o;
            int q = (int)r.below(20);
            if (q < 2) o = { "-T", t };
            else if (q < 4) o = { "-T" + t };
            else if (q < 6) o = { "--trace=" + t };
            else if (q < 7) o = { "--trace", t };
            else if (q < 8) o = { r.chance(50) ? "--tr=" + t : "--t=" + t };
            else if (q < 9) o = { "-dT" + t };
            else if (q < 10) o = { "-dT", t };
            else if (q < 12) o = { "-d" };
            else if (q < 14) o = { r.chance(70) ? "--debug" : "--deb" };
            else if (q < 15) o = { r.pick(std::vector<std::string>{ "-h", "--help", "--he", "-dh", "--h" }) };
            else if (q < 16) o = { r.pick(std::vector<std::string>{ "-V", "--version", "--v", "-dV" }) };
            else if (q < 17) o = { r.pick(std::vector<std::string>{ "-x", "--nothing", "-v", "--help=1", "--version=2", "-dx", "--debugging", "-t", "-D", "--=", "-H", "--debug=1" }) };
            else continue;
            if (!brief && (o[0][1] == 'd' || o[0].substr(0, 3) == "--d")) continue;
            items.insert(items.begin() + (long)r.below(items.size() + 1), o);
        }
        if (r.chance(4)) items.push_back({ r.pick(std::vector<std::string>{ "--trace", "-T", "--t", "-dT" }) }); // what it needs is missing
        for (auto &o : items) for (auto &a : o) in.argv.push_back(a);
        s.insts.push_back(in);
    }
    s.same_pids = r.chance(30);
    if (!emit(s)) return;
    if (r.chance(30)) {
        RunResult base = sim(s);
        for (int j = 0; j < 5; j++) {
            bool ok;
            Fault f = random_fault(r, base.ev, [](const Ev &e) { return e.op == "read" || e.op == "write"; }, false, true, ok);
            if (ok) s.faults.push_back(f);
        }
        emit(s);
    }
}
static Register r11({ "C11", "A command line does what it says and nothing else", 600, 20000, gen11, check11,
    "one case is a history of one to six command lines of x1sim (now and then x1algc and objfile) in one directory tree, judged against a model of options, files and directories; "
    "some with short reads and writes; distinct by execution hash", "" });
