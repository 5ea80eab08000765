#include "driver.h"
#include <fstream>

Stats g_stats;
std::string g_tier = "quick";
bool g_replaying = false;
std::string g_library;

std::vector<Property> &properties()
{
    static std::vector<Property> p;
    return p;
}
std::string slurp(const std::string &p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
void Stats::merge(const Stats &o)
{
    runs += o.runs; cases += o.cases; steps += o.steps; sim_us += o.sim_us; switches += o.switches; skipped += o.skipped;
    for (auto &e : o.fired) fired[e.first] += e.second;
    for (auto &e : o.probes) probes[e.first] += e.second;
    for (auto &e : o.how) how[e.first] += e.second;
    orders.insert(o.orders.begin(), o.orders.end());
    traces.insert(o.traces.begin(), o.traces.end());
    nontrivial.insert(o.nontrivial.begin(), o.nontrivial.end());
    for (auto &s : o.samples) if (samples.size() < 6) samples.push_back(s);
    if (harness.empty()) harness = o.harness;
}
RunResult sim(const Scenario &s, Verdict *v)
{
    RunResult r = run(s);
    g_stats.runs++;
    g_stats.steps += r.steps;
    g_stats.sim_us += r.end_us;
    g_stats.switches += r.switches;
    for (auto &f : r.fired) g_stats.fired[f.first] += f.second;
    for (auto &i : r.inst) g_stats.how[i.status()]++;
    g_stats.orders.insert(r.order_hash);
    g_stats.traces.insert(r.hash);
    if (!r.harness.empty()) throw HarnessError{ r.harness };
    if (v) { Hash h; h.num(v->hash); h.num(r.hash); v->hash = h.h; }
    return r;
}
Scenario base_scenario(const std::string &prop, uint64_t seed)
{
    Scenario s;
    s.prop = prop;
    s.seed = seed;
    Rng r(mix(seed, 0xBA5E));
    static const std::vector<int> poisons = { 0xA5, 0x00, 0xFF, 0x5A, 0x01, 0x7F };
    s.poison = r.pick(poisons);
    static const std::vector<long> ticks = { 1, 20, 50, 400, 5000 };
    s.tick_us = r.pick(ticks);
    s.wall0_us = 1700000000000000l + (long)r.below(86400) * 1000000 + (long)r.below(1000000);
    put_file(s, "/opt/x1/lib/x1algol.lib", g_library);
    return s;
}
void put_file(Scenario &s, const std::string &path, const std::string &data, int mode)
{
    for (auto &f : s.files) if (f.path == path) { f.data = data; f.mode = mode; return; }
    s.files.push_back({ path, data, mode, false });
}
Instance sim_instance(const std::vector<std::string> &args)
{
    Instance i;
    i.argv = { "/opt/x1/bin/x1sim" };
    for (auto &a : args) i.argv.push_back(a);
    i.env["PATH"] = "/opt/x1/bin";
    i.env["HOME"] = "/home/u";
    i.env["TZ"] = "UTC";
    return i;
}
std::string pack_profile(const Profile &p)
{
    return fmt("%d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %ld %d %d %d %d %d %d %d", p.stmts, p.procs, p.arrays, p.byname, p.gotos, p.loops, p.reals, p.bools, p.nested,
        p.input, p.xeen, p.resym, p.library, p.callbacks, p.format, p.error, p.stop, p.min_out, p.style, p.tokens, p.tty, p.big, p.procp, p.arrp, p.turning);
}
Profile unpack_profile(const std::string &t)
{
    Profile p;
    std::istringstream l(t);
    l >> p.stmts >> p.procs >> p.arrays >> p.byname >> p.gotos >> p.loops >> p.reals >> p.bools >> p.nested >> p.input >> p.xeen >> p.resym >> p.library
        >> p.callbacks >> p.format >> p.error >> p.stop >> p.min_out >> p.style >> p.tokens >> p.tty >> p.big >> p.procp >> p.arrp >> p.turning;
    return p;
}
static InputSpec shape_input(const InputSpec &like, const std::string &data, uint64_t seed)
{
    InputSpec r = like;
    r.chunks.clear();
    Rng g(seed);
    if (r.type == "file") { r.chunks.push_back({ 0, data }); return r; }
    size_t p = 0;
    long t = 0;
    int mode = (int)g.below(4); // bytes, small, lines, big
    while (p < data.size()) {
        size_t n = mode == 0 ? 1 : mode == 1 ? 1 + g.below(4) : mode == 3 ? 1 + g.below(64) : 0;
        if (mode == 2) { auto k = data.find('\n', p); n = k == std::string::npos ? data.size() - p : k + 1 - p; }
        if (n > data.size() - p) n = data.size() - p;
        if (g.chance(60)) t += (long)g.below(g.chance(10) ? 90000000 : 3000);
        r.chunks.push_back({ t, data.substr(p, n) });
        p += n;
    }
    return r;
}
InputSpec random_input(Rng &r, const std::string &data, bool tty)
{
    InputSpec i;
    int w = (int)r.below(10);
    i.type = tty ? "tty" : w < 4 ? "file" : "pipe";
    if (i.type == "file" && r.chance(50)) i.maxread = (int)r.range(1, 7);
    return shape_input(i, data, r.next());
}
void use_program(Scenario &s, const std::string &name, uint64_t pseed, const Profile &p, int cut, int bad, bool set_input)
{
    s.x["prog." + name] = fmt("%lu|%d|%d|%s|", (unsigned long)pseed, cut, bad, pack_profile(p).c_str());
    if (set_input) s.x["input." + name] = "0";
    rebuild(s, name, {});
}
std::set<int> deleted_of(const Scenario &s, const std::string &name)
{
    std::set<int> d;
    auto i = s.x.find("prog." + name);
    if (i == s.x.end()) return d;
    auto k = i->second.rfind('|');
    std::istringstream l(i->second.substr(k + 1));
    int v;
    while (l >> v) d.insert(v);
    return d;
}
Program program_of(const Scenario &s, const std::string &name, bool *ok)
{
    auto i = s.x.find("prog." + name);
    if (ok) *ok = i != s.x.end();
    if (i == s.x.end()) return Program();
    std::vector<std::string> f;
    std::stringstream ss(i->second);
    std::string t;
    while (std::getline(ss, t, '|')) f.push_back(t);
    return make_program(strtoull(f[0].c_str(), nullptr, 10), unpack_profile(f[3]), deleted_of(s, name), atoi(f[1].c_str()), atoi(f[2].c_str()));
}
// Recreates the program without some statements, and what is expected of it.
bool rebuild(Scenario &s, const std::string &name, const std::set<int> &del)
{
    auto &d = s.x["prog." + name];
    auto k = d.rfind('|');
    std::string list;
    for (int v : del) list += (list.empty() ? "" : " ") + std::to_string(v);
    d = d.substr(0, k + 1) + list;
    Program p = program_of(s, name);
    if (!p.model.ok) return false;
    put_file(s, "/w/" + name, p.source);
    s.x["want." + name] = p.model.out;
    s.x["werr." + name] = p.model.error ? "1" : "0";
    s.x["in." + name] = p.model.in;
    auto in = s.x.find("input." + name);
    if (in != s.x.end()) {
        for (auto &i : s.insts) {
            bool uses = false;
            for (auto &a : i.argv) if (a == name) uses = true;
            if (uses && i.in.type != "null") i.in = shape_input(i.in, p.model.in, s.seed ^ 0x1D);
        }
    }
    return true;
}
std::string quote(const std::string &s, size_t max)
{
    std::string e = esc(s.size() > max ? s.substr(0, max) + "..." : s);
    return "'" + e + "'";
}
std::string diff_text(const std::string &got, const std::string &want)
{
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    size_t from = i > 20 ? i - 20 : 0;
    return fmt("at byte %zu of %zu (expected %zu): got ", i, got.size(), want.size()) + quote(got.substr(from), 60) + " expected " + quote(want.substr(from), 60);
}
