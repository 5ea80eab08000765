// Five-track tapes: from5track.
#include "oracle.h"
#include <string.h>

static Instance tool(const std::string &exe, const std::vector<std::string> &args)
{
    Instance i = sim_instance(args);
    i.exe = exe;
    i.argv[0] = "/opt/x1/bin/" + exe;
    return i;
}
static int odd(unsigned long v) { return __builtin_parityl(v); }

// A routine as words (operation code, word), and the symbols of its tape with what each bit belongs to.
struct Word { int opc = 0; unsigned w = 0; };
struct Tape {
    std::vector<int> sym;
    std::vector<int> owner;  // of each symbol: -1 header, else number of the word
    std::vector<int> fixed;  // bits of the symbol that say what follows
    int header = 0;
};
static const unsigned prefixes[] = { 0, 0000000000, 0022000000, 0120000000, 0122000000, 0420000000, 0422000000, 0520000000, 0522000000, 0520300000, 0040000000 };
static Tape punch(int mcp, const std::vector<Word> &ws)
{
    Tape t;
    auto put = [&](int owner, unsigned long v, int symbols, int fixed0 = 0, int fixed1 = 0) {
        for (int k = symbols - 1; k >= 0; k--) {
            t.sym.push_back((int)(v >> (5 * k) & 31));
            t.owner.push_back(owner);
            t.fixed.push_back(k == symbols - 1 ? fixed0 : k == symbols - 2 ? fixed1 : 0);
        }
    };
    t.sym.push_back(31); t.owner.push_back(-1); t.fixed.push_back(31);
    unsigned long len = ws.size();
    put(-1, len | (unsigned long)odd(len) << 14, 3);
    put(-1, (unsigned long)mcp | (unsigned long)odd((unsigned long)mcp) << 9, 2);
    t.header = (int)t.sym.size();
    for (size_t i = 0; i < ws.size(); i++) {
        if (ws[i].opc >= 8) {
            unsigned long v = 0x100ul | (unsigned long)ws[i].opc;
            put((int)i, v | (unsigned long)odd(v) << 9, 2, 8);
            continue;
        }
        int code = 0;
        for (int c = 1; c <= 10 && !code; c++) if ((ws[i].w & 0777700000) == prefixes[c]) code = c;
        if (code) {
            unsigned long v = (unsigned long)code << 17 | (unsigned long)ws[i].opc << 15 | (ws[i].w & 077777);
            put((int)i, v | (unsigned long)odd(v) << 24, 5, 12, 0);
            continue;
        }
        unsigned long v = 4ul << 30 | (unsigned long)ws[i].opc << 27 | ws[i].w;
        v |= (unsigned long)odd(v) << 34;
        put((int)i, v, 7, 12);
    }
    return t;
}
static std::string listing(int mcp, const std::vector<Word> &ws, int from = 0)
{
    std::string o;
    if (from == 0) o = fmt("Converting MCP %d, length %zu\n", mcp, ws.size());
    for (size_t i = 0; i < ws.size(); i++) {
        if (ws[i].opc >= 8) o += fmt("%zu %d\n", i, ws[i].opc);
        else o += fmt("%zu %d %010o\n", i, ws[i].opc, ws[i].w);
    }
    return o;
}
static std::vector<std::string> lines(const std::string &s)
{
    std::vector<std::string> l;
    std::stringstream ss(s);
    std::string x;
    while (std::getline(ss, x)) l.push_back(x);
    return l;
}
// x: words ("opc word" per line), mcp, and what was done to the tape: mode good flip cut range
static Verdict check29(const Scenario &s)
{
    Verdict v;
    std::vector<Word> ws;
    std::stringstream ss(get(s, "words"));
    Word w;
    while (ss >> w.opc >> w.w) ws.push_back(w);
    int mcp = (int)getn(s, "mcp");
    const std::string want = listing(mcp, ws), mode = get(s, "mode");
    RunResult r = sim(s, &v);
    auto &i = r.inst[0];
    nontrivial(r.hash);
    if (i.how == "hang" || i.how == "signal") { contained(v, s, r, 0, false); if (v.bad()) return v; }
    bool fired = false;
    for (size_t k = 0; k < s.faults.size(); k++) fired |= k < r.fault_fired.size() && r.fault_fired[k] && !is_harmless(s.faults[k]);
    auto &o = s.insts[0].out;
    bool undelivered = i.lost || (o.type == "closed" && !want.empty());
    if (i.how != "exit") return v; // SIGPIPE
    if (undelivered) {
        probe("output refused");
        if (i.ok()) return blame(v, "lost", fmt("success reported although only %zu bytes were delivered: ", i.out.size()) + end_of(i));
        return v;
    }
    if (fired) {
        probe("failing call");
        if (i.ok() && i.out != want) return blame(v, "lost", "success reported although a call failed: " + diff_text(i.out, want));
        return v;
    }
    if (mode == "good") {
        probe("good tape");
        if (!i.ok() || i.out != want) return blame(v, "output", "a good tape: " + end_of(i) + ": " + diff_text(i.out, want));
        // what it says is what objfile takes
        Scenario t = s;
        t.faults.clear();
        t.insts.clear();
        put_file(t, "/w/a.src", i.out);
        put_file(t, "/w/b.src", listing(mcp, ws, 1));
        for (const char *f : { "a.src", "b.src" }) {
            t.insts.push_back(tool("objfile", { std::to_string(mcp), f }));
            t.insts.back().in.type = "null";
            t.insts.back().phase = (int)t.insts.size();
        }
        RunResult q = sim(t, &v);
        if (q.inst[0].status() != q.inst[1].status() || q.inst[0].out != q.inst[1].out) return blame(v, "chain", "objfile does not take what from5track writes: " + end_of(q.inst[0]) + " / " + end_of(q.inst[1]));
        return v;
    }
    auto got = lines(i.out), exp = lines(want);
    int at = (int)getn(s, "at", -1);
    if (mode == "cut" || mode == "range") {
        probe(mode == "cut" ? "tape too short" : "impossible symbol");
        if (i.ok() || i.code != 1) return blame(v, "status", "the tape breaks off, but status 1 did not follow: " + end_of(i));
        // all complete words, then the message
        size_t full = at < 0 ? 0 : (size_t)at + 1;
        if (got.size() != full + 1) return blame(v, "output", fmt("%zu lines and a message expected: ", full) + end_of(i));
        for (size_t k = 0; k < full; k++) if (got[k] != exp[k]) return blame(v, "output", "line '" + got[k] + "' where '" + exp[k] + "' belongs");
        return v;
    }
    // one wrong bit
    if (at < 0) {
        probe("wrong bit in the header");
        if (i.ok() || i.code != 1 || got.size() != 1) return blame(v, "parity", "a wrong bit in the header was not reported: " + end_of(i));
        return v;
    }
    probe(ws[(size_t)at].opc >= 8 ? "wrong bit in an operation" : "wrong bit in a word");
    for (size_t k = 0; k < exp.size(); k++) {
        if (k == (size_t)at + 1) {
            if (k >= got.size()) return blame(v, "output", "lines are missing: " + end_of(i));
            if (got[k].size() > 2 && got[k].substr(got[k].size() - 2) == " !") continue;
            // a code that does not exist
            if (k + 1 == got.size() && !i.ok() && i.code == 1 && got[k].find("nknown") != std::string::npos) return v;
            return blame(v, "parity", "the damaged word was not pointed out: line '" + got[k] + "', was '" + exp[k] + "'");
        }
        if (k >= got.size() || got[k] != exp[k]) return blame(v, "output", fmt("line %zu: ", k) + (k < got.size() ? "'" + got[k] + "'" : "missing") + " where '" + exp[k] + "' belongs");
    }
    if (got.size() != exp.size() || !i.ok()) return blame(v, "output", "more than the tape has, or failure: " + end_of(i));
    return v;
}
static void gen29(uint64_t seed, std::function<bool(Scenario &)> emit)
{
    Rng r(seed);
    Scenario s = base_scenario("C29", seed);
    s.files.clear();
    int n = r.chance(10) ? (int)r.range(0, 2) : (int)r.range(3, r.chance(10) ? 700 : 60);
    if (r.chance(1)) n = (int)r.range(16000, 16383);
    std::vector<Word> ws;
    std::string words;
    for (int k = 0; k < n; k++) {
        Word w;
        if (r.chance(35)) w.opc = (int)r.range(8, r.chance(90) ? 61 : 127);
        else {
            w.opc = (int)r.below(4);
            int q = (int)r.below(10);
            if (q < 6) w.w = prefixes[r.range(1, 10)] | (unsigned)r.below(0100000);
            else if (q < 9) w.w = (unsigned)r.below(1u << 27);
            else w.w = r.pick(std::vector<unsigned>{ 0, 0777777777, 0400000000, 077777, 0100000, 0777700000, 1 });
        }
        ws.push_back(w);
        words += fmt("%d %u\n", w.opc, w.w);
    }
    int mcp = r.chance(90) ? (int)r.below(51) : (int)r.below(512);
    s.x["words"] = words;
    s.x["mcp"] = std::to_string(mcp);
    s.insts.push_back(tool("from5track", {}));
    Tape t = punch(mcp, ws);
    auto text = [&](const std::vector<int> &sym) {
        static const std::vector<std::string> seps = { "\n", " ", "\r\n", "\n\n", "\t" };
        std::string sep = r.chance(70) ? "\n" : r.pick(seps), o;
        for (int x : sym) o += std::to_string(x) + sep;
        if (r.chance(20) && !o.empty()) o.erase(o.size() - sep.size());
        return o;
    };
    auto with = [&](const std::vector<int> &sym, const std::string &mode, int at) {
        Scenario c = s;
        c.x["mode"] = mode;
        c.x["at"] = std::to_string(at);
        c.insts[0].in = random_input(r, text(sym));
        return c;
    };
    Scenario good = with(t.sym, "good", -1);
    if (!emit(good)) return;
    for (int k = 0; k < 8; k++) {
        // a wrong bit
        size_t p = 1 + r.below(t.sym.size() - 1);
        if (r.chance(10)) p = (size_t)r.range(1, 5);
        int b = 1 << r.below(5);
        if (t.fixed[p] & b) continue;
        auto x = t.sym;
        x[p] ^= b;
        Scenario c = with(x, "flip", t.owner[p]);
        if (!emit(c)) return;
    }
    for (int k = 0; k < 3; k++) {
        // breaks off; trailing symbols do no harm
        size_t p = r.chance(20) ? r.below(7) : r.below(t.sym.size());
        if (p >= t.sym.size()) continue;
        auto x = t.sym;
        bool range = r.chance(40);
        if (range) x[p] = r.pick(std::vector<int>{ 32, 255, -1, 100000, 63 });
        else x.resize(p);
        int at = p < (size_t)t.header ? -1 : t.owner[p];
        Scenario c = with(x, range ? "range" : "cut", at);
        if (!emit(c)) return;
    }
    {
        auto x = t.sym;
        for (int k = (int)r.range(1, 5); k > 0; k--) x.push_back((int)r.below(32));
        Scenario c = with(x, "good", -1);
        if (!emit(c)) return;
    }
    // output that cannot be delivered, failing calls
    size_t len = listing(mcp, ws).size();
    for (int k = 0; k < 2; k++) {
        Scenario c = good;
        auto &o = c.insts[0].out;
        o.type = r.pick(std::vector<std::string>{ "file", "pipe", "tty" });
        o.fail = r.pick(std::vector<std::string>{ "enospc", "eio", "epipe", "edquot" });
        if (r.chance(30)) o.maxwrite = (int)r.range(1, 40);
        int w = (int)r.below(8);
        o.cap = w == 0 ? 0 : w == 1 ? 1 : w == 2 ? (long)len - 1 : w == 3 ? (long)len : (long)r.below(len + 1);
        if (r.chance(15)) o.type = "closed";
        if (!emit(c)) return;
    }
    RunResult base = sim(good);
    for (int k = 0; k < 2; k++) {
        Scenario c = good;
        bool harmless = r.chance(40);
        for (int j = 0; j < (harmless ? 6 : 1); j++) {
            bool ok;
            Fault f = random_fault(r, base.ev, [](const Ev &e) { return e.op == "write" || e.op == "read"; }, false, harmless, ok);
            if (ok) c.faults.push_back(f);
        }
        if (!emit(c)) return;
    }
}
static Register r29({ "C29", "A five-track library tape is converted exactly", 350, 8000, gen29, check29,
    "one case is one simulated run of from5track on a generated tape: good, with one wrong bit, broken off, with an impossible symbol, with output refused or a failing call; good tapes are passed on to objfile; distinct by execution hash", "from5track and objfile as built from the working tree, with libc and libstdc++" });
