// Programs as histories: what a program does with what it is told, step by step, against the reference interpreter.
#include "classics.h"
#include "deep.h"
#include "oracle.h"
#include "templates.h"

static const char *LATE = "value array in the bounds of its procedure's block";
static Verdict check_lang(const Scenario &s)
{
    Verdict v;
    if (s.x.count("classic")) {
        // a well-known program
        RunResult r = sim(s, &v);
        nontrivial(r.hash);
        probe("well-known: " + get(s, "classic"));
        if (contained(v, s, r, 0)) exact(v, s, r.inst[0], get(s, "want"), false, get(s, "classic"));
        // a finding of its own: exactly this program, exactly this result
        if (v.cls == "output" && get(s, "classic") == LATE && r.inst[0].ok() && r.inst[0].out == "1.66\n2\n") v.key = "value-array-in-bounds";
        return v;
    }
    Program P = program_of(s, "t.a60");
    Scenario c = with_input(s, P.model);
    RunResult r = sim(c, &v);
    if (P.model.calls + P.model.loops + P.model.jumps > 3) nontrivial(r.hash);
    if (P.model.error) probe("stopped by " + P.model.errkind);
    if (P.model.calls) probe("runs with calls");
    if (P.model.jumps) probe("runs with jumps");
    if (P.model.thunks) probe("runs with parameters called by name");
    if (P.model.loops) probe("runs with loops");
    if (r.inst[0].in_reads) probe("runs with input");
    if (!contained(v, c, r, 0)) return v;
    dialogue(v, c, r, P.model, c.insts[0].in.type + " input");
    return v;
}
static void interact(Rng &r, const Profile &p, const Scenario &s, int cases, std::function<bool(Scenario &)> emit)
{
    const std::string in = get(s, "in.t.a60");
    for (int k = 0; k < cases; k++) {
        Scenario c = s;
        c.insts[0].in = random_input(r, in, p.tty);
        if (r.chance(30)) c.insts[0].out.type = r.chance(50) ? "tty" : "pipe";
        if (r.chance(20)) c.insts[0].out.maxwrite = (int)r.range(1, 9);
        if (k && !in.empty() && r.chance(50)) {
            // the operator stays away at some point
            if (c.insts[0].in.type == "file") c.insts[0].in.type = "pipe", c.insts[0].in.maxread = 0;
            c.insts[0].in.end = "block";
            c.x["cutneed"] = std::to_string(r.below(40));
            c.x["cutoff"] = std::to_string(r.chance(60) ? -1 : 0);
        }
        if (!emit(c)) return;
    }
}
using Tweak = std::function<void(Rng &, Profile &)>;
static std::function<void(uint64_t, std::function<bool(Scenario &)>)> gen_lang(const std::string &prop, Tweak tweak)
{
    return [prop, tweak](uint64_t seed, std::function<bool(Scenario &)> emit) {
        Rng r(seed);
        if ((prop == "C15" || prop == "C16" || prop == "C17") && r.chance(25)) {
            Scenario s = base_scenario(prop, seed);
            Classic c = classic(prop, r);
            if (prop == "C15" && r.chance(2))
                c = { LATE, "'begin' 'real' 'array' a[1 : 3]; 'integer' i; 'integer' 'procedure' f(x); 'integer' 'array' x; 'begin' print(x[1]); NLCR; f := 0 'end';\n"
                    "'procedure' p(q); 'value' q; 'integer' 'array' q; 'begin' 'integer' 'array' m[1 : 3 + f(q)]; print(q[1]); NLCR 'end';\n"
                    "'for' i := 1, 2, 3 'do' a[i] := i + 0.66; p(a) 'end'\n", "2\n2\n", "" };
            std::string t = algol(c.source);
            if (r.chance(35)) {
                // as much of it as the machine takes
                auto size = [&](long m) { return r.chance(30) ? m : r.chance(50) ? r.range(1, m) : std::min(m, std::max(1l, (1l << r.range(1, 12)) + r.range(-1, 1))); };
                Sized z;
                // levels crowded piled vast sprawling
                static const std::map<std::string, std::vector<int>> mix = { { "C15", { 6, 4, 4, 2, 1 } }, { "C16", { 6, 1, 2, 0, 6 } }, { "C17", { 2, 3, 3, 6, 0 } } };
                auto &m = mix.at(prop);
                int w = (int)r.below(15), k = 0;
                while (k < 4 && w >= m[(size_t)k]) w -= m[(size_t)k++];
                switch (k) {
                case 0: { const bool jump = prop == "C16" || r.chance(25); z = levels(size(28), r, jump); c.name = "levels"; break; }
                case 1: z = crowded(size(680), r); c.name = "crowded"; break;
                case 2: { const long width = size(400), depth = r.range(1, std::min(2000l, 150000 / width)); z = piled(depth, width, r); c.name = "piled"; break; }
                case 3: z = vast(r.chance(50) ? size(4000) : 1l << r.range(4, 16), r); c.name = "vast"; break;
                default: z = sprawling(size(300), r); c.name = "sprawling";
                }
                t = z.source; c.want = z.want; c.in = "";
            }
            if (r.chance(50)) {
                // the other spelling of words
                std::string u;
                for (size_t i = 0; i < t.size(); i++) {
                    if (t[i] == '_' && i + 1 < t.size() && islower((unsigned char)t[i + 1])) { u += t[++i]; u += "\xcc\xb2"; }
                    else u += t[i];
                }
                t = u;
            }
            put_file(s, "/w/t.a60", t);
            s.x["classic"] = c.name;
            s.x["want"] = c.want;
            s.insts.push_back(sim_instance({ "t.a60" }));
            s.insts[0].in.type = "null";
            if (!c.in.empty()) s.insts[0].in = random_input(r, c.in);
            if (r.chance(30)) s.insts[0].out.type = r.chance(50) ? "tty" : "pipe";
            if (r.chance(20)) s.insts[0].out.maxwrite = (int)r.range(1, 9);
            if (r.chance(10)) s.x["build"] = "checked";
            emit(s);
            return;
        }
        for (int k = 0; k < 2; k++) {
            Profile p = random_profile(r);
            p.stmts = (int)r.range(4, 16);
            p.input = r.chance(70);
            p.resym = r.chance(12);
            p.tty = p.input && r.chance(20);
            tweak(r, p);
            int bad = p.resym && !p.input && !p.error && r.chance(40) ? (int)r.below(8) : -1;
            Scenario s = input_scenario(prop, seed + (uint64_t)k, r, p, -1, bad);
            if (!s.x.count("prog.t.a60")) continue;
            bool more = true;
            interact(r, p, s, get(s, "in.t.a60").empty() ? 1 : 2, [&](Scenario &c) { return more = emit(c); });
            if (!more) return;
        }
    };
}
static const char *LANG_RULE = "one case is one simulated run of a generated program (seeded: declarations, statements, nesting, input), its input arriving in seeded pieces, delays and stalls; every read is compared with the request of the reference interpreter that needs it, "
    "and the output before it and the end with the interpreter's; non-trivial: more than three calls, loops or jumps executed; distinct by execution hash";

static Register r14({ "C14", "", 5000, 150000, gen_lang("C14", [](Rng &r, Profile &p) { p.error = r.chance(85); }), check_lang, LANG_RULE, "" });
static Register r15({ "C15", "", 5000, 150000, gen_lang("C15", [](Rng &r, Profile &p) { p.procs = (int)r.range(2, 7); p.byname = p.callbacks = true; p.nested = r.chance(85); p.loops = r.chance(60); p.procp = r.chance(50) ? 30 : 0; p.arrp = r.chance(40) ? 25 : 4; }), check_lang, LANG_RULE, "" });
static Register r16({ "C16", "", 5000, 150000, gen_lang("C16", [](Rng &r, Profile &p) { p.gotos = p.callbacks = p.nested = true; p.procs = (int)r.range(1, 5); p.byname = r.chance(80); p.procp = r.chance(40) ? 25 : 0; }), check_lang, LANG_RULE, "" });
static Register r17({ "C17", "", 5000, 150000, gen_lang("C17", [](Rng &r, Profile &p) { p.arrays = p.loops = p.nested = true; p.procs = (int)r.range(0, 3); p.gotos = r.chance(40); p.turning = 6; p.byname = true; p.arrp = r.chance(50) ? 40 : 10; }), check_lang, LANG_RULE, "" });
static Register r18({ "C18", "", 5000, 150000, gen_lang("C18", [](Rng &r, Profile &p) { p.reals = p.bools = p.input = true; p.procs = (int)r.range(0, 2); p.gotos = r.chance(30); p.format = true; p.big = 45; }), check_lang, LANG_RULE, "" });
