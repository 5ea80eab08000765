// What the properties are written against: seeded cases, checks, minimisation, evidence.
#pragma once
#include "world.h"
#include "algol.h"

struct Verdict {
    std::string cls;   // class of the violation; empty: the property held
    std::string msg;
    std::string key;   // identifies a known finding
    uint64_t hash = 0; // of everything observed while judging
    bool bad() const { return !cls.empty(); }
};
inline Verdict viol(const std::string &cls, const std::string &msg) { Verdict v; v.cls = cls; v.msg = msg; return v; }

struct Stats {
    long runs = 0, cases = 0, steps = 0, skipped = 0;
    long long sim_us = 0;
    long switches = 0;
    std::map<std::string, long> fired, probes, how;
    std::set<uint64_t> orders, traces, nontrivial;
    std::vector<std::string> samples;
    std::string harness;
    void merge(const Stats &o);
};
extern Stats g_stats;
extern std::string g_tier;
extern bool g_replaying;
inline void probe(const std::string &p, long n = 1) { g_stats.probes[p] += n; }

// Runs a scenario and accounts for it. Throws HarnessError when the simulator could not follow.
struct HarnessError { std::string what; };
struct Observer { Hash h; long runs = 0; };
RunResult sim(const Scenario &s, Verdict *v = nullptr);
inline void nontrivial(uint64_t h) { g_stats.nontrivial.insert(h); }

struct Property {
    std::string id, title;
    int quick = 100, thorough = 1000; // seeds
    // Scenarios of one seed. Called with baselines available through sim().
    std::function<void(uint64_t seed, std::function<bool(Scenario &)> emit)> gen;
    // Judges one scenario: runs it (and the runs it is compared with).
    std::function<Verdict(const Scenario &)> check;
    std::string rule;      // how cases are made, what makes one non-trivial
    std::string real_code; // components that ran real code
};
std::vector<Property> &properties();
struct Register { Register(Property p) { properties().push_back(std::move(p)); } };

// ---- common building blocks
extern std::string g_library;  // the library tape of the tree under test
std::string slurp(const std::string &path);
Scenario base_scenario(const std::string &prop, uint64_t seed);
// Adds one run of x1sim on t.a60.
Instance sim_instance(const std::vector<std::string> &args);
void put_file(Scenario &s, const std::string &path, const std::string &data, int mode = 0644);
// A generated program: recreated from its seed, so that it can be reduced.
void use_program(Scenario &s, const std::string &name, uint64_t pseed, const Profile &p, int cut = -1, int bad = -1, bool set_input = true);
Program program_of(const Scenario &s, const std::string &name, bool *ok = nullptr);
bool rebuild(Scenario &s, const std::string &name, const std::set<int> &del);
std::set<int> deleted_of(const Scenario &s, const std::string &name);
std::string pack_profile(const Profile &p);
Profile unpack_profile(const std::string &s);
std::string quote(const std::string &s, size_t max = 200);
std::string diff_text(const std::string &got, const std::string &want);
InputSpec random_input(Rng &r, const std::string &data, bool tty = false);
