// Shared by the properties: expectations, fault placement.
#pragma once
#include "driver.h"
#include <errno.h>

inline Verdict &blame(Verdict &v, const std::string &cls, const std::string &msg)
{
    if (v.cls.empty()) { v.cls = cls; v.msg = msg; }
    return v;
}
inline std::string get(const Scenario &s, const std::string &k, const std::string &d = "")
{
    auto i = s.x.find(k);
    return i == s.x.end() ? d : i->second;
}
inline long getn(const Scenario &s, const std::string &k, long d = 0)
{
    auto i = s.x.find(k);
    return i == s.x.end() ? d : atol(i->second.c_str());
}
inline std::string end_of(const InstResult &i)
{
    return i.status() + ", stdout " + quote(i.out, 120) + ", stderr " + quote(i.err, 120) + (i.sub_note.empty() ? "" : ", child " + i.sub_note);
}
// The run ended in the only two ways there are: success, or a message and status 1.
bool contained(Verdict &v, const Scenario &s, const RunResult &r, int inst, bool stderr_ok = true);
// The run did exactly what the model says.
bool exact(Verdict &v, const Scenario &s, const InstResult &i, const std::string &want, bool werr, const std::string &what);

struct Place { Ev e; };
// What can go wrong at this event. harmless: faults every program must live with.
std::vector<Fault> faults_for(const Ev &e, bool kills, bool harmless);
Fault random_fault(Rng &r, const std::vector<Ev> &ev, std::function<bool(const Ev &)> where, bool kills, bool harmless, bool &ok);
bool is_harmless(const Fault &f);
// Events before the program starts to run: number of leading events of that instance.
size_t start_of_program(const std::vector<Ev> &ev, int inst);
Profile random_profile(Rng &r);
// Adds a program with some output. False: no luck.
bool add_program(Scenario &s, Rng &r, const std::string &name, Profile p, int cut = -1, int bad = -1);

// props_io.cpp: characters given to a run; dialogue oracle; input as x says; a program with its input.
size_t given(const Instance &i);
bool dialogue(Verdict &v, const Scenario &s, const RunResult &r, const ModelRun &m, const std::string &what);
Scenario with_input(const Scenario &s, const ModelRun &m);
Scenario input_scenario(const std::string &prop, uint64_t seed, Rng &r, Profile p, int cut = -1, int bad = -1);
