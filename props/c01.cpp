// C01: parallel execution of any computation gives the sequential result.
#include "kernels.hpp"

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALL);
    if (p.get("team") == 1) p.set("team", r.range(2, 4));
    int big = r.chance(1, 50) ? 2 : r.chance(1, 3);
    int n = (int)r.range(1, big == 2 ? 1 : big ? 2 : 5);
    static const int hot[] = {K_MATMUL, K_MATVEC, K_TRANSPOSE, K_PAIR, K_OPT, K_FC, K_CONV, K_VECMAT};
    for (int i = 0; i < n; i++) {
        int k = r.chance(1, 2) ? r.pick(hot) : (int)r.below(NKERN);
        p.ops.push_back(gen_kern(r, k, big));
    }
}
static void run(const Plan& p) {
    Quiet q;
    int team = (int)p.in("team", 1, 16);
    for (auto& o : p.ops) {
        KOut base, par;
        rt::set_team(1, false, false);
        string e1 = attempt([&] { run_kern(o, base); });
        rt::set_team(team, p.get("team_vary") != 0, p.get("nested") != 0);
        string e2 = attempt([&] { run_kern(o, par); });
        if (!e1.empty()) RT_FAIL("unexpected-exception", "%s with one thread threw: %s", KNAME[o.k], e1.c_str() + 1);
        if (!e2.empty()) RT_FAIL("unexpected-exception", "%s with a team of %d threw: %s", KNAME[o.k], team, e2.c_str() + 1);
        compare_kern("schedule-dependent-result", string(KNAME[o.k]) + " with a team of " + std::to_string(team), par, base);
        check_refs("wrong-result", string(KNAME[o.k]), par);
        for (auto& s : par.out) note_snap(s);
    }
}
Scenario scenario() {
    Scenario s;
    s.prop = "C01";
    s.opnames.assign(KNAME, KNAME + NKERN);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is 1-5 library computations with generated shapes and data, a team size of 1-8 (sometimes varying per region or nested), a scheduling strategy and an allocator behaviour; each computation runs with one thread and with the team.";
    s.real = "all of smart_dnn (tensor operations, layers, activations, losses, optimizers), compiled with OpenMP on";
    s.stub = "OpenMP runtime, thread scheduler, mutexes and operator new are the simulator's";
    return s;
}
