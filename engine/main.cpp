#include "engine.h"
#include <algorithm>
#include <fstream>
#include <sys/resource.h>
#include <unistd.h>

int instrumentMain(int argc, char** argv);

static std::string js(const std::string& s)
{
    std::string r = "\"";
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if(c < 32)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r + "\"";
}

static void writeTrace(const std::string& file, const Engine& e, const char* verdict, const std::string& msg)
{
    FILE* f = fopen(file.c_str(), "w");
    if(!f) return;
    fprintf(f, "# %s %s\n", verdict, msg.c_str());
    for(auto& ev : e.events)
        fprintf(f, "%d %c %llu %s\n", ev.tid, ev.kind, (unsigned long long)ev.val, ev.s.c_str());
    fclose(f);
}

int main(int argc, char** argv)
{
    if(argc > 1 && std::string(argv[1]) == "instrument") return instrumentMain(argc, argv);
    if(argc < 3 || std::string(argv[1]) != "run")
    {
        fprintf(stderr, "usage: vpengine run file.bc [options] | vpengine instrument in.bc out.bc\n");
        return 2;
    }
    struct rlimit rl = {1ull << 30, 1ull << 30};
    setrlimit(RLIMIT_STACK, &rl);
    Engine* e = new Engine;
    G = e;
    std::string bc = argv[2], prefix;
    bool trace = false;
    for(int i = 3; i < argc; i++)
    {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if(a == "--max-level") e->opt.maxLevel = atoi(next().c_str());
        else if(a == "--time") e->opt.timeLimit = atof(next().c_str());
        else if(a == "--samples") e->opt.samples = atoi(next().c_str());
        else if(a == "--seed") e->opt.seed = strtoull(next().c_str(), 0, 10);
        else if(a == "--scenario") e->opt.scenario = atoi(next().c_str());
        else if(a == "--merge") e->opt.merge = atoi(next().c_str());
        else if(a == "--race") e->opt.race = true;
        else if(a == "--safety") e->opt.safety = true;
        else if(a == "--refcounts") e->opt.refcountVisible = true;
        else if(a == "--prefix") prefix = next();
        else if(a == "-v") e->opt.verbose = true;
        else if(a == "--trace") trace = true;
        else if(a == "--solver-budget") e->opt.solverBudget = atof(next().c_str());
        else if(a == "--prepass") e->opt.prepass = atoi(next().c_str());
        else if(a == "--logic") e->sol.logic = next();
        else if(a == "--fresh") e->sol.fresh = true;
        else if(a == "--solver-timeout") e->sol.timeoutMs = atoi(next().c_str());
        else
        {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    (void)trace;
    e->t0 = std::chrono::steady_clock::now();
    std::string status = "ok", err, replayNote;
    int nSamples = 0;
    bool confirmed = false;
    try
    {
        e->load(bc);
        e->explore();
        auto stSave = e->st;
        auto reachedSave = e->reached, expectedSave = e->expected;
        if(e->haveVio)
        {
            status = "violation";
            Violation v;
            confirmed = e->guidedRun(e->vio.path, e->vio.wit.get(), v);
            if(confirmed && v.kind != e->vio.kind) confirmed = false;
            if(!confirmed)
            {
                status = "error";
                err = "counterexample did not reproduce in the concrete engine run: " + e->vio.kind + ": " + e->vio.msg +
                      " / got " + v.kind + ": " + v.msg;
            }
            if(!prefix.empty()) writeTrace(prefix + ".trace", *e, "violation", e->vio.kind + ": " + e->vio.msg);
        }
        else if(!prefix.empty())
        {
            for(auto& sf : e->sampleFinals)
            {
                Violation v;
                if(e->guidedRun(sf.second, sf.first.get(), v))
                {
                    status = "error";
                    err = "sampled path fails in the concrete engine run: " + v.kind + ": " + v.msg;
                    break;
                }
                writeTrace(prefix + ".s" + std::to_string(nSamples++) + ".trace", *e, "ok", "");
            }
        }
        e->st = stSave;
        e->reached = reachedSave;
        e->expected = expectedSave;
    }
    catch(EngineError& x)
    {
        status = "error";
        err = x.msg;
        if(!x.where.empty()) err += " @ " + x.where;
    }
    printf("{\"status\":%s", js(status).c_str());
    if(!err.empty()) printf(",\"error\":%s", js(err).c_str());
    if(e->haveVio)
    {
        printf(",\"violation\":{\"kind\":%s,\"msg\":%s,\"where\":%s,\"confirmed\":%s,\"schedule\":[", js(e->vio.kind).c_str(),
               js(e->vio.msg).c_str(), js(e->vio.where).c_str(), confirmed ? "true" : "false");
        for(size_t i = 0; i < e->vio.path.size(); i++)
            printf("%s[%d,%d]", i ? "," : "", e->vio.path[i].first, e->vio.path[i].second);
        printf("],\"inputs\":{");
        bool f = true;
        static const std::map<E, u64> none;
        for(auto& kv : e->vio.wit->in ? *e->vio.wit->in : none)
        {
            printf("%s%s:%llu", f ? "" : ",", js(varName(kv.first)).c_str(), (unsigned long long)kv.second);
            f = false;
        }
        printf("}}");
    }
    auto& s = e->st;
    printf(",\"instrs\":%llu,\"nodes\":%llu,\"edges\":%llu,\"forks\":%llu,\"merges\":%llu,\"merged_states\":%llu,\"finals\":%llu,"
           "\"asserts\":%llu,\"asserts_solver\":%llu,\"deadlock_checks\":%llu,\"mem_checks\":%llu,\"race_checks\":%llu,\"restarts\":%llu,"
           "\"truncated\":%llu,\"max_level\":%d,\"max_width\":%d,\"interleavings\":%.0f,\"samples\":%d",
           (unsigned long long)s.instrs, (unsigned long long)s.nodes, (unsigned long long)s.edges, (unsigned long long)s.forks,
           (unsigned long long)s.merges, (unsigned long long)s.mergedStates, (unsigned long long)s.finals, (unsigned long long)s.asserts,
           (unsigned long long)s.assertsSolver, (unsigned long long)s.deadlockChecks, (unsigned long long)s.memChecks,
           (unsigned long long)s.raceChecks, (unsigned long long)s.restarts, (unsigned long long)s.truncated, s.maxLevel, s.maxWidth,
           s.interleavings, nSamples);
    printf(",\"final_states\":%llu", (unsigned long long)s.finalStates);
    auto& q = e->sol.st;
    printf(",\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"witness_hits\":%llu,\"solver_s\":%.3f,\"solver_max_s\":%.3f,\"wall_s\":%.2f",
           (unsigned long long)q.queries, (unsigned long long)q.sat, (unsigned long long)q.unsat, (unsigned long long)q.unknown,
           (unsigned long long)q.witnessHits, q.time, q.maxTime, e->elapsed());
    auto lst = [&](const char* n, const std::set<std::string>& v) {
        printf(",\"%s\":[", n);
        bool f = true;
        for(auto& x : v)
        {
            printf("%s%s", f ? "" : ",", js(x).c_str());
            f = false;
        }
        printf("]");
    };
    lst("reached", e->reached);
    lst("expected", e->expected);
    std::set<std::string> fs;
    for(auto& f : e->funcs)
        if(f->executed && f->inRepo) fs.insert(f->name);
    lst("functions", fs);
    std::set<std::string> present, hit;
    e->lines(present, hit);
    lst("lines_present", present);
    lst("lines_executed", hit);
    printf(",\"locations\":%zu,\"visible_locations\":%zu,\"inputs\":%zu}\n", e->locs.size(),
           (size_t)std::count_if(e->locs.begin(), e->locs.end(), [](auto& l) { return l.second.visible; }), e->sol.inputs.size());
    fflush(stdout);
    _exit(0); // no tear-down of the solver
}
