// symir: bounded symbolic execution of LLVM bitcode with symbolic data and explored schedules.
#include "exec.hpp"
#include "instrument.hpp"
#include <fstream>
#include <sstream>

static std::string js(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
std::string jstr(const std::string& s) { return js(s); }
static std::string arr(const std::vector<std::string>& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + js(v[i]);
    return r + "]";
}

int main(int argc, char** argv) {
    Options O;
    std::string bc, out, dump, inst;
    int dumpMax = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&](const char* p) { return a.substr(strlen(p)); };
        if (a.rfind("--entry=", 0) == 0) O.entry = val("--entry=");
        else if (a.rfind("--out=", 0) == 0) out = val("--out=");
        else if (a.rfind("--preempt=", 0) == 0) { O.preempt = std::stoi(val("--preempt=")); O.preemptFixed = true; }
        else if (a.rfind("--max-time=", 0) == 0) O.maxTime = std::stod(val("--max-time="));
        else if (a.rfind("--max-viol=", 0) == 0) O.maxViol = std::stoi(val("--max-viol="));
        else if (a.rfind("--max-insts=", 0) == 0) O.maxPathInsts = std::stoull(val("--max-insts="));
        else if (a.rfind("--part=", 0) == 0) { sscanf(val("--part=").c_str(), "%d/%d", &O.part, &O.parts); }
        else if (a == "--hashvc") O.hashVC = true;
        else if (a == "--no-dedup") O.dedup = false;
        else if (a == "--no-races") O.races = false;
        else if (a == "--unlock-sched") O.unlockSched = 1;
        else if (a == "--trace") O.trace = true;
        else if (a.rfind("--samples=", 0) == 0) O.samples = std::stoi(val("--samples="));
        else if (a.rfind("--instrument=", 0) == 0) inst = val("--instrument=");
        else if (a.rfind("--traces=", 0) == 0) O.traces = std::stoi(val("--traces="));
        else if (a.rfind("--dump=", 0) == 0) dump = val("--dump=");
        else if (a.rfind("--dump-max=", 0) == 0) dumpMax = std::stoi(val("--dump-max="));
        else if (a.rfind("--replay=", 0) == 0) {
            O.replay = true;
            std::ifstream f(val("--replay="));
            std::string line;
            while (std::getline(f, line)) {
                std::istringstream is(line);
                std::string k;
                is >> k;
                if (k == "input") { std::string n; uint64_t v; is >> n >> v; O.inputs[n] = v; }
                else if (k == "sched") { uint64_t v; while (is >> v) O.script.push_back(v); }
                else if (k == "preempt") { is >> O.preempt; O.preemptFixed = true; }
            }
        } else if (a[0] != '-') bc = a;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (!inst.empty()) return instrument(bc, inst);
    Ctx cx;
    Solver sv(cx);
    sv.dumpDir = dump;
    sv.dumpMax = dumpMax;
    Program P(cx);
    std::string error;
    int rc = 0;
    Executor* X = nullptr;
    try {
        P.load(bc);
        X = new Executor(P, cx, sv, O);
        X->run();
    } catch (std::exception& e) {
        error = e.what();
        if (X && X->s && !X->s->th.empty() && !X->T().stk.empty()) {
            auto* f = X->T().stk.back();
            auto st = X->stackOf(&f->fn->code[f->pc], f->ctx, f->fn, nullptr);
            for (size_t k = 0; k < st.size() && k < 25; k++) error += "\n    " + st[k];
        }
        rc = 3;
    }
    std::string o = "{\n";
    o += "\"entry\":" + js(O.entry) + ",\n";
    o += "\"error\":" + js(error) + ",\n";
    if (X) {
        Executor& E = *X;
        bool complete = error.empty() && !E.timedOut && !E.truncated;
        auto num = [&](const char* k, double v) {
            char b[96];
            snprintf(b, 96, "\"%s\":%.15g,\n", k, v);
            o += b;
        };
        o += std::string("\"complete\":") + (complete ? "true" : "false") + ",\n";
        o += "\"truncated\":" + js(E.truncReason) + ",\n";
        num("part", O.part); num("parts", O.parts); num("preempt", E.O.preempt);
        num("paths", E.paths); num("forks", E.forks); num("insts", E.insts); num("states", E.statesCreated);
        num("sched_points", E.schedPoints); num("deduped", E.deduped); num("visited", E.visited.size());
        num("asserts_solver", E.assertsProved); num("asserts_constant", E.assertsTrivial);
        num("assume_killed", E.killedAssume); num("choices", E.choices); num("max_threads", E.maxThreads);
        num("queries", sv.st.queries); num("sat", sv.st.sat); num("unsat", sv.st.unsat); num("unknown", sv.st.unknown);
        num("query_cache_hits", sv.st.cacheHits); num("model_hits", sv.st.modelHits);
        num("solver_s", sv.st.time); num("solver_max_s", sv.st.maxTime);
        num("wall_s", E.elapsed()); num("viol_paths", E.violPaths);
        num("sym_vars", cx.vars.size());
        o += "\"reach\":{";
        bool first = true;
        for (auto& r : E.reach) { o += (first ? "" : ",") + js(r.first) + ":" + std::to_string(r.second); first = false; }
        o += "},\n\"samples\":" + arr(E.samples) + ",\n";
        o += "\"traces\":[";
        for (size_t i = 0; i < E.traces.size(); i++) o += (i ? "," : "") + E.traces[i];
        o += "],\n";
        std::set<std::string> fn, lines; // repository functions and lines executed
        for (auto* f : E.touched)
            for (auto& i : f->code) {
                if (!i.I) continue;
                DILocation* L = i.I->getDebugLoc();
                for (; L; L = L->getInlinedAt()) {
                    std::string file = L->getFilename().str();
                    size_t p = file.find("/repo/");
                    if (p == std::string::npos) continue;
                    auto* sp = L->getScope()->getSubprogram();
                    if (i.hit) lines.insert(file.substr(p + 6) + ":" + std::to_string(L->getLine()));
                    if (sp && i.hit) fn.insert(file.substr(p + 6) + ":" + E.cleanFn(sp->getName().str()));
                }
            }
        o += "\"functions\":" + arr(std::vector<std::string>(fn.begin(), fn.end())) + ",\n";
        o += "\"lines\":" + arr(std::vector<std::string>(lines.begin(), lines.end())) + ",\n";
        o += "\"violations\":[";
        first = true;
        for (auto& kv : E.viols) {
            auto& v = kv.second;
            o += (first ? "\n" : ",\n");
            first = false;
            o += "{\"kind\":" + js(v.kind) + ",\"msg\":" + js(v.msg) + ",\"key\":" + js(v.key) + ",\"count\":" + std::to_string(v.count) +
                 ",\"stack\":" + arr(v.stack) + ",\"stack2\":" + arr(v.stack2) + ",\"notes\":" + arr(v.notes) + ",\"inputs\":{";
            bool f2 = true;
            for (auto& i : v.inputs) { o += (f2 ? "" : ",") + js(i.first) + ":[" + std::to_string(i.second.first) + "," + i.second.second + "]"; f2 = false; }
            o += "},\"sched\":[";
            for (size_t i = 0; i < v.sched.size(); i++) o += (i ? "," : "") + v.sched[i];
            o += "]}";
        }
        o += "],\n\"nviol\":" + std::to_string(E.viols.size()) + "\n";
        if (!E.viols.empty() && rc == 0) rc = 1;
    } else
        o += "\"complete\":false,\"violations\":[]\n";
    o += "}\n";
    if (out.empty()) fputs(o.c_str(), stdout);
    else { std::ofstream f(out); f << o; }
    if (!error.empty()) fprintf(stderr, "symir: %s\n", error.c_str());
    fflush(nullptr);
    _exit(rc);
}
