// engine <module.bc> --jobs FILE --out DIR [-j N] [--setup FN] [-v] [--width W]
// Each line of FILE: <entry> <param>* [@key=value]*   (keys: time, paths, insts, preempt, witness, qtime, violations)
#include "engine.h"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;

static std::string esc(const std::string &s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if ((unsigned char) c < 32 || (unsigned char) c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char) c); r += b; }
        else r += c;
    }
    return r;
}
static std::string hex(u128 v) { char b[40]; if (v >> 64) snprintf(b, 40, "0x%llx%016llx", (unsigned long long) (v >> 64), (unsigned long long) v); else snprintf(b, 40, "0x%llx", (unsigned long long) v); return b; }
static void inputsJson(std::ostream &o, const std::vector<std::pair<Input, u128>> &in) {
    o << "[";
    bool first = true;
    for (auto &i : in) { if (!first) o << ","; first = false; o << "[\"" << esc(i.first.name) << "\"," << i.first.occ << "," << i.first.w << ",\"" << hex(i.second) << "\"]"; }
    o << "]";
}
static void emit(Exec &ex, const std::string &path, double t, const std::string &line) {
    std::ofstream o(path + ".tmp");
    o << "{\"job\":\"" << esc(line) << "\",\"entry\":\"" << esc(ex.cfg.entry) << "\",\"complete\":" << (ex.incomplete ? "false" : "true")
      << ",\"why\":\"" << esc(ex.incompleteWhy) << "\",\"time\":" << t
      << ",\"paths\":" << ex.paths << ",\"killed\":" << ex.killed << ",\"forks\":" << ex.forks << ",\"insts\":" << ex.insts;
    auto &s = g_solver_stats;
    o << ",\"solver\":{\"queries\":" << s.queries << ",\"z3\":" << s.z3_queries << ",\"cache\":" << s.cache_hits << ",\"models\":" << s.model_hits
      << ",\"sat\":" << s.sat << ",\"unsat\":" << s.unsat << ",\"unknown\":" << s.unknown << ",\"external\":" << s.external << ",\"time\":" << s.time << "}";
    o << ",\"asserts\":{"; bool f = true;
    for (auto &a : ex.asserts) { if (!f) o << ","; f = false; o << "\"" << esc(a.first) << "\":[" << a.second.checked << "," << a.second.concrete << "," << a.second.proven << "," << a.second.violated << "," << a.second.unknown << "]"; }
    o << "},\"reaches\":{"; f = true;
    for (auto &a : ex.reaches) { if (!f) o << ","; f = false; o << "\"" << esc(a.first) << "\":" << a.second; }
    o << "},\"violations\":["; f = true;
    for (auto &v : ex.violations) {
        if (!f) o << ","; f = false;
        o << "{\"kind\":\"" << esc(v.kind) << "\",\"msg\":\"" << esc(v.msg) << "\",\"loc\":\"" << esc(v.loc) << "\",\"detail\":\"" << esc(v.detail) << "\",\"inputs\":";
        inputsJson(o, v.inputs); o << "}";
    }
    o << "],\"witnesses\":["; f = true;
    for (auto &w : ex.witnesses) {
        if (!f) o << ","; f = false;
        o << "{\"inputs\":"; inputsJson(o, w.inputs);
        o << ",\"observes\":["; bool g = true;
        for (auto &ob : w.observes) { if (!g) o << ","; g = false; o << "[\"" << esc(ob.first) << "\",\"" << hex(ob.second) << "\"]"; }
        o << "]}";
    }
    o << "],\"functions\":["; f = true;
    for (auto &n : ex.functions) { if (!f) o << ","; f = false; o << "\"" << esc(n) << "\""; }
    o << "],\"sources\":["; f = true;
    for (auto &n : ex.srcs) { if (!f) o << ","; f = false; o << "\"" << esc(n) << "\""; }
    o << "]}\n";
    o.close();
    rename((path + ".tmp").c_str(), path.c_str());
}

int main(int argc, char **argv) {
    std::string bc, jobs, out = ".", setup, only;
    int par = 8; bool verbose = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--jobs") jobs = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--setup") setup = argv[++i];
        else if (a == "-j") par = atoi(argv[++i]);
        else if (a == "-v") verbose = true;
        else if (a == "--job") only = argv[++i];
        else bc = a;
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    g_scratch_dir = out;
    double t0 = nowSec();
    auto *ex = new Exec();
    ex->cfg.verbose = verbose;
    ex->load(bc);
    ex->runCtors(setup.c_str());
    uint64_t setupInsts = ex->insts;
    fprintf(stderr, "setup: %.2fs, %llu instructions\n", nowSec() - t0, (unsigned long long) setupInsts);
    std::set<std::string> setupFns = ex->functions, setupSrcs = ex->srcs;
    std::vector<std::string> lines;
    if (!only.empty()) lines.push_back(only);
    else { std::ifstream f(jobs); std::string l; while (std::getline(f, l)) if (!l.empty()) lines.push_back(l); }
    int running = 0, failed = 0;
    for (size_t i = 0; i < lines.size(); ++i) {
        while (running >= par) { int st; if (wait(&st) > 0) { running--; if (!WIFEXITED(st) || WEXITSTATUS(st)) failed++; } }
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            struct rlimit rl{ 6ull << 30, 6ull << 30 };
            setrlimit(RLIMIT_AS, &rl);
            std::istringstream is(lines[i]);
            std::string tok;
            is >> ex->cfg.entry;
            while (is >> tok) {
                if (tok[0] == '@') {
                    size_t e = tok.find('=');
                    std::string k = tok.substr(1, e - 1); double v = atof(tok.c_str() + e + 1);
                    if (k == "time") ex->cfg.maxTime = v;
                    else if (k == "paths") ex->cfg.maxPaths = (uint64_t) v;
                    else if (k == "insts") ex->cfg.maxInsts = (uint64_t) v;
                    else if (k == "preempt") ex->cfg.maxPreempt = (unsigned) v;
                    else if (k == "witness") ex->cfg.maxWitness = (unsigned) v;
                    else if (k == "qtime") { g_query_timeout_ms = (unsigned) (v * 1000); g_ext_timeout_s = (unsigned) v; }
                    else if (k == "violations") ex->cfg.maxViolations = (unsigned) v;
                } else ex->cfg.params.push_back(strtoll(tok.c_str(), nullptr, 0));
            }
            char path[64]; snprintf(path, sizeof(path), "/job_%05zu.json", i);
            double t = nowSec();
            int rc = 0;
            try { ex->runJob(); }
            catch (Terminate &e) { ex->incomplete = true; ex->incompleteWhy = e.kind + ": " + e.msg; }
            catch (std::exception &e) { ex->incomplete = true; ex->incompleteWhy = std::string("engine exception: ") + e.what(); }
            emit(*ex, out + path, nowSec() - t, lines[i]);
            fflush(stderr);
            _exit(rc);
        }
        running++;
    }
    int st;
    while (running > 0 && wait(&st) > 0) { running--; if (!WIFEXITED(st) || WEXITSTATUS(st)) failed++; }
    // functions executed during initialization, shared by all jobs
    { std::ofstream o(out + "/setup.json"); o << "{\"insts\":" << setupInsts << ",\"functions\":["; bool f = true; for (auto &n : setupFns) { if (!f) o << ","; f = false; o << "\"" << esc(n) << "\""; } o << "],\"sources\":["; f = true; for (auto &n : setupSrcs) { if (!f) o << ","; f = false; o << "\"" << esc(n) << "\""; } o << "]}\n"; }
    return failed ? 4 : 0;
}
