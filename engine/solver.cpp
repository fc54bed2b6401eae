// Lowering of expressions to Z3 plus caching, and a fallback portfolio of
// external solver processes for queries that the in-process solver gives up on.
#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/wait.h>
#include <csignal>
#include <fcntl.h>

SolverStats g_solver_stats;
unsigned g_query_timeout_ms = 20000;
unsigned g_ext_timeout_s = 60;
std::string g_scratch_dir = "/tmp";

static Z3_context C = nullptr;
static std::unordered_map<E, Z3_ast> m_bv, m_bool, m_fp;
static std::vector<Z3_func_decl> m_uf;
static std::vector<Z3_ast> m_vars;

static void z3_err(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}
static void initZ3() {
    if (C) return;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    C = Z3_mk_context(cfg); // all terms stay alive
    Z3_set_error_handler(C, z3_err);
    Z3_del_config(cfg);
}
static Z3_ast keep(Z3_ast a) { return a; }
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_sort fps(unsigned w) { return w == 16 ? Z3_mk_fpa_sort_16(C) : w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
static Z3_ast toBV(E e);
static Z3_ast toBool(E e);
static Z3_ast toFP(E e);
static Z3_ast numeral(u128 v, unsigned w) {
    if (w <= 64) return keep(Z3_mk_unsigned_int64(C, (uint64_t) v, bvs(w)));
    char buf[64]; int p = 63; buf[p] = 0; if (!v) buf[--p] = '0';
    while (v) { buf[--p] = (char) ('0' + (int) (v % 10)); v /= 10; }
    return keep(Z3_mk_numeral(C, buf + p, bvs(w)));
}
static Z3_ast rm(uint32_t m = 0) {
    switch (m) { case 1: return Z3_mk_fpa_rtp(C); case 2: return Z3_mk_fpa_rtn(C); case 3: return Z3_mk_fpa_rtz(C); case 4: return Z3_mk_fpa_rna(C); default: return Z3_mk_fpa_rne(C); }
}
static bool fpResult(E e) {
    switch (e->k) {
        case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FRem: case K::FSqrt: case K::FFma: case K::FRound:
        case K::SIToF: case K::UIToF: case K::FCvt: return true;
        default: return false;
    }
}
static Z3_ast toFP(E e) {
    auto it = m_fp.find(e);
    if (it != m_fp.end()) return it->second;
    Z3_ast r;
    switch (e->k) {
        case K::FAdd: r = Z3_mk_fpa_add(C, rm(), toFP(e->op[0]), toFP(e->op[1])); break;
        case K::FSub: r = Z3_mk_fpa_sub(C, rm(), toFP(e->op[0]), toFP(e->op[1])); break;
        case K::FMul: r = Z3_mk_fpa_mul(C, rm(), toFP(e->op[0]), toFP(e->op[1])); break;
        case K::FDiv: r = Z3_mk_fpa_div(C, rm(), toFP(e->op[0]), toFP(e->op[1])); break;
        case K::FRem: { // fmod as UF: IEEE remainder differs from C fmod
            Z3_sort d[2] = { bvs(e->w), bvs(e->w) };
            Z3_func_decl f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, ("fmod" + std::to_string(e->w)).c_str()), 2, d, bvs(e->w));
            Z3_ast a[2] = { toBV(e->op[0]), toBV(e->op[1]) };
            r = Z3_mk_fpa_to_fp_bv(C, Z3_mk_app(C, f, 2, a), fps(e->w)); break; }
        case K::FSqrt: r = Z3_mk_fpa_sqrt(C, rm(), toFP(e->op[0])); break;
        case K::FFma: r = Z3_mk_fpa_fma(C, rm(), toFP(e->op[0]), toFP(e->op[1]), toFP(e->op[2])); break;
        case K::FRound: r = Z3_mk_fpa_round_to_integral(C, rm(e->aux), toFP(e->op[0])); break;
        case K::SIToF: r = Z3_mk_fpa_to_fp_signed(C, rm(), toBV(e->op[0]), fps(e->w)); break;
        case K::UIToF: r = Z3_mk_fpa_to_fp_unsigned(C, rm(), toBV(e->op[0]), fps(e->w)); break;
        case K::FCvt: r = Z3_mk_fpa_to_fp_float(C, rm(), toFP(e->op[0]), fps(e->w)); break;
        case K::Ite:
            if (e->fp) { r = Z3_mk_ite(C, toBool(e->op[0]), toFP(e->op[1]), toFP(e->op[2])); break; }
            /* fallthrough */
        default: r = Z3_mk_fpa_to_fp_bv(C, toBV(e), fps(e->w)); break;
    }
    return m_fp[e] = keep(r);
}
static Z3_ast toBool(E e) {
    auto it = m_bool.find(e);
    if (it != m_bool.end()) return it->second;
    Z3_ast r;
    switch (e->k) {
        case K::Const: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
        case K::And: { Z3_ast a[2] = { toBool(e->op[0]), toBool(e->op[1]) }; r = Z3_mk_and(C, 2, a); break; }
        case K::Or: { Z3_ast a[2] = { toBool(e->op[0]), toBool(e->op[1]) }; r = Z3_mk_or(C, 2, a); break; }
        case K::Xor: if (e->op[1]->isConst() && e->op[1]->c == 1) r = Z3_mk_not(C, toBool(e->op[0])); else r = Z3_mk_xor(C, toBool(e->op[0]), toBool(e->op[1])); break;
        case K::Ite: r = Z3_mk_ite(C, toBool(e->op[0]), toBool(e->op[1]), toBool(e->op[2])); break;
        case K::Eq: r = e->op[0]->w == 1 ? Z3_mk_iff(C, toBool(e->op[0]), toBool(e->op[1])) : Z3_mk_eq(C, toBV(e->op[0]), toBV(e->op[1])); break;
        case K::Ult: r = Z3_mk_bvult(C, toBV(e->op[0]), toBV(e->op[1])); break;
        case K::Ule: r = Z3_mk_bvule(C, toBV(e->op[0]), toBV(e->op[1])); break;
        case K::Slt: r = Z3_mk_bvslt(C, toBV(e->op[0]), toBV(e->op[1])); break;
        case K::Sle: r = Z3_mk_bvsle(C, toBV(e->op[0]), toBV(e->op[1])); break;
        case K::FEq: r = Z3_mk_fpa_eq(C, toFP(e->op[0]), toFP(e->op[1])); break;
        case K::FLt: r = Z3_mk_fpa_lt(C, toFP(e->op[0]), toFP(e->op[1])); break;
        case K::FLe: r = Z3_mk_fpa_leq(C, toFP(e->op[0]), toFP(e->op[1])); break;
        case K::FIsNan: r = Z3_mk_fpa_is_nan(C, toFP(e->op[0])); break;
        case K::Concat: case K::ZExt: fprintf(stderr, "toBool: unexpected\n"); abort();
        default: r = Z3_mk_eq(C, toBV(e), numeral(1, 1)); break;
    }
    return m_bool[e] = keep(r);
}
static Z3_ast toBV(E e) {
    auto it = m_bv.find(e);
    if (it != m_bv.end()) return it->second;
    Z3_ast r;
    if (fpResult(e)) { r = Z3_mk_fpa_to_ieee_bv(C, toFP(e)); return m_bv[e] = keep(r); }
    bool boolean = e->w == 1;
    switch (e->k) {
        case K::Const: r = numeral(e->c, e->w); break;
        case K::Var: {
            std::string n = g_vars[e->aux].name + "#" + std::to_string(g_vars[e->aux].occ) + "_" + std::to_string(e->w);
            r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), bvs(e->w));
            if (m_vars.size() <= e->aux) m_vars.resize(e->aux + 1);
            m_vars[e->aux] = r; break; }
        case K::UF: {
            if (m_uf.size() <= e->aux) m_uf.resize(e->aux + 1);
            Z3_sort d[3]; Z3_ast a[3];
            for (int i = 0; i < e->n; ++i) { d[i] = bvs(e->op[i]->w); a[i] = toBV(e->op[i]); }
            if (!m_uf[e->aux]) m_uf[e->aux] = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, g_ufs[e->aux].c_str()), e->n, d, bvs(e->w));
            r = Z3_mk_app(C, m_uf[e->aux], e->n, a); break; }
        case K::FToSI: r = Z3_mk_fpa_to_sbv(C, rm(3), toFP(e->op[0]), e->w); break;
        case K::FToUI: r = Z3_mk_fpa_to_ubv(C, rm(3), toFP(e->op[0]), e->w); break;
        case K::Extract: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, toBV(e->op[0])); break;
        case K::Concat: r = Z3_mk_concat(C, toBV(e->op[0]), toBV(e->op[1])); break;
        case K::ZExt: r = Z3_mk_zero_ext(C, e->w - e->op[0]->w, toBV(e->op[0])); break;
        case K::SExt: r = Z3_mk_sign_ext(C, e->w - e->op[0]->w, toBV(e->op[0])); break;
        default:
            if (boolean) { r = Z3_mk_ite(C, toBool(e), numeral(1, 1), numeral(0, 1)); break; }
            if (e->k == K::Ite) { r = Z3_mk_ite(C, toBool(e->op[0]), toBV(e->op[1]), toBV(e->op[2])); break; }
            {
                Z3_ast a = toBV(e->op[0]), b = toBV(e->op[1]);
                switch (e->k) {
                    case K::Add: r = Z3_mk_bvadd(C, a, b); break;
                    case K::Sub: r = Z3_mk_bvsub(C, a, b); break;
                    case K::Mul: r = Z3_mk_bvmul(C, a, b); break;
                    case K::UDiv: r = Z3_mk_bvudiv(C, a, b); break;
                    case K::SDiv: r = Z3_mk_bvsdiv(C, a, b); break;
                    case K::URem: r = Z3_mk_bvurem(C, a, b); break;
                    case K::SRem: r = Z3_mk_bvsrem(C, a, b); break;
                    case K::And: r = Z3_mk_bvand(C, a, b); break;
                    case K::Or: r = Z3_mk_bvor(C, a, b); break;
                    case K::Xor: r = Z3_mk_bvxor(C, a, b); break;
                    case K::Shl: r = Z3_mk_bvshl(C, a, b); break;
                    case K::LShr: r = Z3_mk_bvlshr(C, a, b); break;
                    case K::AShr: r = Z3_mk_bvashr(C, a, b); break;
                    default: fprintf(stderr, "toBV: kind %d\n", (int) e->k); abort();
                }
            }
    }
    return m_bv[e] = keep(r);
}

static std::map<std::vector<uint32_t>, std::pair<Res, Assignment>> g_cache;
static std::vector<Assignment> g_recent;

// Run "sh -c cmd" on the SMT-LIB text; returns Unsat/Sat/Unknown (no model)
static Res external(const std::string &smt) {
    std::string path = g_scratch_dir + "/q" + std::to_string(getpid()) + ".smt2";
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return Res::Unknown;
    fputs("(set-logic ALL)\n", f);
    fputs(smt.c_str(), f);
    fputs("\n(check-sat)\n", f);
    fclose(f);
    g_solver_stats.external++;
    Res r = Res::Unknown;
    const char *cmds[] = { "cvc5 --tlimit=%u000 %s 2>&1", "z3 -T:%u %s 2>&1" };
    for (const char *c : cmds) {
        char cmd[1024];
        snprintf(cmd, sizeof(cmd), c, g_ext_timeout_s, path.c_str());
        FILE *p = popen(cmd, "r");
        if (!p) continue;
        char line[256] = { 0 };
        bool err = false;
        while (fgets(line, sizeof(line), p)) {
            if (strncmp(line, "(error", 6) == 0) err = true;
            if (strncmp(line, "unsat", 5) == 0) r = Res::Unsat;
            else if (strncmp(line, "sat", 3) == 0) r = Res::Sat;
        }
        pclose(p);
        if (err) r = Res::Unknown;
        if (r != Res::Unknown) break;
    }
    unlink(path.c_str());
    return r;
}

static Res solveSlice(const std::vector<E> &cs, Assignment &model, bool final_query) {
    bool fp = false, uf = false;
    for (E e : cs) { fp |= e->fp; uf |= e->uf; }
    // 1. recently seen models
    if (!uf) {
        for (size_t i = g_recent.size(); i-- > 0 && i + 12 > g_recent.size();) {
            Evaluator ev(g_recent[i]);
            bool good = true;
            for (E e : cs) { if (!ev.eval(e) || !ev.ok) { good = false; break; } }
            if (good) {
                g_solver_stats.model_hits++;
                for (E e : cs) for (uint32_t v : exprVars(e)) { auto it = g_recent[i].find(v); model[v] = it == g_recent[i].end() ? 0 : it->second; }
                return Res::Sat;
            }
        }
    }
    initZ3();
    g_solver_stats.z3_queries++;
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver s = (!uf && fp) ? Z3_mk_solver_from_tactic(C, Z3_mk_tactic(C, "qffpbv"))
                : (!uf && !fp) ? Z3_mk_solver_from_tactic(C, Z3_mk_tactic(C, "qfbv")) : Z3_mk_solver(C);
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_query_timeout_ms);
    Z3_solver_set_params(C, s, p);
    for (E e : cs) Z3_solver_assert(C, s, toBool(e));
    Z3_lbool r = Z3_solver_check(C, s);
    Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
    if (res == Res::Sat) {
        Z3_model m = Z3_solver_get_model(C, s);
        Z3_model_inc_ref(C, m);
        for (E e : cs) for (uint32_t v : exprVars(e)) {
            if (model.count(v)) continue;
            Z3_ast out = nullptr;
            u128 val = 0;
            if (v < m_vars.size() && m_vars[v] && Z3_model_eval(C, m, m_vars[v], true, &out)) {
                const char *str = Z3_get_numeral_string(C, out);
                for (const char *q = str; *q >= '0' && *q <= '9'; ++q) val = val * 10 + (u128) (*q - '0');
            }
            model[v] = val;
        }
        Z3_model_dec_ref(C, m);
        if (g_recent.size() > 64) g_recent.erase(g_recent.begin(), g_recent.begin() + 32);
        g_recent.push_back(model);
    } else if (res == Res::Unknown && final_query) {
        std::string smt = Z3_solver_to_string(C, s);
        res = external(smt);
        if (res == Res::Sat) res = Res::Unknown; // no model to replay
    }
    Z3_params_dec_ref(C, p);
    Z3_solver_dec_ref(C, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_solver_stats.time += dt;
    if (getenv("SYM_SLOW") && dt > atof(getenv("SYM_SLOW"))) {
        fprintf(stderr, "[slow query %.2fs, %zu constraints, res %d]\n", dt, cs.size(), (int) res);
        for (E e : cs) fprintf(stderr, "   %s\n", exprStr(e, 8).c_str());
    }
    return res;
}

Res solverCheck(const std::vector<E> &in, Assignment *out, bool final_query) {
    g_solver_stats.queries++;
    std::vector<E> cs;
    for (E e : in) {
        if (e->isConst()) { if (!e->c) { g_solver_stats.unsat++; return Res::Unsat; } continue; }
        cs.push_back(e);
    }
    std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    // split into independent groups
    std::unordered_map<uint32_t, uint32_t> parent;
    auto find = [&](uint32_t x) { while (parent[x] != x) x = parent[x] = parent[parent[x]]; return x; };
    bool anyuf = false;
    for (E e : cs) anyuf |= e->uf;
    for (E e : cs) {
        auto &vs = exprVars(e);
        for (uint32_t v : vs) parent.emplace(v, v);
        for (size_t i = 1; i < vs.size(); ++i) parent[find(vs[0])] = find(vs[i]);
    }
    if (anyuf) { // UFs link everything
        uint32_t first = ~0u;
        for (auto &kv : parent) { if (first == ~0u) first = kv.first; else parent[find(kv.first)] = find(first); }
    }
    std::map<uint32_t, std::vector<E>> groups;
    std::vector<uint32_t> order;
    for (E e : cs) {
        auto &vs = exprVars(e);
        uint32_t g = vs.empty() ? ~0u : find(vs[0]);
        if (!groups.count(g)) order.push_back(g);
        groups[g].push_back(e);
    }
    Res res = Res::Sat;
    Assignment model;
    // the group of the newest expression is the most likely to be unsat
    std::sort(order.begin(), order.end(), [&](uint32_t a, uint32_t b) { return groups[a].back()->id > groups[b].back()->id; });
    for (uint32_t g : order) {
        auto &v = groups[g];
        std::vector<uint32_t> key;
        for (E e : v) key.push_back(e->id);
        auto it = g_cache.find(key);
        if (it != g_cache.end() && !(it->second.first == Res::Unknown && final_query)) {
            g_solver_stats.cache_hits++;
        } else {
            Assignment m;
            Res r = solveSlice(v, m, final_query);
            if (it != g_cache.end()) it->second = { r, m };
            else it = g_cache.emplace(key, std::make_pair(r, m)).first;
        }
        if (it->second.first == Res::Unsat) { g_solver_stats.unsat++; return Res::Unsat; }
        if (it->second.first == Res::Unknown) res = Res::Unknown;
        for (auto &kv : it->second.second) model[kv.first] = kv.second;
    }
    if (res == Res::Sat) { g_solver_stats.sat++; if (out) *out = model; }
    else g_solver_stats.unknown++;
    return res;
}
