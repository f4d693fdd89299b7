#include "solver.h"
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <poll.h>

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void zerr(Z3_context c, Z3_error_code e) { if (e != Z3_OK) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); } }

Solver::Solver()
{
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, zerr);
    resetIncremental();
}

void Solver::resetIncremental()
{
    if (slv) Z3_solver_dec_ref(ctx, slv);
    for (auto& l : lits) Z3_dec_ref(ctx, l.second);
    lits.clear(); litsIn = 0;
    slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fpUsed ? "QF_BVFP" : "QF_BV")); Z3_solver_inc_ref(ctx, slv);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), (unsigned)quickMs);
    Z3_solver_set_params(ctx, slv, p); Z3_params_dec_ref(ctx, p);
}

static unsigned active(u128 v) { unsigned n = 0; while (v) { ++n; v >>= 1; } return n ? n : 1; }
// number of bits sufficient to represent e as a signed value
static unsigned swidth(E e, int depth = 0)
{
    unsigned w = e->w;
    if (e->k == SEXT) return swidth(e->a, depth + 1);
    if (active(e->hi) + 1 <= w) { return active(e->hi) + 1; }
    if (e->k == CONST) { i128 v = sx(e->val, w); unsigned n = 1; while (n < w && (i128)sx(e->val & mask(n), n) != v) ++n; return n; }
    if (depth > 12) return w;
    if (e->k == ADD || e->k == SUB) { unsigned n = std::max(swidth(e->a, depth + 1), swidth(e->b, depth + 1)) + 1; return std::min(n, w); }
    if (e->k == MUL) { unsigned n = swidth(e->a, depth + 1) + swidth(e->b, depth + 1); return std::min(n, w); }
    if (e->k == SDIV) return std::min(w, swidth(e->a, depth + 1) + 1);
    if (e->k == EXTRACT && e->aux == 0) return std::min(w, swidth(e->a, depth + 1));
    if (e->k == CONCAT) return std::min(w, swidth(e->a, depth + 1) + e->b->w);
    if (e->k == SHL && e->b->k == CONST && e->b->val < w) return std::min(w, swidth(e->a, depth + 1) + (unsigned)e->b->val);
    if (e->k == ASHR) return swidth(e->a, depth + 1);
    if (e->k == XOR || e->k == AND || e->k == OR) return std::max(swidth(e->a, depth + 1), swidth(e->b, depth + 1));
    if (e->k == ITE) return std::max(swidth(e->b, depth + 1), swidth(e->c, depth + 1));
    return w;
}

static Z3_ast keep(Z3_context c, Z3_ast a) { Z3_inc_ref(c, a); return a; }

static Z3_ast zconst(Z3_context ctx, u128 v, unsigned w)
{
    if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, w));
    Z3_ast h = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), Z3_mk_bv_sort(ctx, w - 64)); Z3_inc_ref(ctx, h);
    Z3_ast l = Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, 64)); Z3_inc_ref(ctx, l);
    Z3_ast r = Z3_mk_concat(ctx, h, l); return r;
}

static Z3_sort fsort(Z3_context c, unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); }

Z3_ast Solver::fp(E e) { fpUsed = true; return Z3_mk_fpa_to_fp_bv(ctx, bv(e), fsort(ctx, e->w)); }

Z3_ast Solver::bo(E e)
{
    if (e->zbool) return (Z3_ast)e->zbool;
    if (e->w != 1) { fprintf(stderr, "bo width\n"); abort(); }
    Z3_ast r;
    switch (e->k)
    {
    case CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case EQ: if (e->a->w == 1) r = Z3_mk_iff(ctx, bo(e->a), bo(e->b)); else r = Z3_mk_eq(ctx, bv(e->a), bv(e->b)); break;
    case ULT: case SLT:
        if (e->k == ULT) r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b));
        else r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b));
        break;
    case AND: { Z3_ast x[2] = { bo(e->a), bo(e->b) }; r = Z3_mk_and(ctx, 2, x); break; }
    case OR: { Z3_ast x[2] = { bo(e->a), bo(e->b) }; r = Z3_mk_or(ctx, 2, x); break; }
    case XOR: if (isC(e->a, 1)) r = Z3_mk_not(ctx, bo(e->b)); else r = Z3_mk_xor(ctx, bo(e->a), bo(e->b)); break;
    case ITE: r = Z3_mk_ite(ctx, bo(e->a), bo(e->b), bo(e->c)); break;
    case FOEQ: r = Z3_mk_fpa_eq(ctx, fp(e->a), fp(e->b)); break;
    case FOLT: r = Z3_mk_fpa_lt(ctx, fp(e->a), fp(e->b)); break;
    case FOLE: r = Z3_mk_fpa_leq(ctx, fp(e->a), fp(e->b)); break;
    case FISNAN: r = Z3_mk_fpa_is_nan(ctx, fp(e->a)); break;
    default: r = Z3_mk_eq(ctx, bv(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break;
    }
    e->zbool = keep(ctx, r); return r;
}

// balanced multiplexer over the index bits
static E expandTable(E t)
{
    static std::unordered_map<E, E> memo; auto it = memo.find(t); if (it != memo.end()) return it->second;
    auto& v = X.tables[t->aux]; E idx = t->a; unsigned n = 0; while (n < idx->w && ((u128)1 << n) < v.size()) ++n;
    std::function<E(unsigned, size_t)> go = [&](unsigned bits, size_t base) -> E {
        if (base >= v.size()) return mkConst(v.back(), t->w);
        if (!bits) return mkConst(v[base], t->w);
        bool same = true; for (size_t i = base; i < std::min(v.size(), base + ((size_t)1 << bits)); ++i) if (v[i] != v[base]) { same = false; break; }
        if (same) return mkConst(v[base], t->w);
        E h = go(bits - 1, base + ((size_t)1 << (bits - 1))), l = go(bits - 1, base);
        return h == l ? h : X.mk(ITE, t->w, mkExtract(idx, bits - 1, 1), h, l); };
    E r = go(n, 0); if (r->k == ITE && r->w == 1) {} memo[t] = r; return r;
}

Z3_ast Solver::bv(E e0)
{
    if (e0->zbv) return (Z3_ast)e0->zbv;
    // iterative post-order to avoid deep recursion
    std::vector<E> st{ e0 };
    while (!st.empty())
    {
        E e = st.back(); if (e->zbv) { st.pop_back(); continue; }
        bool isb = e->k == EQ || e->k == ULT || e->k == SLT || e->k == FOEQ || e->k == FOLT || e->k == FOLE || e->k == FISNAN;
        {
            bool ready = true;
            for (E ch : { e->a, e->b, e->c }) if (ch && !ch->zbv) { st.push_back(ch); ready = false; }
            if (!ready) continue;
        }
        st.pop_back();
        Z3_ast r; unsigned w = e->w;
        if (isb || (w == 1 && (e->k == AND || e->k == OR || e->k == XOR || e->k == ITE)))
        {
            Z3_ast one = zconst(ctx, 1, 1); Z3_inc_ref(ctx, one); Z3_ast zero = zconst(ctx, 0, 1); Z3_inc_ref(ctx, zero);
            r = Z3_mk_ite(ctx, bo(e), one, zero); e->zbv = keep(ctx, r); continue;
        }
        switch (e->k)
        {
        case CONST: r = zconst(ctx, e->val, w); break;
        case VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%u", (unsigned)e->val); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, w)); break; }
        case ADD: r = Z3_mk_bvadd(ctx, bv(e->a), bv(e->b)); break;
        case SUB: r = Z3_mk_bvsub(ctx, bv(e->a), bv(e->b)); break;
        case MUL:
        {
            unsigned ua = active(e->a->hi) + active(e->b->hi), sa = swidth(e->a) + swidth(e->b);
            if (ua <= w && ua <= sa && ua < w) r = Z3_mk_zero_ext(ctx, w - ua, Z3_mk_bvmul(ctx, Z3_mk_extract(ctx, ua - 1, 0, bv(e->a)), Z3_mk_extract(ctx, ua - 1, 0, bv(e->b))));
            else if (sa < w) r = Z3_mk_sign_ext(ctx, w - sa, Z3_mk_bvmul(ctx, Z3_mk_extract(ctx, sa - 1, 0, bv(e->a)), Z3_mk_extract(ctx, sa - 1, 0, bv(e->b))));
            else r = Z3_mk_bvmul(ctx, bv(e->a), bv(e->b)); break;
        }
        case UDIV: case UREM:
        {
            unsigned n = std::max(active(e->a->hi), active(e->b->hi)); bool nz = e->b->lo > 0;
            if (n < w && nz) { Z3_ast x = Z3_mk_extract(ctx, n - 1, 0, bv(e->a)), y = Z3_mk_extract(ctx, n - 1, 0, bv(e->b)); r = Z3_mk_zero_ext(ctx, w - n, e->k == UDIV ? Z3_mk_bvudiv(ctx, x, y) : Z3_mk_bvurem(ctx, x, y)); }
            else r = e->k == UDIV ? Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)) : Z3_mk_bvurem(ctx, bv(e->a), bv(e->b));
            break;
        }
        case SDIV: case SREM:
        {   // in as many bits as the operands need, plus one for the most negative value divided by -1
            unsigned n = std::max(swidth(e->a), swidth(e->b)) + 1; auto op = e->k == SDIV ? Z3_mk_bvsdiv : Z3_mk_bvsrem;
            if (n < w) r = Z3_mk_sign_ext(ctx, w - n, op(ctx, Z3_mk_extract(ctx, n - 1, 0, bv(e->a)), Z3_mk_extract(ctx, n - 1, 0, bv(e->b)))); else r = op(ctx, bv(e->a), bv(e->b)); break;
        }
        case AND: r = Z3_mk_bvand(ctx, bv(e->a), bv(e->b)); break;
        case OR: r = Z3_mk_bvor(ctx, bv(e->a), bv(e->b)); break;
        case XOR: if (isAllOnes(e->a)) r = Z3_mk_bvnot(ctx, bv(e->b)); else r = Z3_mk_bvxor(ctx, bv(e->a), bv(e->b)); break;
        case SHL: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
        case LSHR: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
        case ASHR: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
        case CONCAT: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
        case EXTRACT: r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, bv(e->a)); break;
        case ZEXT: r = Z3_mk_zero_ext(ctx, w - e->a->w, bv(e->a)); break;
        case SEXT: r = Z3_mk_sign_ext(ctx, w - e->a->w, bv(e->a)); break;
        case ITE: r = Z3_mk_ite(ctx, bo(e->a), bv(e->b), bv(e->c)); break;
        case TABLE: r = bv(expandTable(e)); break;
        default:
        {
            fpUsed = true; Z3_ast rm = Z3_mk_fpa_rne(ctx); Z3_inc_ref(ctx, rm); Z3_ast f = nullptr;
            switch (e->k)
            {
            case FADD: f = Z3_mk_fpa_add(ctx, rm, fp(e->a), fp(e->b)); break;
            case FSUB: f = Z3_mk_fpa_sub(ctx, rm, fp(e->a), fp(e->b)); break;
            case FMUL: f = Z3_mk_fpa_mul(ctx, rm, fp(e->a), fp(e->b)); break;
            case FDIV: f = Z3_mk_fpa_div(ctx, rm, fp(e->a), fp(e->b)); break;
            case FSQRT: f = Z3_mk_fpa_sqrt(ctx, rm, fp(e->a)); break;
            case FROUND: f = Z3_mk_fpa_round_to_integral(ctx, e->aux == 0 ? Z3_mk_fpa_rtn(ctx) : e->aux == 1 ? Z3_mk_fpa_rtp(ctx) : e->aux == 2 ? Z3_mk_fpa_rtz(ctx) : rm, fp(e->a)); break;
            case FFROMS: f = Z3_mk_fpa_to_fp_signed(ctx, rm, bv(e->a), fsort(ctx, w)); break;
            case FFROMU: f = Z3_mk_fpa_to_fp_unsigned(ctx, rm, bv(e->a), fsort(ctx, w)); break;
            case FCAST: f = Z3_mk_fpa_to_fp_float(ctx, rm, fp(e->a), fsort(ctx, w)); break;
            case FTOS: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), fp(e->a), w); break;
            case FTOU: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), fp(e->a), w); break;
            default: fprintf(stderr, "lower %d\n", e->k); abort();
            }
            if (f) r = Z3_mk_fpa_to_ieee_bv(ctx, f);
        }
        }
        if (Z3_get_error_code(ctx) != Z3_OK) { fprintf(stderr, "z3 lowering error at %s w=%d\n", kname[e->k], w); abort(); }
        e->zbv = keep(ctx, r);
    }
    return (Z3_ast)e0->zbv;
}

static bool parseNum(const char* s, u128& v)
{
    v = 0;
    if (s[0] == '#' && s[1] == 'x') { for (s += 2; isxdigit(*s); ++s) v = v * 16 + (isdigit(*s) ? *s - '0' : (tolower(*s) - 'a' + 10)); return true; }
    if (s[0] == '#' && s[1] == 'b') { for (s += 2; *s == '0' || *s == '1'; ++s) v = v * 2 + (*s - '0'); return true; }
    if (isdigit(s[0])) { for (; isdigit(*s); ++s) v = v * 10 + (*s - '0'); return true; }
    if (!strncmp(s, "true", 4)) { v = 1; return true; } if (!strncmp(s, "false", 5)) { v = 0; return true; }
    if (!strncmp(s, "(_ bv", 5)) { for (s += 5; isdigit(*s); ++s) v = v * 10 + (*s - '0'); return true; }
    return false;
}

// wide division or multiplication by constants: bit-blasting in process would stall, go to the portfolio
bool Solver::direct(std::vector<E> const& cs)
{
    if (!directArith) return false;
    std::unordered_set<E> seen; std::vector<E> st; for (E e : cs) st.push_back(e);
    while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if ((e->k == UDIV || e->k == UREM) && e->w > 12) return true; if (e->k == MUL && active(e->a->hi) > 16 && active(e->b->hi) > 16) return true; for (E c : { e->a, e->b, e->c }) if (c) st.push_back(c); }
    return false;
}

Res Solver::check(std::vector<E> const& cs0, std::vector<std::pair<uint32_t, u128>>* out)
{
    std::vector<E> cs = cs0; std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    for (E e : cs) if (isC(e, 0)) return UNSAT;
    cs.erase(std::remove_if(cs.begin(), cs.end(), [](E e) { return isC(e); }), cs.end());
    CKey key; for (E e : cs) key.ids.push_back(e->id);
    { auto it = cache.find(key); if (it != cache.end()) { ++st.cacheHits; if (out) *out = it->second.m; return it->second.r; } }
    std::vector<uint32_t> vars; for (E e : cs) { std::vector<uint32_t> t; std::set_union(vars.begin(), vars.end(), e->vs->v.begin(), e->vs->v.end(), std::back_inserter(t)); vars.swap(t); }
    // domain constraints
    std::vector<E> all = cs;
    for (auto v : vars) { auto& vi = X.vars[v]; if (vi.dom) { E ve = X.varE[v]; E lo = mkConst(vi.lo, vi.w), hi = mkConst(vi.hi, vi.w);
        if (vi.lo > 0) all.push_back(X.mk(XOR, 1, mkTrue(), X.mk(ULT, 1, ve, lo))); if (vi.hi < mask(vi.w)) all.push_back(X.mk(XOR, 1, mkTrue(), X.mk(ULT, 1, hi, ve))); } }
    double t0 = now(); ++st.queries;
    Res r = UNKNOWN; std::vector<std::pair<uint32_t, u128>> mod;
    if (litsIn > 3000) resetIncremental();
    bool fp0 = fpUsed;
    if (direct(all)) { ++st.portfolio; r = portfolio(all, vars, &mod, maxQuery); goto answered; }
    if (fresh)
    {
        static Z3_tactic tac = nullptr; if (!tac) { tac = Z3_mk_tactic(ctx, "qfbv"); Z3_tactic_inc_ref(ctx, tac); }
        Z3_solver s = Z3_mk_solver_from_tactic(ctx, tac); Z3_solver_inc_ref(ctx, s);
        Z3_params ps = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, ps); Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), (unsigned)quickMs); Z3_solver_set_params(ctx, s, ps); Z3_params_dec_ref(ctx, ps);
        for (E e : all) Z3_solver_assert(ctx, s, bo(e));
        Z3_lbool zr = Z3_solver_check(ctx, s);
        if (zr == Z3_L_TRUE)
        {
            r = SAT; Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
            for (auto v : vars) { Z3_ast val = nullptr; Z3_model_eval(ctx, m, bv(X.varE[v]), true, &val); u128 x = 0; const char* t = Z3_get_numeral_binary_string(ctx, val); for (; *t; ++t) x = x * 2 + (*t - '0'); mod.push_back({ v, x }); }
            Z3_model_dec_ref(ctx, m);
        }
        else if (zr == Z3_L_FALSE) r = UNSAT;
        Z3_solver_dec_ref(ctx, s);
        if (r == UNKNOWN) { ++st.portfolio; r = portfolio(all, vars, &mod, maxQuery); }
        goto answered;
    }
    {
    std::vector<Z3_ast> as;
    for (E e : all)
    {
        Z3_ast b = bo(e); auto it = lits.find(e); Z3_ast l;
        if (it == lits.end())
        {
            char nm[32]; snprintf(nm, sizeof nm, "L%u", e->id); l = keep(ctx, Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bool_sort(ctx)));
            lits[e] = l; Z3_ast imp = Z3_mk_implies(ctx, l, b); Z3_inc_ref(ctx, imp); Z3_solver_assert(ctx, slv, imp); Z3_dec_ref(ctx, imp); ++litsIn;
        }
        else l = it->second;
        as.push_back(l);
    }
    if (fpUsed && !fp0) { resetIncremental(); --st.queries; return check(cs0, out); }
    Z3_lbool zr = Z3_solver_check_assumptions(ctx, slv, (unsigned)as.size(), as.data());
    if (zr == Z3_L_TRUE)
    {
        r = SAT; Z3_model m = Z3_solver_get_model(ctx, slv); if (!m) { fprintf(stderr, "no model\n"); abort(); } Z3_model_inc_ref(ctx, m);
        for (auto v : vars) { Z3_ast val = nullptr; Z3_model_eval(ctx, m, bv(X.varE[v]), true, &val); u128 x = 0; const char* s = Z3_get_numeral_binary_string(ctx, val); for (; *s; ++s) x = x * 2 + (*s - '0'); mod.push_back({ v, x }); }
        Z3_model_dec_ref(ctx, m);
    }
    else if (zr == Z3_L_FALSE) r = UNSAT;
    else { resetIncremental(); ++st.portfolio; r = portfolio(all, vars, &mod, maxQuery); }
    if (litsIn > 40 + 3 * all.size() && now() - t0 > 0.006) resetIncremental();
    }
answered:
    if (r == SAT) { // validate the model
        Model mm; for (auto& p : mod) mm.vals[p.first] = p.second;
        for (E e : all) if (!mm.eval(e)) { fprintf(stderr, "vsx: solver model does not satisfy the query\n"); r = UNKNOWN; break; }
    }
    double dt = now() - t0; st.time += dt;
    if (const char* dd = getenv("VSX_DUMP")) if (dt > 0.03) { static int qn = 0; std::string t = smt2(all, vars); char fn[256]; snprintf(fn, sizeof fn, "%s/slow%d_%.2f_%d.smt2", dd, qn++, dt, (int)r); FILE* f = fopen(fn, "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
    if (dt > st.maxq) st.maxq = dt;
    if (r == SAT) ++st.sat; else if (r == UNSAT) ++st.unsat; else ++st.unknown;
    if (r != UNKNOWN) { if (cache.size() > 400000) cache.clear(); cache[key] = { r, mod }; }
    if (out) *out = mod;
    return r;
}

std::string Solver::smt2(std::vector<E> const& cs, std::vector<uint32_t> const& vars)
{
    std::string s = "(set-option :produce-models true)\n(set-logic QF_BV)\n"; char b[512];
    for (auto v : vars) { snprintf(b, sizeof b, "(declare-const v%u (_ BitVec %u))\n", v, X.vars[v].w); s += b; }
    std::unordered_set<E> done;
    auto hexc = [](u128 v, unsigned w) { std::string r = "#b"; for (int i = w - 1; i >= 0; --i) r += ((v >> i) & 1) ? '1' : '0'; return r; };
    auto nm = [&](E e) -> std::string { if (e->k == CONST) return hexc(e->val, e->w); if (e->k == VAR) return "v" + std::to_string((unsigned)e->val); return "n" + std::to_string(e->id); };
    std::function<void(E)> go = [&](E root) {
        std::vector<E> stk{ root };
        while (!stk.empty())
        {
            E e = stk.back(); if (e->k == CONST || e->k == VAR || done.count(e)) { stk.pop_back(); continue; }
            E ta = e->k == TABLE ? expandTable(e) : e->a; bool ready = true; for (E c : { ta, e->b, e->c }) if (c && c->k != CONST && c->k != VAR && !done.count(c)) { stk.push_back(c); ready = false; }
            if (!ready) continue; stk.pop_back(); done.insert(e);
            std::string x;
            switch (e->k)
            {
            case EQ: case ULT: case SLT: x = std::string("(ite (") + kname[e->k] + " " + nm(e->a) + " " + nm(e->b) + ") #b1 #b0)"; break;
            case EXTRACT: x = "((_ extract " + std::to_string(e->aux + e->w - 1) + " " + std::to_string(e->aux) + ") " + nm(e->a) + ")"; break;
            case ZEXT: x = "((_ zero_extend " + std::to_string(e->w - e->a->w) + ") " + nm(e->a) + ")"; break;
            case SEXT: x = "((_ sign_extend " + std::to_string(e->w - e->a->w) + ") " + nm(e->a) + ")"; break;
            case TABLE: x = nm(expandTable(e)); break;
            case ITE: x = "(ite (= " + nm(e->a) + " #b1) " + nm(e->b) + " " + nm(e->c) + ")"; break;
            case MUL:
            {
                unsigned w = e->w, ua = active(e->a->hi) + active(e->b->hi), sa = swidth(e->a) + swidth(e->b);
                if (ua < w && ua <= sa) x = "((_ zero_extend " + std::to_string(w - ua) + ") (bvmul ((_ extract " + std::to_string(ua - 1) + " 0) " + nm(e->a) + ") ((_ extract " + std::to_string(ua - 1) + " 0) " + nm(e->b) + ")))";
                else if (sa < w) x = "((_ sign_extend " + std::to_string(w - sa) + ") (bvmul ((_ extract " + std::to_string(sa - 1) + " 0) " + nm(e->a) + ") ((_ extract " + std::to_string(sa - 1) + " 0) " + nm(e->b) + ")))";
                else x = "(bvmul " + nm(e->a) + " " + nm(e->b) + ")";
                break;
            }
            case SDIV: case SREM:
            {
                unsigned w = e->w, n = std::max(swidth(e->a), swidth(e->b)) + 1; std::string op = e->k == SDIV ? "bvsdiv" : "bvsrem", ex = "((_ extract " + std::to_string(n - 1) + " 0) ";
                if (n < w) x = "((_ sign_extend " + std::to_string(w - n) + ") (" + op + " " + ex + nm(e->a) + ") " + ex + nm(e->b) + ")))"; else x = "(" + op + " " + nm(e->a) + " " + nm(e->b) + ")";
                break;
            }
            default: if (e->k >= FADD) { x = "UNSUPPORTED"; break; } x = std::string("(") + kname[e->k] + " " + nm(e->a) + " " + nm(e->b) + ")";
            }
            snprintf(b, sizeof b, "(define-fun n%u () (_ BitVec %u) ", e->id, e->w); s += b; s += x; s += ")\n";
        }
    };
    for (E e : cs) { go(e); s += "(assert (= " + nm(e) + " #b1))\n"; }
    s += "(check-sat)\n(get-value ("; if (vars.empty()) s += "true"; for (auto v : vars) s += "v" + std::to_string(v) + " "; s += "))\n";
    return s;
}


// Rendering over mathematical integers that keeps the mod-2^w meaning: every node is its unsigned value.
// Range analysis removes the reductions that cannot wrap. Returns false when a node has no integer rendering.
struct IntLower
{
    std::string decls, defs; std::unordered_map<E, std::string> memo; bool ok = true; bool abstractDiv; std::set<uint32_t> usedVars; unsigned nd = 0; std::unordered_map<uint32_t, std::pair<u128, u128>> rng;
    std::string num(u128 v) { if (!v) return "0"; std::string r; while (v) { r += char('0' + (int)(v % 10)); v /= 10; } std::reverse(r.begin(), r.end()); return r; }
    std::string pow2(unsigned w) { if (w >= 128) return "340282366920938463463374607431768211456"; return num((u128)1 << w); }
    std::unordered_map<std::string, std::string> nm;
    std::string name(std::string const& x, bool b) { auto it = nm.find(x); if (it != nm.end()) return it->second; std::string n = nm[x] = "i" + std::to_string(nd++); defs += "(define-fun " + n + " () " + (b ? "Bool " : "Int ") + x + ")\n"; return n; }
    // q, r with x = q*c + r, 0 <= r < c
    std::map<std::pair<std::string, std::string>, std::pair<std::string, std::string>> dm;
    std::pair<std::string, std::string> divmod(std::string const& x, std::string const& c, u128 qhi)
    {
        auto it = dm.find({ x, c }); if (it != dm.end()) return it->second;
        std::string q = "q" + std::to_string(nd), r = "r" + std::to_string(nd); ++nd;
        defs += "(declare-const " + q + " Int)\n(declare-const " + r + " Int)\n(assert (and (<= 0 " + r + ") (< " + r + " " + c + ") (<= 0 " + q + ") (<= " + q + " " + num(qhi) + ") (= " + x + " (+ (* " + c + " " + q + ") " + r + "))))\n";
        return dm[{ x, c }] = { q, r };
    }
    std::string sgn(E e) { std::string x = go(e); if (e->hi < ((u128)1 << (e->w - 1))) return x; return "(ite (>= " + x + " " + pow2(e->w - 1) + ") (- " + x + " " + pow2(e->w) + ") " + x + ")"; }
    std::string bo(E e) { std::string x = go(e); return x; } // width 1 nodes are Bool
    std::string fresh(E e) { std::string n = "a" + std::to_string(e->id); if (e->w == 1) defs += "(declare-const " + n + " Bool)\n"; else defs += "(declare-const " + n + " Int)\n(assert (and (<= " + num(e->lo) + " " + n + ") (<= " + n + " " + num(e->hi) + ")))\n"; return n; }
    std::string go(E e)
    {
        auto it = memo.find(e); if (it != memo.end()) return it->second; std::string r = go0(e); return memo[e] = r;
    }
    std::string tab(E e, std::string const& ix, u128 lo, u128 hi)
    {
        auto& v = X.tables[e->aux]; if (hi >= v.size()) hi = v.size() - 1; if (lo > hi) lo = hi;
        bool same = true; for (u128 i = lo; i <= hi; ++i) if (v[(size_t)i] != v[(size_t)lo]) { same = false; break; }
        if (same) return e->w == 1 ? (v[(size_t)lo] ? "true" : "false") : num(v[(size_t)lo]);
        u128 m = lo + (hi - lo) / 2; return "(ite (<= " + ix + " " + num(m) + ") " + tab(e, ix, lo, m) + " " + tab(e, ix, m + 1, hi) + ")";
    }
    std::string go0(E e)
    {
        unsigned w = e->w; u128 m = mask(w); bool B = w == 1;
        switch (e->k)
        {
        case CONST: return B ? (e->val ? "true" : "false") : num(e->val);
        case VAR: usedVars.insert((uint32_t)e->val); return "v" + std::to_string((unsigned)e->val);
        case ADD: { if (B) break; std::string s = "(+ " + go(e->a) + " " + go(e->b) + ")";
            { u128 t = e->a->hi + e->b->hi; if (t <= m && t >= e->a->hi) return name(s, false); }
            if (isC(e->a) && e->a->val >= ((u128)1 << (w - 1)) && e->b->lo >= ((m - e->a->val) + 1)) return name("(- " + go(e->b) + " " + num(m - e->a->val + 1) + ")", false);
            s = name(s, false); return name("(ite (>= " + s + " " + pow2(w) + ") (- " + s + " " + pow2(w) + ") " + s + ")", false); }
        case SUB: { if (B) break; std::string s = name("(- " + go(e->a) + " " + go(e->b) + ")", false); if (e->a->lo >= e->b->hi) return s; return name("(ite (< " + s + " 0) (+ " + s + " " + pow2(w) + ") " + s + ")", false); }
        case MUL: { if (B) break; std::string s = name("(* " + go(e->a) + " " + go(e->b) + ")", false); if (active(e->a->hi) + active(e->b->hi) <= w || (e->a->hi && e->b->hi <= m / e->a->hi)) return s;
            u128 qh = isC(e->a) ? e->a->val : isC(e->b) ? e->b->val : m; return divmod(s, pow2(w), qh).second; }
        case UDIV: case UREM: if (B || !isC(e->b) || !e->b->val) break; if (abstractDiv && e->a->k == VAR) return fresh(e); { auto p = divmod(go(e->a), num(e->b->val), e->a->hi / e->b->val); return e->k == UDIV ? p.first : p.second; }
        case EXTRACT: { std::string x = go(e->a); if (e->a->w == 1) return x; if (e->aux) x = divmod(x, num((u128)1 << e->aux), e->a->hi >> e->aux).first; u128 h = e->a->hi >> e->aux; if (h > m) x = divmod(x, pow2(w), h >> w).second; return B ? name("(= " + x + " 1)", true) : x; }
        case CONCAT: { auto i = [&](E c) { return c->w == 1 ? "(ite " + go(c) + " 1 0)" : go(c); }; return name("(+ (* " + pow2(e->b->w) + " " + i(e->a) + ") " + i(e->b) + ")", false); }
        case ZEXT: return e->a->w == 1 ? name("(ite " + go(e->a) + " 1 0)", false) : go(e->a);
        case SEXT: { if (e->a->w == 1) return name("(ite " + go(e->a) + " " + num(m) + " 0)", false); std::string x = go(e->a); if (e->a->hi < ((u128)1 << (e->a->w - 1))) return x; return name("(ite (>= " + x + " " + pow2(e->a->w - 1) + ") (+ " + x + " " + num(m - mask(e->a->w)) + ") " + x + ")", false); }
        case ITE: return name("(ite " + go(e->a) + " " + go(e->b) + " " + go(e->c) + ")", B);
        case TABLE: { if (e->a->w == 1) break; return name(tab(e, go(e->a), e->a->lo, e->a->hi), B); }
        case EQ: return name("(= " + go(e->a) + " " + go(e->b) + ")", true);
        case ULT: if (e->a->w == 1) break; return name("(< " + go(e->a) + " " + go(e->b) + ")", true);
        case SLT: if (e->a->w == 1) break; return name("(< " + sgn(e->a) + " " + sgn(e->b) + ")", true);
        case AND: if (B) return name("(and " + go(e->a) + " " + go(e->b) + ")", true); break;
        case OR: if (B) return name("(or " + go(e->a) + " " + go(e->b) + ")", true); break;
        case XOR: if (B) return isC(e->a, 1) ? name("(not " + go(e->b) + ")", true) : name("(xor " + go(e->a) + " " + go(e->b) + ")", true); if (isAllOnes(e->a)) return name("(- " + num(m) + " " + go(e->b) + ")", false); break;
        default: break;
        }
        ok = false; return B ? "false" : "0";
    }
    static u128 a_hi(E e) { return e->hi; }
};

std::string Solver::intText(std::vector<E> const& cs, std::vector<uint32_t> const& vars, bool abstractDiv)
{
    IntLower L; L.abstractDiv = abstractDiv; std::string as; for (E e : cs) { std::string x = L.go(e); as += "(assert " + x + ")\n"; }
    if (!L.ok) return "";
    std::string s = "(set-option :produce-models true)\n(set-logic ALL)\n";
    for (auto v : vars) { auto& vi = X.vars[v]; std::string n = "v" + std::to_string(v); if (vi.w == 1) s += "(declare-const " + n + " Bool)\n"; else s += "(declare-const " + n + " Int)\n(assert (and (<= " + L.num(vi.dom ? vi.lo : 0) + " " + n + ") (<= " + n + " " + L.num(vi.dom ? vi.hi : mask(vi.w)) + ")))\n"; }
    s += L.defs + as + "(check-sat)\n"; 
    if (!abstractDiv) { s += "(get-value ("; if (vars.empty()) s += "true"; for (auto v : vars) s += "v" + std::to_string(v) + " "; s += "))\n"; }
    return s;
}

Res Solver::portfolio(std::vector<E> const& cs, std::vector<uint32_t> const& vars, std::vector<std::pair<uint32_t, u128>>* out, double limit)
{
    std::string text; 
    if (fpUsed)
    {   // FP terms: hand the z3 rendering to external solvers
        Z3_solver s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s); for (E e : cs) Z3_solver_assert(ctx, s, bo(e));
        text = Z3_solver_to_string(ctx, s); Z3_solver_dec_ref(ctx, s);
        text += "\n(check-sat)\n(get-value ("; for (auto v : vars) text += "v" + std::to_string(v) + " "; text += "))\n";
    }
    else text = smt2(cs, vars);
    static int qn = 0; char fn[256]; snprintf(fn, sizeof fn, "%s/q%d_%d.smt2", tmpdir.c_str(), (int)getpid(), qn++);
    FILE* f = fopen(fn, "w"); fwrite(text.data(), 1, text.size(), f); fclose(f);
    char fi[256], fa[256]; fi[0] = fa[0] = 0;
    if (!fpUsed) { std::string t = intText(cs, vars, false); if (!t.empty()) { snprintf(fi, sizeof fi, "%s.int.smt2", fn); FILE* g = fopen(fi, "w"); fwrite(t.data(), 1, t.size(), g); fclose(g);
        std::string t2 = intText(cs, vars, true); if (t2.find("(declare-const a") != std::string::npos) { snprintf(fa, sizeof fa, "%s.abs.smt2", fn); g = fopen(fa, "w"); fwrite(t2.data(), 1, t2.size(), g); fclose(g); } } }
    const char* z3new = getenv("VSX_Z3") ? getenv("VSX_Z3") : "z3-new";
    std::vector<std::vector<std::string>> cmds = {
        { z3new, fn },
        { "cvc5", "--produce-models", fn },
        { "cvc5", "--produce-models", "--solve-bv-as-int=sum", fn },
    };
    if (!fpUsed) cmds.push_back({ "cvc5", "--produce-models", "--bitblast=eager", "--bv-sat-solver=cadical", fn });
    size_t absFrom = cmds.size();
    if (fi[0]) { cmds.push_back({ z3new, fi }); cmds.push_back({ "cvc5", "--produce-models", fi }); absFrom = cmds.size(); }
    if (fa[0]) { cmds.push_back({ z3new, fa }); cmds.push_back({ "cvc5", fa }); }
    struct P { pid_t pid; int fd; std::string buf; bool done; }; std::vector<P> ps;
    double t0 = now();
    for (auto& c : cmds)
    {
        int pp[2]; if (pipe(pp)) abort();
        pid_t pid = fork();
        if (!pid)
        {
            dup2(pp[1], 1); int dn = open("/dev/null", O_RDWR); dup2(dn, 2); dup2(dn, 0); close(pp[0]); close(pp[1]); setpgid(0, 0);
            std::vector<char*> a; for (auto& x : c) a.push_back((char*)x.c_str()); a.push_back(nullptr); alarm((unsigned)limit + 5); execvp(a[0], a.data()); _exit(127);
        }
        close(pp[1]); ps.push_back({ pid, pp[0], "", false });
    }
    Res r = UNKNOWN; size_t live = ps.size(); int winner = -1;
    while (live && r == UNKNOWN && now() - t0 < limit)
    {
        std::vector<pollfd> pf; std::vector<size_t> idx; for (size_t i = 0; i < ps.size(); ++i) if (!ps[i].done) { pf.push_back({ ps[i].fd, POLLIN, 0 }); idx.push_back(i); }
        poll(pf.data(), pf.size(), 500);
        for (size_t k = 0; k < pf.size(); ++k) if (pf[k].revents)
        {
            P& p = ps[idx[k]]; char b[65536]; ssize_t n = read(p.fd, b, sizeof b);
            if (n > 0) p.buf.append(b, n);
            else
            {
                p.done = true; --live;
                if (p.buf.find("(error") != std::string::npos && p.buf.compare(0, 5, "unsat") != 0) continue;
                if (!p.buf.compare(0, 5, "unsat")) { r = UNSAT; winner = (int)idx[k]; break; }
                if (idx[k] < absFrom && !p.buf.compare(0, 3, "sat"))
                {
                    std::vector<std::pair<uint32_t, u128>> m; bool ok = true;
                    for (auto v : vars) { std::string key = "(v" + std::to_string(v) + " "; auto pos = p.buf.find(key); u128 x; if (pos == std::string::npos || !parseNum(p.buf.c_str() + pos + key.size(), x)) { ok = false; break; } m.push_back({ v, x }); }
                    if (ok) { Model mm; for (auto& q : m) mm.vals[q.first] = q.second; bool good = true; for (E e : cs) if (!mm.eval(e)) { good = false; break; } if (good) { r = SAT; winner = (int)idx[k]; *out = m; break; } }
                }
            }
        }
    }
    for (auto& p : ps) { kill(p.pid, SIGKILL); int stt; waitpid(p.pid, &stt, 0); close(p.fd); }
    if (winner >= 0) { portfolioLog += cmds[winner][0]; for (size_t i = 1; i + 1 < cmds[winner].size(); ++i) portfolioLog += " " + cmds[winner][i]; char b[64]; snprintf(b, sizeof b, " %s %.1fs; ", r == SAT ? "sat" : "unsat", now() - t0); portfolioLog += b; }
    if (!getenv("VSX_KEEP")) { unlink(fn); if (fi[0]) unlink(fi); if (fa[0]) unlink(fa); }
    return r;
}
