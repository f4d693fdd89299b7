#include "expr.h"
ExprCtx X;

static unsigned topbit(u128 v) { unsigned n = 0; while (v) { ++n; v >>= 1; } return n; } // number of active bits

static u128 lowZeros(u128 kz) { return kz & ~(kz + 1) & (kz ^ (kz + 1)); } // the run of ones at the bottom

E ExprCtx::mk(K k, unsigned w, E a, E b, E c, u128 val, unsigned aux)
{
    Key key{ k, (uint8_t)w, (uint16_t)aux, a, b, c, val };
    auto it = tab.find(key); if (it != tab.end()) return it->second;
    Node* n = alloc();
    n->k = k; n->w = w; n->aux = aux; n->a = a; n->b = b; n->c = c; n->val = val; n->id = nid++;
    n->zbv = n->zbool = nullptr; n->leaves = 0;
    u128 m = mask(w); u128 lo = 0, hi = m, kz = 0;
    n->vs = &empty;
    if (a) n->vs = a->vs; if (b) n->vs = unite(n->vs, b->vs); if (c) n->vs = unite(n->vs, c->vs);
    switch (k)
    {
    case CONST: lo = hi = val; kz = ~val & m; n->leaves = 1; break;
    case VAR: { auto& v = vars[(size_t)val]; if (v.dom && v.lo <= v.hi) { lo = v.lo; hi = v.hi; } n->vs = intern({ (uint32_t)val }); break; }
    case ADD: { u128 s = a->hi + b->hi; if (s <= m && s >= a->hi) { lo = a->lo + b->lo; hi = s; }
                else if (w < 128 && a->lo + b->lo > m) { lo = (a->lo + b->lo) & m; hi = (a->hi + b->hi) & m; }
                kz |= lowZeros(a->kz & b->kz); break; }
    case SUB: if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; } kz |= lowZeros(a->kz & b->kz); break;
    case MUL: if (topbit(a->hi) + topbit(b->hi) <= w) { lo = a->lo * b->lo; hi = a->hi * b->hi; }
        { u128 na = ~a->kz & m, nb = ~b->kz & m; unsigned ta = 0, tb = 0; while (ta < w && !((na >> ta) & 1)) ++ta; while (tb < w && !((nb >> tb) & 1)) ++tb; unsigned tz = std::min(ta + tb, w); if (tz) kz |= mask(tz) & m; }
        break;
    case UDIV: if (b->lo > 0) { lo = a->lo / b->hi; hi = a->hi / b->lo; } break;
    case UREM: hi = a->hi; if (b->lo > 0 && b->hi - 1 < hi) hi = b->hi - 1; break;
    case AND: hi = a->hi < b->hi ? a->hi : b->hi; kz = a->kz | b->kz; break;
    case OR: kz = a->kz & b->kz; lo = a->lo > b->lo ? a->lo : b->lo; hi = ~kz & m; break;
    case XOR: kz = a->kz & b->kz; hi = ~kz & m; break;
    case LSHR: hi = a->hi; if (b->lo < 128) hi = a->hi >> (unsigned)b->lo; else hi = 0; break;
    case CONCAT: lo = (a->lo << b->w) | b->lo; hi = (a->hi << b->w) | b->hi; kz = (a->kz << b->w) | b->kz; break;
    case EXTRACT: kz = (a->kz >> aux) & m; if (a->hi <= m && aux == 0) { lo = a->lo; hi = a->hi; } else if ((a->hi >> aux) <= m) { lo = a->lo >> aux; hi = a->hi >> aux; } break;
    case ZEXT: lo = a->lo; hi = a->hi; kz = a->kz | (m & ~mask(a->w)); break;
    case SEXT: if (a->hi < ((u128)1 << (a->w - 1))) { lo = a->lo; hi = a->hi; } break;
    case ITE: lo = b->lo < c->lo ? b->lo : c->lo; hi = b->hi > c->hi ? b->hi : c->hi; kz = b->kz & c->kz; if (b->leaves && c->leaves && b->leaves + c->leaves < 100000) n->leaves = b->leaves + c->leaves; break;
    case TABLE: { auto& v = tables[aux]; lo = m; hi = 0; kz = m; for (u128 i = a->lo; i <= a->hi && i < v.size(); ++i) { u128 x = v[(size_t)i]; if (x < lo) lo = x; if (x > hi) hi = x; kz &= ~x; } if (lo > hi) { lo = 0; hi = m; kz = 0; } break; }
    case FTOS: case FTOU: break;
    default: break;
    }
    // combine kz and hi
    { unsigned t = topbit(hi); kz |= m & ~mask(t); u128 mx = ~kz & m; if (mx < hi) hi = mx; if (lo > hi) { lo = 0; } }
    n->lo = lo; n->hi = hi; n->kz = kz;
    tab.emplace(key, n);
    return n;
}

E mkConst(u128 v, unsigned w) { return X.mk(CONST, w, nullptr, nullptr, nullptr, v & mask(w)); }
E mkVar(std::string const& name, unsigned w, bool input, bool dom, u128 lo, u128 hi)
{
    X.vars.push_back({ name, w, lo, hi, dom, input });
    E e = X.mk(VAR, w, nullptr, nullptr, nullptr, X.vars.size() - 1);
    X.varE.push_back(e); return e;
}

u128 foldBin(K k, u128 a, u128 b, unsigned w)
{
    u128 m = mask(w);
    switch (k)
    {
    case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m; case UREM: return b ? a % b : a;
    case SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u128)(x / y) & m; }
    case SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case ASHR: { i128 x = sx(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
    case EQ: return a == b; case ULT: return a < b; case SLT: return sx(a, w) < sx(b, w);
    default: fprintf(stderr, "foldBin %d\n", k); abort();
    }
}

static bool smallTree(E e, unsigned lim) { return e->k == ITE && e->leaves && e->leaves <= lim; }

// segments of a mask
static bool segments(u128 mk_, unsigned w, std::vector<std::pair<unsigned, unsigned>>& out, unsigned limit)
{
    unsigned i = 0; while (i < w) { if (!((mk_ >> i) & 1)) { ++i; continue; } unsigned j = i; while (j < w && ((mk_ >> j) & 1)) ++j; out.push_back({ i, j }); if (out.size() > limit) return false; i = j; }
    return true;
}

static E disjointConcat(E a, E b)
{
    unsigned w = a->w; u128 m = mask(w);
    u128 na = ~a->kz & m, nb = ~b->kz & m;
    if (na & nb) return nullptr;
    // boundaries: assign each bit to a, b or zero; gather runs
    E r = nullptr; unsigned i = 0, runs = 0;
    std::vector<std::pair<unsigned, std::pair<unsigned, int>>> rs;
    while (i < w)
    {
        int o = ((na >> i) & 1) ? 1 : ((nb >> i) & 1) ? 2 : 0; unsigned j = i;
        while (j < w) { int oo = ((na >> j) & 1) ? 1 : ((nb >> j) & 1) ? 2 : 0; if (oo != o) break; ++j; }
        rs.push_back({ i, { j - i, o } }); i = j; if (++runs > 10) return nullptr;
    }
    for (auto& s : rs) { E p = s.second.second == 1 ? mkExtract(a, s.first, s.second.first) : s.second.second == 2 ? mkExtract(b, s.first, s.second.first) : mkConst(0, s.second.first); r = r ? mkConcat(p, r) : p; }
    return r;
}


static bool isTab(E e) { return e->k == TABLE; }
static E gf2affine(E idx, std::vector<u128> const& v, unsigned w)
{
    unsigned k = idx->w; if (k > 10 || idx->lo != 0 || idx->hi != mask(k) || v.size() < (1u << k) || k < 3 || w < 8) return nullptr;
    std::vector<u128> basis(k); for (unsigned b = 0; b < k; ++b) basis[b] = v[1u << b] ^ v[0];
    for (size_t i = 0; i < (1u << k); ++i) { u128 x = v[0]; for (unsigned b = 0; b < k; ++b) if ((i >> b) & 1) x ^= basis[b]; if (x != v[i]) return nullptr; }
    E r = mkConst(v[0], w);
    for (unsigned b = 0; b < k; ++b) { E bit = mkExtract(idx, b, 1); r = mkBin(XOR, r, X.mk(AND, w, mkConst(basis[b], w), mkSExt(bit, w))); }
    return r;
}
E mkTable(E idx, std::vector<u128> const& vals0, unsigned w)
{
    if (isC(idx)) return mkConst(idx->val < vals0.size() ? vals0[(size_t)idx->val] : vals0.back(), w);
    if (idx->k == ZEXT) return mkTable(idx->a, vals0, w);
    std::vector<u128> v = vals0; u128 lo = idx->lo, hi = std::min(idx->hi, (u128)v.size() - 1); if (lo > hi) lo = 0;
    if (hi + 1 < v.size()) v.resize((size_t)hi + 1);
    for (u128 i = 0; i < lo; ++i) v[(size_t)i] = v[(size_t)lo];
    auto valid = [&](u128 i) { return !(i & idx->kz); };
    { u128 last = v[(size_t)lo]; bool f = false; for (u128 i = lo; i <= hi; ++i) if (valid(i)) { last = v[(size_t)i]; if (!f) { f = true; for (u128 j = 0; j < i; ++j) v[(size_t)j] = last; } } else v[(size_t)i] = last; }
    bool same = true; for (u128 i = lo; i <= hi; ++i) if (v[(size_t)i] != v[(size_t)lo]) { same = false; break; }
    if (same) return mkConst(v[(size_t)lo], w);
    if (hi > lo)
    {
        u128 m = (v[(size_t)lo + 1] - v[(size_t)lo]) & mask(w); bool lin = true; for (u128 i = lo; i <= hi && lin; ++i) lin = v[(size_t)i] == ((v[(size_t)lo] + m * (i - lo)) & mask(w));
        if (lin) { E x = idx->w >= w ? mkExtract(idx, 0, w) : mkZExt(idx, w); u128 c = (v[(size_t)lo] - m * lo) & mask(w); return mkAdd(mkConst(c, w), mkBin(MUL, mkConst(m, w), x)); }
    }
    if (E g = gf2affine(idx, v, w)) return g;
    // composition: table of a table
    if (isTab(idx)) { auto& t = X.tables[idx->aux]; std::vector<u128> r; for (u128 x : t) r.push_back(x < v.size() ? v[(size_t)x] : v.back()); return mkTable(idx->a, r, w); }
    return X.mk(TABLE, w, idx, nullptr, nullptr, 0, X.tableId(v));
}
// values of e as a function of idx, if it is one syntactically
static bool asTab(E e, E idx, std::vector<u128>& out, size_t n)
{
    if (isC(e)) { out.assign(n, e->val); return true; }
    if (isTab(e) && e->a == idx) { out.clear(); for (size_t i = 0; i < n; ++i) out.push_back(tabAt(e, i)); return true; }
    if (e == idx || (e->k == ZEXT && e->a == idx)) { out.clear(); for (size_t i = 0; i < n; ++i) out.push_back(i); return true; }
    if (e->k == EXTRACT && e->a == idx) { out.clear(); for (size_t i = 0; i < n; ++i) out.push_back(((u128)i >> e->aux) & mask(e->w)); return true; }
    if (e->k == MUL || e->k == ADD || e->k == UDIV || e->k == UREM) { std::vector<u128> x, y; if (e->vs == idx->vs && asTab(e->a, idx, x, n) && asTab(e->b, idx, y, n)) { out.clear(); for (size_t i = 0; i < n; ++i) out.push_back(foldBin(e->k, x[i], y[i], e->w)); return true; } }
    return false;
}

E mkExtract(E a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    if (lo + w > a->w) { fprintf(stderr, "extract range\n"); abort(); }
    if (isC(a)) return mkConst(a->val >> lo, w);
    if (((a->kz >> lo) & mask(w)) == mask(w)) return mkConst(0, w);
    switch (a->k)
    {
    case EXTRACT: return mkExtract(a->a, a->aux + lo, w);
    case TABLE: { std::vector<u128> v = X.tables[a->aux]; for (auto& x : v) x = (x >> lo) & mask(w); return mkTable(a->a, v, w); }
    case UDIV: case UREM: if (lo == 0 && isC(a->b) && a->a->hi <= mask(w) && a->b->val <= mask(w) && a->b->val) return mkBin(a->k, mkExtract(a->a, 0, w), mkConst(a->b->val, w)); break;
    case CONCAT: if (lo + w <= a->b->w) return mkExtract(a->b, lo, w); if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
    case ZEXT: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); if (lo >= a->a->w) return mkConst(0, w); return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case SEXT: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w); if (w > 1) return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w); return mkExtract(a->a, a->a->w - 1, 1);
    case AND: case OR: case XOR: return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case ADD: case SUB: case MUL:
        if (lo == 0) { auto ok = [&](E e) { return ((e->k == ZEXT || e->k == SEXT) && e->a->w <= w) || e->k == CONCAT; }; if (ok(a->a) || ok(a->b)) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); }
        break;
    case ITE: if (a->leaves && a->leaves <= 64) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
        { auto sim = [](E e) { return e->k == CONST || e->k == ZEXT || e->k == CONCAT || e->k == EXTRACT || e->k == SEXT; }; if (sim(a->b) && sim(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); }
        break;
    default: break;
    }
    return X.mk(EXTRACT, w, a, nullptr, nullptr, 0, lo);
}

E mkConcat(E h, E l)
{
    unsigned w = h->w + l->w;
    if (isC(h) && isC(l)) return mkConst((h->val << l->w) | l->val, w);
    if (h->k == CONCAT) return mkConcat(h->a, mkConcat(h->b, l));
    if (isC(h, 0)) return mkZExt(l, w);
    if (h->k == ZEXT) return mkZExt(mkConcat(h->a, l), w);
    if (l->k == ZEXT && l->w > l->a->w) return mkConcat(h, X.mk(CONCAT, l->w, mkConst(0, l->w - l->a->w), l->a));
    auto fuse = [](E x, E y) -> E {
        if (isC(x) && isC(y)) return mkConst((x->val << y->w) | y->val, x->w + y->w);
        if (x->k == EXTRACT && y->k == EXTRACT && x->a == y->a && x->aux == y->aux + y->w) return mkExtract(x->a, y->aux, x->w + y->w);
        if (x->k == EXTRACT && x->aux == y->w && (x->a->k == ADD || x->a->k == SUB || x->a->k == MUL) && mkExtract(x->a, 0, y->w) == y) return mkExtract(x->a, 0, x->w + y->w);
        if (x->k == EXTRACT && x->a == y && x->aux == y->w) return mkExtract(y, 0, x->w + y->w); // cannot happen
        if (x->k == ITE && y->k == ITE && x->a == y->a) return mkIte(x->a, mkConcat(x->b, y->b), mkConcat(x->c, y->c));
        return nullptr; };
    if (E f = fuse(h, l)) return f;
    // SEXT pattern: concat(sext(bit msb of x), x)
    if (h->k == EXTRACT && h->w == 1 && h->a == l && h->aux == l->w - 1) return mkSExt(l, w);
    if (l->k == CONCAT) if (E f = fuse(h, l->a)) return mkConcat(f, l->b);
    return X.mk(CONCAT, w, h, l);
}

E mkZExt(E a, unsigned w)
{
    if (w == a->w) return a; if (isC(a)) return mkConst(a->val, w);
    if (a->k == ZEXT) return mkZExt(a->a, w);
    if (a->k == ADD && isC(a->a) && a->b->hi + a->a->val <= mask(a->w) && a->w < 128 && a->b->w <= 64) return mkBin(ADD, mkConst(a->a->val, w), mkZExt(a->b, w));
    if (isTab(a)) return mkTable(a->a, X.tables[a->aux], w);
    if (a->k == CONCAT && isC(a->a, 0)) return mkZExt(a->b, w);
    if (a->k == ITE && a->leaves && a->leaves <= 16) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
    return X.mk(ZEXT, w, a);
}
E mkSExt(E a, unsigned w)
{
    if (w == a->w) return a; if (isC(a)) return mkConst((u128)sx(a->val, a->w), w);
    if ((a->kz >> (a->w - 1)) & 1) return mkZExt(a, w);
    if (a->k == SEXT) return mkSExt(a->a, w);
    if (isTab(a)) { std::vector<u128> v = X.tables[a->aux]; for (auto& x : v) x = (u128)sx(x, a->w) & mask(w); return mkTable(a->a, v, w); }
    if (a->k == ITE && a->leaves && a->leaves <= 16) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    return X.mk(SEXT, w, a);
}

E mkIte(E c, E a, E b)
{
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    if (c->k == XOR && c->w == 1 && isC(c->a, 1)) return mkIte(c->b, b, a);
    if (a->k == ITE && a->a == c) return mkIte(c, a->b, b);
    if (b->k == ITE && b->a == c) return mkIte(c, a, b->c);
    if (a->w == 1)
    {
        if (isC(a, 1)) return mkOr(c, b);
        if (isC(a, 0)) return mkAnd(mkNot(c), b);
        if (isC(b, 1)) return mkOr(mkNot(c), a);
        if (isC(b, 0)) return mkAnd(c, a);
    }
    if (a->k == ITE && a->b == b) return mkIte(mkAnd(c, mkNot(a->a)), a->c, b);
    if (a->k == ITE && a->c == b) return mkIte(mkAnd(c, a->a), a->b, b);
    if (b->k == ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
    if (b->k == ITE && b->c == a) return mkIte(mkOr(c, mkNot(b->a)), a, b->b);
    if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return mkZExt(mkIte(c, a->a, b->a), a->w);
    if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return mkSExt(mkIte(c, a->a, b->a), a->w);
    return X.mk(ITE, a->w, c, a, b);
}

// sums with several table terms over one index: merge them
static E sumWithout(E s, E idx, E& found, int& budget)
{
    if (--budget < 0) return nullptr;
    if (isTab(s) && s->a == idx) { found = s; return mkConst(0, s->w); }
    if (s->k != ADD) return nullptr;
    if (E l = sumWithout(s->b, idx, found, budget)) return mkBin(ADD, s->a, l);
    if (E l = sumWithout(s->a, idx, found, budget)) return mkBin(ADD, l, s->b);
    return nullptr;
}
static E mapTree(E t, std::function<E(E)> f)
{
    std::unordered_map<E, E> memo;
    std::function<E(E)> go = [&](E e) -> E { if (e->k != ITE || !e->leaves) return f(e); auto it = memo.find(e); if (it != memo.end()) return it->second; E r = mkIte(e->a, go(e->b), go(e->c)); memo[e] = r; return r; };
    return go(t);
}

// GF(2)-linear normal forms: per bit a sorted list of atoms (node id << 7 | bit) and a constant
struct Lin { std::vector<uint64_t> t; bool c = false; };
static Lin linXor(Lin const& a, Lin const& b) { Lin r; r.c = a.c != b.c; r.t.reserve(a.t.size() + b.t.size()); std::set_symmetric_difference(a.t.begin(), a.t.end(), b.t.begin(), b.t.end(), std::back_inserter(r.t)); return r; }
typedef std::shared_ptr<std::vector<Lin>> LinV;
static std::unordered_map<uint32_t, LinV> linMemo;
static const size_t linLimit = 2048;
static LinV linOf(E e)
{
    { auto it = linMemo.find(e->id); if (it != linMemo.end()) return it->second; }
    auto r = std::make_shared<std::vector<Lin>>(e->w); auto& v = *r; bool atom = false; size_t total = 0;
    switch (e->k)
    {
    case CONST: for (unsigned i = 0; i < e->w; ++i) v[i].c = (e->val >> i) & 1; break;
    case XOR: { LinV a = linOf(e->a), b = linOf(e->b); for (unsigned i = 0; i < e->w; ++i) { v[i] = linXor((*a)[i], (*b)[i]); total += v[i].t.size(); } atom = total > linLimit * 8; break; }
    case AND: { LinV a = linOf(e->a), b = linOf(e->b); for (unsigned i = 0; i < e->w && !atom; ++i) { auto &x = (*a)[i], &y = (*b)[i]; if (x.t.empty()) v[i] = x.c ? y : Lin(); else if (y.t.empty()) v[i] = y.c ? x : Lin(); else if (x.c == y.c && x.t == y.t) v[i] = x; else atom = true; } break; }
    case OR: { LinV a = linOf(e->a), b = linOf(e->b); for (unsigned i = 0; i < e->w && !atom; ++i) { auto &x = (*a)[i], &y = (*b)[i]; auto one = [] { Lin l; l.c = true; return l; }; if (x.t.empty()) v[i] = x.c ? one() : y; else if (y.t.empty()) v[i] = y.c ? one() : x; else if (x.c == y.c && x.t == y.t) v[i] = x; else atom = true; } break; }
    case CONCAT: { LinV a = linOf(e->a), b = linOf(e->b); for (unsigned i = 0; i < e->w; ++i) v[i] = i < e->b->w ? (*b)[i] : (*a)[i - e->b->w]; break; }
    case EXTRACT: { LinV a = linOf(e->a); for (unsigned i = 0; i < e->w; ++i) v[i] = (*a)[i + e->aux]; break; }
    case ZEXT: { LinV a = linOf(e->a); for (unsigned i = 0; i < e->a->w; ++i) v[i] = (*a)[i]; break; }
    case SEXT: { LinV a = linOf(e->a); for (unsigned i = 0; i < e->w; ++i) v[i] = (*a)[std::min<unsigned>(i, e->a->w - 1)]; break; }
    case ITE: { LinV c = linOf(e->a), a = linOf(e->b), b = linOf(e->c); for (unsigned i = 0; i < e->w && !atom; ++i) { Lin d = linXor((*a)[i], (*b)[i]); if (!d.t.empty()) atom = true; else v[i] = d.c ? linXor((*b)[i], (*c)[0]) : (*b)[i]; } break; }
    case SUB: // 0 - (0 or 1)
        if (isC(e->a, 0) && e->b->hi <= 1) { LinV b = linOf(e->b); for (unsigned i = 0; i < e->w; ++i) v[i] = (*b)[0]; } else atom = true;
        break;
    default: atom = true;
    }
    if (atom) for (unsigned i = 0; i < e->w; ++i) { v[i] = Lin(); if (!((e->kz >> i) & 1)) v[i].t.push_back(((uint64_t)e->id << 7) | i); }
    linMemo[e->id] = r; return r;
}
static bool hasXor(E e, int d) { if (e->k == XOR) return !(isC(e->a)) || hasXor(e->b, d); if (d == 0) return false; return (e->a && hasXor(e->a, d - 1)) || (e->b && hasXor(e->b, d - 1)) || (e->c && hasXor(e->c, d - 1)); }
// 1 equal, 0 different, -1 unknown
static int linEqual(E a, E b)
{
    if (a->w < 2 || (!hasXor(a, 3) && !hasXor(b, 3))) return -1;
    LinV x = linOf(a), y = linOf(b); bool eq = true;
    for (unsigned i = 0; i < a->w; ++i) { if ((*x)[i].t != (*y)[i].t) eq = false; else if ((*x)[i].c != (*y)[i].c) return 0; }
    return eq ? 1 : -1;
}

#include "poly.inc"
E mkBin(K k, E a, E b)
{
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch %s %d %d\n", kname[k], a->w, b->w); abort(); }
    bool pred = k == EQ || k == ULT || k == SLT;
    if (isC(a) && isC(b)) return mkConst(foldBin(k, a->val, b->val, w), pred ? 1 : w);
    if (X.poly && w >= 16)
    {
        if (pred) { if (E r = polyPred(k, a, b)) return r; }
        else if (k == SDIV || k == SREM || k == UDIV || k == UREM) { if (E r = polyDiv(k, a, b)) return r; }
    }
    bool comm = k == ADD || k == MUL || k == AND || k == OR || k == XOR || k == EQ;
    if (comm) { if (isC(b)) std::swap(a, b); else if (!isC(a) && a->id > b->id) std::swap(a, b); }
    u128 m = mask(w);
    // functions of one table index stay tables
    if (isTab(a) || isTab(b))
    {
        E idx = isTab(a) ? a->a : b->a; size_t n = X.tables[(isTab(a) ? a : b)->aux].size(); if (isTab(a) && isTab(b)) n = std::max(n, X.tables[b->aux].size());
        std::vector<u128> x, y; if (asTab(a, idx, x, n) && asTab(b, idx, y, n)) { std::vector<u128> r; for (size_t i = 0; i < n; ++i) r.push_back(foldBin(k, x[i], y[i], w)); return mkTable(idx, r, pred ? 1 : w); }
    }
    // push through small constant-leaf trees
    if (isC(a) && smallTree(b, k == EQ ? 300 : 8)) return mapTree(b, [&](E x) { return mkBin(k, a, x); });
    if (isC(b) && smallTree(a, k == EQ ? 300 : 8)) return mapTree(a, [&](E x) { return mkBin(k, x, b); });
    switch (k)
    {
    case ADD:
        if (isC(a, 0)) return b;
        if (isTab(a) || isTab(b)) { E t = isTab(a) ? a : b, o = isTab(a) ? b : a; if (o->k == ADD) { E f = nullptr; int bud = 60; if (E rest = sumWithout(o, t->a, f, bud)) return mkBin(ADD, mkBin(ADD, t, f), rest); } }
        if (isC(a) && b->k == ADD && isC(b->a)) return mkBin(ADD, mkConst(a->val + b->a->val, w), b->b);
        if (isC(a) && b->k == SUB && isC(b->a)) return mkBin(SUB, mkConst(a->val + b->a->val, w), b->b);
        if (b->k == ADD && isC(b->a)) return mkBin(ADD, b->a, mkBin(ADD, a, b->b));
        if (a->k == ADD && isC(a->a)) return mkBin(ADD, a->a, mkBin(ADD, a->b, b));
        if (b->k == SUB && b->b == a) return b->a;
        if (a->k == SUB && a->b == b) return a->a;
        if (w == 1) return mkBin(XOR, a, b);
        if (!isC(a)) if (E d = disjointConcat(a, b)) return d;
        break;
    case SUB:
        if (isC(b)) return mkBin(ADD, mkConst(0 - b->val, w), a);
        if (a == b) return mkConst(0, w);
        if (a->k == ADD && a->a == b) return a->b;
        if (a->k == ADD && a->b == b) return a->a;
        if (b->k == ADD && isC(b->a)) return mkBin(ADD, mkConst(0 - b->a->val, w), mkBin(SUB, a, b->b));
        if (a->k == ADD && isC(a->a)) return mkBin(ADD, a->a, mkBin(SUB, a->b, b));
        if (b->k == SUB && isC(b->a, 0)) return mkBin(ADD, a, b->b);
        if (a->k == ADD && b->k == ADD) { if (a->a == b->a) return mkBin(SUB, a->b, b->b); if (a->b == b->b) return mkBin(SUB, a->a, b->a); if (a->a == b->b) return mkBin(SUB, a->b, b->a); if (a->b == b->a) return mkBin(SUB, a->a, b->b); }
        if (w == 1) return mkBin(XOR, a, b);
        break;
    case MUL:
        if (isC(a, 0)) return a; if (isC(a, 1)) return b;
        if (isC(a) && (a->val & (a->val - 1)) == 0) { unsigned s = topbit(a->val) - 1; return mkBin(SHL, b, mkConst(s, w)); }
        if (isC(a) && b->k == MUL && isC(b->a) && (topbit(b->a->val) + topbit(b->b->hi) <= w)) return mkBin(MUL, mkConst(a->val * b->a->val, w), b->b);
        break;
    case UDIV:
        if ((k == UDIV || k == UREM) && isC(b) && b->val) { unsigned n = std::max(topbit(a->hi), topbit(b->val)); if (n < 1) n = 1; if (n < w) return mkZExt(mkBin(k, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
        if (isC(b) && b->val && a->k == UREM && isC(a->b) && a->b->val && a->b->val % b->val == 0) return mkBin(UREM, mkBin(UDIV, a->a, b), mkConst(a->b->val / b->val, w));
        if (isC(b, 1)) return a; if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(LSHR, a, mkConst(topbit(b->val) - 1, w));
        if (isC(b) && b->val && a->hi < b->val) return mkConst(0, w);
        // (x / c1) / c2 -> x / (c1*c2)
        if (isC(b) && b->val && a->k == UDIV && isC(a->b) && a->b->val && topbit(b->val) + topbit(a->b->val) <= w) return mkBin(UDIV, a->a, mkConst(b->val * a->b->val, w));
        break;
    case UREM:
        if (isC(b) && b->val) { unsigned n = std::max(topbit(a->hi), topbit(b->val)); if (n < 1) n = 1; if (n < w) return mkZExt(mkBin(k, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
        if (isC(b) && b->val && a->k == UREM && isC(a->b) && a->b->val && a->b->val % b->val == 0) return mkBin(UREM, a->a, b);
        if (isC(b, 1)) return mkConst(0, w); if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(AND, mkConst(b->val - 1, w), a);
        if (isC(b) && b->val && a->hi < b->val) return a;
        break;
    case SDIV:
        if (isC(b, 1)) return a;
        if (isC(b) && b->val < ((u128)1 << (w - 1)) && a->hi < ((u128)1 << (w - 1))) return mkBin(UDIV, a, b);
        break;
    case SREM:
        if (isC(b, 1)) return mkConst(0, w);
        if (isC(b) && b->val < ((u128)1 << (w - 1)) && b->val && a->hi < ((u128)1 << (w - 1))) return mkBin(UREM, a, b);
        break;
    case AND:
        if (isC(a, 0)) return a; if (isC(a, m)) return b; if (a == b) return a;
        if (w == 1) { // a & !a
            auto neg = [](E x, E y) { return x->k == XOR && isC(x->a, 1) && x->b == y; }; if (neg(a, b) || neg(b, a)) return mkConst(0, 1);
            if (b->k == AND && (b->a == a || b->b == a)) return b; if (a->k == AND && (a->a == b || a->b == b)) return a; }
        if (isC(a))
        {
            u128 need = ~b->kz & m; if ((need & ~a->val) == 0) return b;
            if (b->k == AND && isC(b->a)) return mkBin(AND, mkConst(a->val & b->a->val, w), b->b);
            std::vector<std::pair<unsigned, unsigned>> sg; if (segments(a->val, w, sg, 4))
            {
                E r = nullptr; unsigned p = 0;
                for (auto& s : sg) { if (s.first > p) { E z = mkConst(0, s.first - p); r = r ? mkConcat(z, r) : z; } E x = mkExtract(b, s.first, s.second - s.first); r = r ? mkConcat(x, r) : x; p = s.second; }
                if (p < w) { E z = mkConst(0, w - p); r = r ? mkConcat(z, r) : z; }
                return r;
            }
        }
        if ((~a->kz & ~b->kz & m) == 0) return mkConst(0, w);
        if (b->k == SEXT && b->a->w == 1) return mkIte(b->a, a, mkConst(0, w));
        if (a->k == SEXT && a->a->w == 1) return mkIte(a->a, b, mkConst(0, w));
        if (a->k == ZEXT && b->k == ZEXT) { unsigned n = std::min(a->a->w, b->a->w); return mkZExt(mkBin(AND, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
        break;
    case OR:
        if (isC(a, 0)) return b; if (isC(a, m)) return a; if (a == b) return a;
        if (w == 1) { auto neg = [](E x, E y) { return x->k == XOR && isC(x->a, 1) && x->b == y; }; if (neg(a, b) || neg(b, a)) return mkConst(1, 1);
            if (b->k == OR && (b->a == a || b->b == a)) return b; if (a->k == OR && (a->a == b || a->b == b)) return a; }
        if (a->k == ZEXT && b->k == ZEXT) { unsigned n = std::max(a->a->w, b->a->w); return mkZExt(mkBin(OR, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
        if (w > 1) if (E d = disjointConcat(a, b)) return d;
        if (isC(a)) { std::vector<std::pair<unsigned, unsigned>> sg; if (segments(a->val, w, sg, 4)) { E r = nullptr; unsigned p = 0; for (auto& s : sg) { if (s.first > p) { E x = mkExtract(b, p, s.first - p); r = r ? mkConcat(x, r) : x; } E o = mkConst(mask(s.second - s.first), s.second - s.first); r = r ? mkConcat(o, r) : o; p = s.second; } if (p < w) { E x = mkExtract(b, p, w - p); r = r ? mkConcat(x, r) : x; } return r; } }
        break;
    case XOR:
        if (isC(a, 0)) return b; if (a == b) return mkConst(0, w);
        if (isC(a) && b->k == XOR && isC(b->a)) return mkBin(XOR, mkConst(a->val ^ b->a->val, w), b->b);
        if (!isC(a)) { if (a->k == XOR && isC(a->a)) return mkBin(XOR, a->a, mkBin(XOR, a->b, b)); if (b->k == XOR && isC(b->a)) return mkBin(XOR, b->a, mkBin(XOR, a, b->b)); }
        if (b->k == XOR) { if (b->a == a) return b->b; if (b->b == a) return b->a; }
        if (a->k == XOR) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
        if (a->k == ZEXT && b->k == ZEXT) { unsigned n = std::max(a->a->w, b->a->w); return mkZExt(mkBin(XOR, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
        if (w > 1 && !isC(a)) if (E d = disjointConcat(a, b)) return d;
        if (isC(a) && w == 1 && b->k == ITE && b->leaves) return mkIte(b->a, mkBin(XOR, a, b->b), mkBin(XOR, a, b->c));
        break;
    case SHL:
        if (isC(b)) { if (b->val >= w) return mkConst(0, w); unsigned s = (unsigned)b->val; if (!s) return a; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
        if (isC(a, 0)) return a;
        break;
    case LSHR:
        if (isC(b)) { if (b->val >= w) return mkConst(0, w); unsigned s = (unsigned)b->val; if (!s) return a; return mkZExt(mkExtract(a, s, w - s), w); }
        if (isC(a, 0)) return a;
        break;
    case ASHR:
        if (isC(b)) { unsigned s = b->val >= w ? w - 1 : (unsigned)b->val; if (!s) return a; return mkSExt(mkExtract(a, s, w - s), w); }
        if ((a->kz >> (w - 1)) & 1) return mkBin(LSHR, a, b);
        break;
    case EQ:
        if (a == b) return mkTrue();
        if (a->hi < b->lo || b->hi < a->lo) return mkFalse();
        if (w == 1) { if (isC(a)) return a->val ? b : mkNot(b); }
        if (isC(a))
        {
            if (a->val & b->kz) return mkFalse();
            switch (b->k)
            {
            case ZEXT: return mkEq(mkConst(a->val, b->a->w), b->a); // high bits checked by kz
            case SEXT: { u128 t = a->val & mask(b->a->w); if (((u128)sx(t, b->a->w) & m) != a->val) return mkFalse(); return mkEq(mkConst(t, b->a->w), b->a); }
            case CONCAT: return mkAnd(mkEq(mkConst(a->val >> b->b->w, b->a->w), b->a), mkEq(mkConst(a->val, b->b->w), b->b));
            case ADD: if (isC(b->a)) return mkEq(mkConst(a->val - b->a->val, w), b->b); break;
            case SUB: if (isC(b->a)) return mkEq(mkConst(b->a->val - a->val, w), b->b); if (a->val == 0) return mkEq(b->a, b->b); break;
            case XOR: if (isC(b->a)) return mkEq(mkConst(a->val ^ b->a->val, w), b->b); if (a->val == 0) return mkEq(b->a, b->b); break;
            case ITE: if (isC(b->b) || isC(b->c)) return mkIte(b->a, mkEq(a, b->b), mkEq(a, b->c)); break;
            case OR: if (a->val == 0) return mkAnd(mkEq(a, b->a), mkEq(a, b->b)); break;
            default: break;
            }
        }
        else
        {
            if (a->k == ZEXT && b->k == ZEXT) { unsigned n = std::max(a->a->w, b->a->w); return mkEq(mkExtract(a, 0, n), mkExtract(b, 0, n)); }
            if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
            if (a->k == ADD && b->k == ADD && a->a == b->a) return mkEq(a->b, b->b);
            if (a->k == ADD && b->k == ADD && isC(a->a) && isC(b->a)) return mkEq(mkBin(ADD, mkConst(a->a->val - b->a->val, w), a->b), b->b);
            if (a->k == CONCAT && b->k == CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
            if (a->k == ITE && (a->b == b || a->c == b)) return a->b == b ? mkOr(a->a, mkEq(a->c, b)) : mkOr(mkNot(a->a), mkEq(a->b, b));
            if (b->k == ITE && (b->b == a || b->c == a)) return b->b == a ? mkOr(b->a, mkEq(b->c, a)) : mkOr(mkNot(b->a), mkEq(b->b, a));
            if (a->k == ITE && b->k == ITE && a->a == b->a) return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->c, b->c));
        }
        { int q = linEqual(a, b); if (q >= 0) return q ? mkTrue() : mkFalse(); }
        break;
    case ULT:
        if (a == b || isC(b, 0)) return mkFalse();
        if (a->hi < b->lo) return mkTrue(); if (a->lo >= b->hi) return mkFalse();
        if (isC(b, 1)) return mkEq(mkConst(0, w), a);
        if (isC(a, 0)) return mkNot(mkEq(a, b));
        if (w == 1) return mkAnd(mkNot(a), b);
        { u128 h = std::max(a->hi, b->hi); unsigned n = topbit(h); if (n < 1) n = 1;
          if (n < w && ((a->k == ZEXT || isC(a)) && (b->k == ZEXT || isC(b)))) { unsigned nn = std::max(a->k == ZEXT ? a->a->w : 1u, b->k == ZEXT ? b->a->w : 1u); nn = std::max(nn, n); if (nn < w) return mkUlt(mkExtract(a, 0, nn), mkExtract(b, 0, nn)); } }
        if (a->k == CONCAT && b->k == CONCAT && a->a == b->a) return mkUlt(a->b, b->b);
        if (a->k == ITE && b->k == ITE && a->a == b->a) return mkIte(a->a, mkUlt(a->b, b->b), mkUlt(a->c, b->c));
        break;
    case SLT:
    {
        if (a == b) return mkFalse();
        u128 half = (u128)1 << (w - 1);
        bool an = a->lo >= half, ap = a->hi < half, bn = b->lo >= half, bp = b->hi < half;
        if (an && bp) return mkTrue(); if (ap && bn) return mkFalse();
        if ((an && bn) || (ap && bp)) return mkUlt(a, b);
        if (isC(b, 0)) return mkExtract(a, w - 1, 1);
        if (isC(a, m)) return mkNot(mkExtract(b, w - 1, 1));
        if (w == 1) return mkAnd(a, mkNot(b));
        if ((a->k == SEXT || isC(a)) && (b->k == SEXT || isC(b)))
        {
            unsigned n = std::max(a->k == SEXT ? a->a->w : 1u, b->k == SEXT ? b->a->w : 1u);
            auto fits = [&](E e) { return e->k == SEXT || (u128)(sx(e->val & mask(n), n)) == (u128)sx(e->val, w); };
            if (n < w && fits(a) && fits(b)) return mkSlt(mkExtract(a, 0, n), mkExtract(b, 0, n));
            if (n < w) { // constant outside the range of the other side
                if (isC(b)) return sx(b->val, w) > 0 ? mkTrue() : mkFalse();
                if (isC(a)) return sx(a->val, w) < 0 ? mkTrue() : mkFalse(); }
        }
        if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
        if (a->k == ITE && b->k == ITE && a->a == b->a) return mkIte(a->a, mkSlt(a->b, b->b), mkSlt(a->c, b->c));
        break;
    }
    default: break;
    }
    return X.mk(k, pred ? 1 : w, a, b);
}

static float asF(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static double asD(u128 v) { uint64_t x = (uint64_t)v; double f; memcpy(&f, &x, 8); return f; }
static u128 ofF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 ofD(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }

u128 foldF(K k, unsigned w, unsigned aux, unsigned aw, u128 a, u128 b)
{
    volatile bool s = aw == 32;
    switch (k)
    {
    case FADD: return s ? ofF(asF(a) + asF(b)) : ofD(asD(a) + asD(b));
    case FSUB: return s ? ofF(asF(a) - asF(b)) : ofD(asD(a) - asD(b));
    case FMUL: return s ? ofF(asF(a) * asF(b)) : ofD(asD(a) * asD(b));
    case FDIV: return s ? ofF(asF(a) / asF(b)) : ofD(asD(a) / asD(b));
    case FSQRT: return s ? ofF(sqrtf(asF(a))) : ofD(sqrt(asD(a)));
    case FROUND: { double d = s ? asF(a) : asD(a); double r = aux == 0 ? floor(d) : aux == 1 ? ceil(d) : aux == 2 ? trunc(d) : nearbyint(d); return s ? ofF((float)r) : ofD(r); }
    case FOEQ: return s ? asF(a) == asF(b) : asD(a) == asD(b);
    case FOLT: return s ? asF(a) < asF(b) : asD(a) < asD(b);
    case FOLE: return s ? asF(a) <= asF(b) : asD(a) <= asD(b);
    case FISNAN: return s ? asF(a) != asF(a) : asD(a) != asD(a);
    case FFROMS: { i128 v = sx(a, aw); return w == 32 ? ofF((float)(int64_t)v) : ofD((double)(int64_t)v); }
    case FFROMU: { return w == 32 ? ofF((float)(uint64_t)a) : ofD((double)(uint64_t)a); }
    case FTOS: { double d = s ? asF(a) : asD(a); double lim = ldexp(1.0, w - 1); if (!(d > -lim - 1 && d < lim)) return (u128)1 << (w - 1); return (u128)(i128)d & mask(w); }
    case FTOU: { double d = s ? asF(a) : asD(a); double lim = ldexp(1.0, w); if (!(d > -1 && d < lim)) return 0; return (u128)d & mask(w); }
    case FCAST: return aw == 32 && w == 64 ? ofD((double)asF(a)) : aw == 64 && w == 32 ? ofF((float)asD(a)) : a;
    default: abort();
    }
}

E mkF(K k, unsigned w, E a, E b, unsigned aux)
{
    if (isC(a) && (!b || isC(b))) return mkConst(foldF(k, w, aux, a->w, a->val, b ? b->val : 0), w);
    if (k == FCAST && a->w == w) return a;
    if (k == FISNAN && (a->k == FFROMS || a->k == FFROMU)) return mkFalse();
    E r = X.mk(k, w, a, b, nullptr, 0, aux);
    // a floating-point comparison over few input bits
    if (X.poly && X.polyTab && (k == FOEQ || k == FOLT || k == FOLE || k == FISNAN)) if (E d = diagramOf(r, mkTrue(), EQ)) return d;
    return r;
}

u128 Model::eval(E root) const
{
    if (root->k == CONST) return root->val;
    { auto it = memo.find(root->id); if (it != memo.end()) return it->second; }
    std::vector<E> st{ root };
    auto get = [&](E e, u128& v) { if (e->k == CONST) { v = e->val; return true; } if (e->k == VAR) { v = var((uint32_t)e->val); return true; } auto it = memo.find(e->id); if (it == memo.end()) return false; v = it->second; return true; };
    while (!st.empty())
    {
        E e = st.back(); u128 dummy; if (get(e, dummy)) { if (e->k == VAR) memo[e->id] = dummy; st.pop_back(); continue; }
        u128 a = 0, b = 0, c = 0; bool ready = true;
        if (e->k == ITE) { if (!get(e->a, a)) { st.push_back(e->a); continue; } E t = a ? e->b : e->c; if (!get(t, b)) { st.push_back(t); continue; } memo[e->id] = b; st.pop_back(); continue; }
        if (e->a && !get(e->a, a)) { st.push_back(e->a); ready = false; }
        if (e->b && !get(e->b, b)) { st.push_back(e->b); ready = false; }
        if (e->c && !get(e->c, c)) { st.push_back(e->c); ready = false; }
        if (!ready) continue;
        u128 r;
        switch (e->k)
        {
        case CONCAT: r = (a << e->b->w) | b; break;
        case EXTRACT: r = (a >> e->aux) & mask(e->w); break;
        case ZEXT: r = a; break;
        case SEXT: r = (u128)sx(a, e->a->w) & mask(e->w); break;
        case TABLE: r = tabAt(e, a); break;
        default:
            if (e->k >= FADD) r = foldF(e->k, e->w, e->aux, e->a->w, a, b);
            else r = foldBin(e->k, a, b, e->a->w);
        }
        memo[e->id] = r; st.pop_back();
    }
    return memo[root->id];
}
