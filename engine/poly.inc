// Integer polynomials of bit-vector terms (--poly). A term whose exact integer value (as a signed number of its width) is a
// polynomial over smaller terms is put in normal form, so that comparisons of equal polynomials become one predicate, and the
// predicate is rebuilt in the fewest bits its range needs. Every step checks that the value fits, so no wrap-around is lost.
#include <optional>
typedef std::vector<uint32_t> Mono;
struct Poly { std::map<Mono, i128> c; i128 lo = 0, hi = 0; };
typedef std::shared_ptr<Poly> PolyP;
static const i128 polyMax = (i128)1 << 120;
static std::unordered_map<E, PolyP> polyMemo;
static std::unordered_map<uint32_t, E> polyAtom;
static std::unordered_map<uint32_t, std::pair<i128, i128>> polyRange;

static bool fits(i128 lo, i128 hi, unsigned w) { if (w > 120) return lo > -polyMax && hi < polyMax; i128 h = (i128)1 << (w - 1); return lo >= -h && hi < h; }
static void srange(E e, i128& lo, i128& hi)
{
    u128 half = (u128)1 << (e->w - 1);
    if (e->hi < half || e->lo >= half) { lo = sx(e->lo, e->w); hi = sx(e->hi, e->w); }
    else { lo = -(i128)half; hi = (i128)half - 1; }
}
static void mulRange(i128 al, i128 ah, i128 bl, i128 bh, i128& lo, i128& hi)
{
    i128 p[4]; bool o = false; o |= __builtin_mul_overflow(al, bl, &p[0]); o |= __builtin_mul_overflow(al, bh, &p[1]); o |= __builtin_mul_overflow(ah, bl, &p[2]); o |= __builtin_mul_overflow(ah, bh, &p[3]);
    if (o) { lo = -polyMax; hi = polyMax; return; }
    lo = std::min(std::min(p[0], p[1]), std::min(p[2], p[3])); hi = std::max(std::max(p[0], p[1]), std::max(p[2], p[3]));
    lo = std::max(lo, -polyMax); hi = std::min(hi, polyMax);
}
// range of a sum of monomials, intersected with what the caller already knows
static void tighten(Poly& p)
{
    i128 lo = 0, hi = 0;
    for (auto& t : p.c)
    {
        i128 l = 1, h = 1; uint32_t last = 0; unsigned pw = 0;
        for (size_t i = 0; i < t.first.size(); )
        {
            last = t.first[i]; pw = 0; while (i < t.first.size() && t.first[i] == last) { ++pw; ++i; }
            auto r = polyRange[last]; i128 pl = 1, ph = 1; for (unsigned k = 0; k < pw; ++k) mulRange(pl, ph, r.first, r.second, pl, ph);
            if (pw % 2 == 0 && pl < 0) pl = 0;
            mulRange(l, h, pl, ph, l, h);
        }
        mulRange(l, h, t.second, t.second, l, h); lo += l; hi += h;
        if (lo < -polyMax) lo = -polyMax; if (hi > polyMax) hi = polyMax;
    }
    p.lo = std::max(p.lo, lo); p.hi = std::min(p.hi, hi);
}
static PolyP atomOf(E e)
{
    auto p = std::make_shared<Poly>(); srange(e, p->lo, p->hi); p->c[{ e->id }] = 1; polyAtom[e->id] = e; polyRange[e->id] = { p->lo, p->hi }; return p;
}
static PolyP constPoly(i128 v) { auto p = std::make_shared<Poly>(); p->lo = p->hi = v; if (v) p->c[{}] = v; return p; }
static PolyP addPoly(PolyP a, PolyP b, int sign)
{
    if (!a || !b) return nullptr;
    auto p = std::make_shared<Poly>(); p->c = a->c;
    for (auto& t : b->c) { auto& x = p->c[t.first]; x += sign > 0 ? t.second : -t.second; if (x > polyMax || x < -polyMax) return nullptr; if (!x) p->c.erase(t.first); }
    if (p->c.size() > 300) return nullptr;
    if (sign > 0) { p->lo = a->lo + b->lo; p->hi = a->hi + b->hi; } else { p->lo = a->lo - b->hi; p->hi = a->hi - b->lo; }
    tighten(*p); return p;
}
static PolyP mulPoly(PolyP a, PolyP b)
{
    if (!a || !b || a->c.size() * b->c.size() > 4000) return nullptr;
    auto p = std::make_shared<Poly>();
    for (auto& x : a->c) for (auto& y : b->c)
    {
        Mono m; std::merge(x.first.begin(), x.first.end(), y.first.begin(), y.first.end(), std::back_inserter(m)); if (m.size() > 8) return nullptr;
        i128 v; if (__builtin_mul_overflow(x.second, y.second, &v) || v > polyMax || v < -polyMax) return nullptr;
        auto& s = p->c[m]; s += v; if (s > polyMax || s < -polyMax) return nullptr; if (!s) p->c.erase(m);
    }
    if (p->c.size() > 300) return nullptr;
    mulRange(a->lo, a->hi, b->lo, b->hi, p->lo, p->hi); tighten(*p); return p;
}
static PolyP exactOf(E e);
static PolyP modOf(E e);
// a polynomial equal to the term as an unsigned number
static PolyP unsOf(E e)
{
    if (e->w > 90) return nullptr;
    if (e->k == ZEXT) return unsOf(e->a);
    if (e->k == CONCAT) return addPoly(mulPoly(unsOf(e->a), constPoly((i128)1 << e->b->w)), unsOf(e->b), 1);
    if (e->k == VAR || e->k == CONST) return e->k == CONST ? constPoly((i128)e->val) : atomOf(mkZExt(e, e->w + 1));
    PolyP p = modOf(e); if (p && p->lo >= 0 && p->hi <= (i128)mask(e->w)) return p;
    return atomOf(mkZExt(e, e->w + 1));
}
// a polynomial congruent to the term modulo 2^w
static PolyP modOf(E e)
{
    auto it = polyMemo.find(e); if (it != polyMemo.end()) return it->second;
    PolyP r; unsigned w = e->w;
    switch (e->k)
    {
    case CONST: r = constPoly(sx(e->val, w)); break;
    case ADD: r = addPoly(modOf(e->a), modOf(e->b), 1); break;
    case SUB: r = addPoly(modOf(e->a), modOf(e->b), -1); break;
    case MUL: r = mulPoly(modOf(e->a), modOf(e->b)); break;
    case XOR: if (isAllOnes(e->a)) r = addPoly(constPoly(-1), modOf(e->b), -1); break;
    case SEXT: r = exactOf(e->a); break;
    case ZEXT: r = unsOf(e->a); break;
    case EXTRACT: if (e->aux == 0) r = modOf(e->a); break;
    case CONCAT:
    {
        unsigned s = e->b->w; if (s > 100) break;
        PolyP low = unsOf(e->b);
        if (!low) break;
        if (e->a->k == EXTRACT && e->a->aux == s && e->a->a->w == w && (e->a->a->kz & mask(s)) == mask(s)) r = addPoly(modOf(e->a->a), low, 1);
        else r = addPoly(mulPoly(modOf(e->a), constPoly((i128)1 << s)), low, 1);
        break;
    }
    default: break;
    }
    // a polynomial that may leave the width is kept only while sums of it can come back
    if (!r || r->lo <= -polyMax / 16 || r->hi >= polyMax / 16) r = w <= 100 ? atomOf(e) : nullptr;
    polyMemo[e] = r; return r;
}
// a polynomial equal to the term as a signed number
static PolyP exactOf(E e)
{
    static std::unordered_map<E, PolyP> memo; auto it = memo.find(e); if (it != memo.end()) return it->second;
    PolyP r = modOf(e);
    if (!r || !fits(r->lo, r->hi, e->w)) r = e->w <= 100 ? atomOf(e) : nullptr;
    else { i128 l, h; srange(e, l, h); r = std::make_shared<Poly>(*r); r->lo = std::max(r->lo, l); r->hi = std::min(r->hi, h); }
    memo[e] = r; return r;
}
static E atomAt(E a, unsigned n)
{
    auto r = polyRange[a->id]; unsigned m = r.first >= 0 ? 0 : 2;
    if (r.first >= 0) { while (r.second >> m) ++m; if (!m) m = 1; } else while (!fits(r.first, r.second, m)) ++m;
    if (m < a->w && m < n) { E x = mkExtract(a, 0, m); return r.first >= 0 ? mkZExt(x, n) : mkSExt(x, n); }
    return a->w == n ? a : a->w > n ? mkExtract(a, 0, n) : mkSExt(a, n);
}
// the polynomial's value modulo 2^n
static E rebuild(std::map<Mono, i128> const& c, unsigned n)
{
    E s = nullptr; E k0 = mkConst(0, n);
    for (auto& t : c)
    {
        if (t.first.empty()) { k0 = mkConst((u128)t.second, n); continue; }
        E m = nullptr; for (uint32_t id : t.first) { E x = atomAt(polyAtom[id], n); m = m ? mkBin(MUL, m, x) : x; }
        bool neg = t.second < 0; u128 v = neg ? (u128)-t.second : (u128)t.second;
        E y = v == 1 ? m : mkBin(MUL, mkConst(v, n), m);
        s = s ? (neg ? mkBin(SUB, s, y) : mkBin(ADD, s, y)) : neg ? mkBin(SUB, mkConst(0, n), y) : y;
    }
    return s ? mkBin(ADD, k0, s) : k0;
}
static unsigned bitsFor(i128 lo, i128 hi) { unsigned n = 2; while (n < 127 && !fits(lo, hi, n)) ++n; return n; }
static i128 gcd128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }

// the predicate as a decision diagram over the bits of a few small variables
static E diagram(K k, std::map<Mono, i128> const& c, bool flip, std::vector<uint32_t> const& at)
{
    std::vector<int64_t> key{ (int64_t)k, flip }; for (auto& t : c) { key.push_back((int64_t)t.first.size()); for (auto i : t.first) key.push_back(i); key.push_back((int64_t)t.second); key.push_back((int64_t)(t.second >> 64)); }
    static std::map<std::vector<int64_t>, E> memo; auto it = memo.find(key); if (it != memo.end()) return it->second;
    struct Term { i128 c; unsigned n; unsigned char v[8]; }; std::vector<Term> ts;
    for (auto& t : c) { Term x{ t.second, 0, {} }; for (uint32_t id : t.first) x.v[x.n++] = (unsigned char)(std::lower_bound(at.begin(), at.end(), id) - at.begin()); ts.push_back(x); }
    std::vector<i128> val(at.size());
    std::function<E(size_t)> go = [&](size_t i) -> E
    {
        if (i == at.size()) { i128 s = 0; for (auto& t : ts) { i128 m = t.c; for (unsigned j = 0; j < t.n; ++j) m *= val[t.v[j]]; s += m; } return mkConst(k == EQ ? s == 0 : flip ? s > 0 : s < 0, 1); }
        E v = polyAtom[at[i]]; i128 hi = polyRange[at[i]].second; unsigned n = 0; while (hi >> n) ++n;
        std::vector<E> r;
        for (i128 x = 0; x <= hi; ++x) { val[i] = x; r.push_back(go(i + 1)); }
        while (r.size() < ((size_t)1 << n)) r.push_back(r.back());
        for (unsigned b = 0; b < n; ++b) { std::vector<E> h; E bit = mkExtract(v, b, 1); for (size_t j = 0; j < r.size(); j += 2) h.push_back(mkIte(bit, r[j + 1], r[j])); r.swap(h); }
        return r[0];
    };
    return memo[key] = go(0);
}
// any predicate over a few input bits as a decision diagram, by evaluating its term
// the values of a term for every assignment of its variables
typedef std::shared_ptr<std::vector<u128>> Column;
static std::unordered_map<E, Column> columns; static size_t columnCells = 0;
static unsigned varBits(uint32_t v) { auto& i = X.vars[v]; u128 h = i.dom ? i.hi : mask(i.w); unsigned n = 0; while (h >> n) ++n; return n; }
// for each assignment of the variables in `all`, the index of its restriction to `part`
static std::vector<uint32_t> indexIn(const VarSet* all, const VarSet* part)
{
    std::vector<uint32_t> r{ 0 }; uint32_t place = 1;
    for (uint32_t v : all->v)
    {
        bool in = std::binary_search(part->v.begin(), part->v.end(), v);
        for (unsigned n = varBits(v); n--;) { size_t m = r.size(); for (size_t i = 0; i < m; ++i) r.push_back(r[i] + (in ? place : 0)); if (in) place <<= 1; }
    }
    return r;
}
static Column columnOf(E root)
{
    if (columnCells > 30000000) { columns.clear(); columnCells = 0; }
    std::vector<E> st{ root };
    while (!st.empty())
    {
        E e = st.back(); if (columns.count(e)) { st.pop_back(); continue; }
        bool ready = true; for (E x : { e->a, e->b, e->c }) if (x && !columns.count(x)) { st.push_back(x); ready = false; }
        if (!ready) continue;
        st.pop_back(); auto c = std::make_shared<std::vector<u128>>(); size_t n = 1; for (uint32_t v : e->vs->v) n <<= varBits(v);
        c->resize(n); auto& o = *c;
        if (e->k == CONST) o[0] = e->val;
        else if (e->k == VAR) { for (size_t i = 0; i < n; ++i) o[i] = i; }
        else
        {
            E ch[3] = { e->a, e->b, e->c }; std::vector<u128> in[3];
            for (int j = 0; j < 3; ++j) if (ch[j]) { auto& s = *columns[ch[j]]; if (ch[j]->vs == e->vs) in[j] = s; else { auto ix = indexIn(e->vs, ch[j]->vs); in[j].resize(n); for (size_t i = 0; i < n; ++i) in[j][i] = s[ix[i]]; } }
            for (size_t i = 0; i < n; ++i) switch (e->k)
            {
            case CONCAT: o[i] = (in[0][i] << e->b->w) | in[1][i]; break;
            case EXTRACT: o[i] = (in[0][i] >> e->aux) & mask(e->w); break;
            case ZEXT: o[i] = in[0][i]; break;
            case SEXT: o[i] = (u128)sx(in[0][i], e->a->w) & mask(e->w); break;
            case TABLE: o[i] = tabAt(e, in[0][i]); break;
            case ITE: o[i] = in[0][i] ? in[1][i] : in[2][i]; break;
            default: o[i] = e->k >= FADD ? foldF(e->k, e->w, e->aux, e->a->w, in[0][i], e->b ? in[1][i] : 0) : foldBin(e->k, in[0][i], in[1][i], e->a->w);
            }
        }
        columnCells += n; columns[e] = c;
    }
    return columns[root];
}
static bool nonlinear(E e)
{
    static std::unordered_map<E, bool> memo; if (isC(e) || e->k == VAR) return false; auto it = memo.find(e); if (it != memo.end()) return it->second;
    bool r = e->k >= FADD || ((e->k == MUL || (e->k >= UDIV && e->k <= SREM)) && !isC(e->a) && !isC(e->b)) || ((e->k >= UDIV && e->k <= SREM));
    if (!r && e->k != ITE) for (E x : { e->a, e->b, e->c }) if (x && nonlinear(x)) { r = true; break; }
    return memo[e] = r;
}
static unsigned depthOf(E e) { static std::unordered_map<E, unsigned> memo; if (isC(e) || e->k == VAR) return 0; auto it = memo.find(e); if (it != memo.end()) return it->second; unsigned d = 0; for (E x : { e->a, e->b, e->c }) if (x) d = std::max(d, depthOf(x)); return memo[e] = d + 1; }
// the predicate a k b as a decision diagram over its input bits, or nullptr if there are too many
static E diagramOf(E a, E b, K k)
{
    const VarSet* vs = X.unite(a->vs, b->vs); unsigned bits = 0; std::vector<std::pair<uint32_t, unsigned>> at;
    for (uint32_t v : vs->v) { auto& i = X.vars[v]; u128 h = i.dom ? i.hi : mask(i.w); if (h > 255) return nullptr; unsigned n = 0; while (h >> n) ++n; bits += n; at.push_back({ v, n }); if (bits > X.polyTab) return nullptr; }
    if (!bits) return nullptr;
    Column ca = columnOf(a), cb = columnOf(b); auto &ra = *ca, &rb = *cb; std::vector<uint32_t> ia = indexIn(vs, a->vs), ib = indexIn(vs, b->vs);
    std::vector<E> r; for (size_t i = 0; i < ia.size(); ++i) r.push_back(mkConst(foldBin(k, ra[ia[i]], rb[ib[i]], a->w), 1));
    // the first variable's bits are the lowest of the index; values outside a variable's range copy the largest one in it
    size_t below = 1;
    for (auto& v : at)
    {
        auto& vi = X.vars[v.first]; u128 lo = vi.dom ? vi.lo : 0, hi = vi.dom ? vi.hi : mask(vi.w);
        for (size_t i = 0; i < r.size(); ++i) { u128 x = (i / below) & (((size_t)1 << v.second) - 1); if (x > hi) r[i] = r[i - (size_t)(x - hi) * below]; else if (x < lo) r[i] = r[i + (size_t)(lo - x) * below]; }
        below <<= v.second;
    }
    for (auto& v : at) for (unsigned n = 0; n < v.second; ++n) { std::vector<E> h; E bit = mkExtract(X.varE[v.first], n, 1); for (size_t j = 0; j < r.size(); j += 2) h.push_back(mkIte(bit, r[j + 1], r[j])); r.swap(h); }
    return r[0];
}
static E tabulate(K k, E a, E b)
{
    if (!nonlinear(a) && !nonlinear(b)) return nullptr;
    return diagramOf(a, b, k);
}
// a long computation over few input bits that is being decided
E tabBool(E c)
{
    if (!X.poly || !X.polyTab || isC(c) || c->w != 1 || depthOf(c) < 80) return c;
    E r = diagramOf(c, mkConst(1, 1), EQ); return r ? r : c;
}
// a predicate over polynomials, or nullptr to leave it as it is
static E polyPred(K k, E a, E b)
{
    PolyP pa = exactOf(a), pb = exactOf(b); if (!pa || !pb) return X.polyTab ? tabulate(k, a, b) : nullptr;
    if (k == ULT && (pa->lo < 0 || pb->lo < 0)) return X.polyTab ? tabulate(k, a, b) : nullptr;
    PolyP d = addPoly(pa, pb, -1); if (!d) return nullptr;
    if (k == EQ) { if (d->lo > 0 || d->hi < 0) return mkFalse(); if (d->lo == 0 && d->hi == 0) return mkTrue(); }
    else { if (d->hi < 0) return mkTrue(); if (d->lo >= 0) return mkFalse(); }
    size_t terms = d->c.size() - d->c.count({});
    if (terms == 1 && d->c.rbegin()->first.size() == 1 && d->c.rbegin()->second * d->c.rbegin()->second == 1 && (isC(a) || isC(b))) return X.polyTab && (a->k >= ADD && a->k <= SREM ? true : b->k >= ADD && b->k <= SREM) ? tabulate(k, a, b) : nullptr; // atom against a constant
    i128 g = 0; for (auto& t : d->c) g = gcd128(g, t.second);
    bool flip = false; for (auto& t : d->c) if (!t.first.empty()) { flip = t.second < 0; break; }
    std::map<Mono, i128> c; for (auto& t : d->c) c[t.first] = (flip ? -t.second : t.second) / g;
    i128 lo = flip ? -d->hi : d->lo, hi = flip ? -d->lo : d->hi; lo = lo / g - 1; hi = hi / g + 1;
    if (X.polyTab)
    {
        std::set<uint32_t> at; for (auto& t : c) at.insert(t.first.begin(), t.first.end());
        unsigned bits = 0; for (uint32_t id : at) { auto r = polyRange[id]; E a = polyAtom[id]; if (a->k == ZEXT) a = a->a; if (a->k != VAR || r.first < 0 || r.second > 255) { bits = 1000; break; } while (r.second) { ++bits; r.second >>= 1; } }
        if (bits <= X.polyTab) { return diagram(k, c, flip, std::vector<uint32_t>(at.begin(), at.end())); }
    }
    if (X.polyTab) if (E r = tabulate(k, a, b)) return r;
    unsigned n = bitsFor(lo, hi); n = (n + 3) / 4 * 4; if (n > 120) return nullptr;
    E D = rebuild(c, n), z = mkConst(0, n);
    if (isC(D)) { i128 v = sx(D->val, n); return mkConst(k == EQ ? v == 0 : flip ? v > 0 : v < 0, 1); }
    if (k == EQ) return X.mk(EQ, 1, z, D);
    return flip ? X.mk(SLT, 1, z, D) : X.mk(SLT, 1, D, z);
}
// a division in the fewest bits
static E polyDiv(K k, E a, E b)
{
    unsigned w = a->w; PolyP pa = exactOf(a), pb = exactOf(b); if (!pa || !pb) return nullptr;
    if ((k == UDIV || k == UREM) && (pa->lo < 0 || pb->lo < 0)) return nullptr;
    if (pb->lo <= 0 && pb->hi >= 0) return nullptr;
    unsigned n = bitsFor(std::min(pa->lo, pb->lo) - 1, std::max(pa->hi, pb->hi) + 1); n = (n + 3) / 4 * 4;
    if (n + 8 > w) return nullptr;
    E x = rebuild(pa->c, n), y = rebuild(pb->c, n);
    if (isC(x) && isC(y)) return nullptr;
    return mkSExt(mkBin(k, x, y), w);
}
