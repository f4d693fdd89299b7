// vsx expression layer: hash-consed bit-vector DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <cmath>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum K : uint8_t {
    CONST, VAR,
    ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, SLT, ITE, TABLE,
    // floating point on bit patterns (width 32 or 64)
    FADD, FSUB, FMUL, FDIV, FSQRT, FOEQ, FOLT, FOLE, FISNAN, FROUND,
    FFROMS, FFROMU, FTOS, FTOU, FCAST
};
static const char* kname[] = { "const","var","bvadd","bvsub","bvmul","bvudiv","bvsdiv","bvurem","bvsrem","bvand","bvor","bvxor","bvshl","bvlshr","bvashr",
    "concat","extract","zext","sext","=","bvult","bvslt","ite","table","fadd","fsub","fmul","fdiv","fsqrt","foeq","folt","fole","fisnan","fround","ffroms","ffromu","ftos","ftou","fcast" };

struct VarSet { std::vector<uint32_t> v; };

struct Node {
    K k; uint8_t w; uint16_t aux; uint32_t id;
    const Node* a; const Node* b; const Node* c;
    u128 val;          // CONST value, VAR index
    u128 lo, hi;       // unsigned range
    u128 kz;           // bits known zero
    const VarSet* vs;
    uint32_t leaves;   // number of constant leaves if a pure ITE tree with constant leaves, else 0
    mutable void* zbv; mutable void* zbool;
};
typedef const Node* E;

inline u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= mask(w); return (i128)((v ^ s) - s); }

struct VarInfo { std::string name; unsigned w; u128 lo, hi; bool dom; bool input; };

struct ExprCtx {
    bool poly = false; unsigned polyTab = 0;
    struct Key { K k; uint8_t w; uint16_t aux; E a, b, c; u128 val; };
    struct Hash { size_t operator()(Key const& x) const {
        uint64_t h = x.k * 0x9E3779B97F4A7C15ull + x.w * 0xC2B2AE3D27D4EB4Full + x.aux * 0x165667B19E3779F9ull;
        auto mix = [&](uint64_t v) { h ^= v; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix(x.a ? x.a->id + 1 : 0); mix(x.b ? x.b->id + 1 : 0); mix(x.c ? x.c->id + 1 : 0); mix((uint64_t)x.val); mix((uint64_t)(x.val >> 64));
        return h; } };
    struct Eqq { bool operator()(Key const& x, Key const& y) const { return x.k == y.k && x.w == y.w && x.aux == y.aux && x.a == y.a && x.b == y.b && x.c == y.c && x.val == y.val; } };
    std::unordered_map<Key, E, Hash, Eqq> tab;
    std::vector<Node*> blocks; size_t used = 4096; uint32_t nid = 1;
    std::vector<VarInfo> vars; std::vector<E> varE;
    VarSet empty;
    std::map<std::vector<uint32_t>, VarSet*> vsets;
    std::unordered_map<uint64_t, const VarSet*> vcache;

    std::vector<std::vector<u128>> tables; std::map<std::vector<uint64_t>, unsigned> tableIds;
    unsigned tableId(std::vector<u128> const& v) { std::vector<uint64_t> k; for (u128 x : v) { k.push_back((uint64_t)x); k.push_back((uint64_t)(x >> 64)); } auto it = tableIds.find(k); if (it != tableIds.end()) return it->second; unsigned id = (unsigned)tables.size(); tables.push_back(v); tableIds[k] = id; return id; }
    Node* alloc() { if (used == 4096) { blocks.push_back((Node*)calloc(4096, sizeof(Node))); used = 0; } return &blocks.back()[used++]; }
    std::unordered_map<const VarSet*, uint32_t> vsid;
    const VarSet* intern(std::vector<uint32_t> v) { if (v.empty()) return &empty; auto it = vsets.find(v); if (it != vsets.end()) return it->second; auto* s = new VarSet{ v }; vsets[v] = s; vsid[s] = (uint32_t)vsid.size() + 1; return s; }
    const VarSet* unite(const VarSet* a, const VarSet* b) {
        if (a == b || b->v.empty()) return a; if (a->v.empty()) return b;
        uint32_t ia = vsid[a], ib = vsid[b]; if (ia > ib) std::swap(ia, ib);
        uint64_t key = ((uint64_t)ia << 32) | ib; auto it = vcache.find(key); if (it != vcache.end()) return it->second;
        std::vector<uint32_t> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
        auto* s = intern(r); vcache[key] = s; return s;
    }
    E mk(K k, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, u128 val = 0, unsigned aux = 0);
};
extern ExprCtx X;

inline bool isC(E e) { return e->k == CONST; }
inline bool isC(E e, u128 v) { return e->k == CONST && e->val == v; }
inline bool isAllOnes(E e) { return e->k == CONST && e->val == mask(e->w); }

E mkConst(u128 v, unsigned w);
E mkVar(std::string const& name, unsigned w, bool input = false, bool dom = false, u128 lo = 0, u128 hi = 0);
E mkBin(K k, E a, E b);
E tabBool(E c);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkTable(E idx, std::vector<u128> const& vals, unsigned w); // value vals[idx]; idx < vals.size() is the caller's duty

inline E mkNot(E a) { return mkBin(XOR, mkConst(mask(a->w), a->w), a); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkEq(E a, E b) { return mkBin(EQ, a, b); }
inline E mkUlt(E a, E b) { return mkBin(ULT, a, b); }
inline E mkUle(E a, E b) { return mkNot(mkBin(ULT, b, a)); }
inline E mkSlt(E a, E b) { return mkBin(SLT, a, b); }
inline E mkSle(E a, E b) { return mkNot(mkBin(SLT, b, a)); }
inline E mkAdd(E a, E b) { return mkBin(ADD, a, b); }
inline E mkSub(E a, E b) { return mkBin(SUB, a, b); }
inline E mkAnd(E a, E b) { return mkBin(AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(OR, a, b); }
inline u128 tabAt(E t, u128 i) { auto& v = X.tables[t->aux]; return i < v.size() ? v[(size_t)i] : v.back(); }
E mkF(K k, unsigned w, E a, E b = nullptr, unsigned aux = 0);

u128 foldBin(K k, u128 a, u128 b, unsigned w);
u128 foldF(K k, unsigned w, unsigned aux, unsigned aw, u128 a, u128 b);

struct Model {
    std::unordered_map<uint32_t, u128> vals;
    mutable std::unordered_map<uint32_t, u128> memo;
    u128 var(uint32_t i) const { auto it = vals.find(i); if (it != vals.end()) return it->second; auto& v = X.vars[i]; return v.dom ? v.lo : 0; }
    u128 eval(E e) const;
};
typedef std::shared_ptr<const Model> ModelP;
