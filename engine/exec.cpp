// vsx: symbolic executor for LLVM 18 IR. See /verif/DESIGN.md.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <pthread.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>

using namespace llvm;
typedef std::string Str;

struct Val { E e = nullptr; std::shared_ptr<std::vector<Val>> agg; };

struct Obj { uint64_t base = 0, size = 0; bool ro = false, heap = false, stack = false, dead = false; Str name; std::vector<E> bytes; };
typedef std::shared_ptr<Obj> ObjP;

struct FnInfo { Function* f; std::unordered_map<const Value*, unsigned> slot; unsigned n = 0; };

struct Frame
{
    FnInfo* fi = nullptr; std::vector<Val> regs; BasicBlock* bb = nullptr; BasicBlock* prev = nullptr; BasicBlock::iterator ip;
    std::vector<uint64_t> allocas; uint64_t sp0 = 0; std::vector<Val> varargs; bool noret = false;
};
typedef std::shared_ptr<Frame> FrameP;

struct Thread { std::vector<FrameP> st; bool done = false; bool joining = false; E waitAddr = nullptr; uint64_t sp = 0; };

struct State
{
    std::vector<Thread> th; unsigned cur = 0;
    std::map<uint64_t, ObjP> mem;
    std::vector<E> pc; std::unordered_set<E> pcset;
    ModelP model;
    std::vector<E> inputs; std::vector<E> obs;
    uint64_t heap = 0; uint64_t steps = 0; unsigned forks = 0; unsigned switches = 0; unsigned maxSwitches = 1000000;
    bool forkIndex = false; bool noYield = false; uint64_t checks = 0;
};
typedef std::unique_ptr<State> StateP;

struct Violation { Str label, kind, loc; std::vector<u128> inputs; std::vector<Str> names; };
struct TestCase { std::vector<u128> inputs; std::vector<uint64_t> obs; };

struct Terminate { Str why; };

struct Options { Str file, entry, out; double timeLimit = 600; uint64_t maxSteps = 20000000; unsigned maxViol = 4; unsigned tests = 24; unsigned maxSwitches = 1000; uint64_t seed = 1; bool trace = false, direct = false, merge = false, fresh = false; double maxQuery = 300; double quickMs = 4000; Str tmp = "/tmp"; };
static Options opt;

static Str esc(Str const& s) { Str r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static Str dec(u128 v) { if (!v) return "0"; Str r; while (v) { r += char('0' + (int)(v % 10)); v /= 10; } std::reverse(r.begin(), r.end()); return r; }

struct Exec
{
    LLVMContext C; std::unique_ptr<Module> M; const DataLayout* DL = nullptr; Solver S;
    std::unordered_map<const Function*, FnInfo*> fns;
    std::unordered_map<const GlobalVariable*, uint64_t> gaddr; std::unordered_map<const Function*, uint64_t> faddr; std::unordered_map<uint64_t, Function*> addrf;
    std::vector<StateP> work;
    double t0; bool timeout = false;
    uint64_t nPaths = 0, nPruned = 0, nForks = 0, nSteps = 0, nChecks = 0, nCheckQ = 0, fresh = 0, maxDepth = 0, nNonTerm = 0, nUnknown = 0;
    std::map<Str, std::pair<uint64_t, uint64_t>> labels; // label -> (reached, discharged by solver)
    std::map<Str, uint64_t> covers; std::set<Str> staticLabels, staticCovers;
    std::vector<Violation> viol; std::vector<TestCase> tests; std::map<Str, unsigned> violCount;
    std::vector<Str> errors; std::set<const Function*> executed; std::set<Str> stubs;
    uint64_t rng = 88172645463325252ull; uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

    //---- helpers
    [[noreturn]] void term(Str why) { throw Terminate{ why }; }
    [[noreturn]] void unsupported(Str what, Instruction* i = nullptr) { Str s = "unsupported: " + what; if (i) s += " at " + loc(i); errors.push_back(s); throw Terminate{ "error" }; }

    Str loc(Instruction* i)
    {
        if (auto& d = i->getDebugLoc()) { const DILocation* l = d.get(); Str s = l->getFilename().str() + ":" + std::to_string(l->getLine()); if (auto* ia = l->getInlinedAt()) { while (ia->getInlinedAt()) ia = ia->getInlinedAt(); s += " (from " + ia->getFilename().str() + ":" + std::to_string(ia->getLine()) + ")"; } return s; }
        return i->getFunction()->getName().str();
    }
    FnInfo* info(Function* f)
    {
        auto& p = fns[f]; if (p) return p; p = new FnInfo; p->f = f;
        for (auto& a : f->args()) p->slot[&a] = p->n++;
        for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++;
        return p;
    }
    E freshVar(unsigned w, Str nm) { ++fresh; return mkVar(nm, w); }

    //---- objects
    ObjP findObj(State& s, uint64_t a)
    {
        auto it = s.mem.upper_bound(a); if (it == s.mem.begin()) return nullptr; --it;
        ObjP o = it->second; if (a <= o->base + o->size) return o; return nullptr;
    }
    Obj* writable(State& s, ObjP const& o) { auto it = s.mem.find(o->base); if (it->second.use_count() > 2) it->second = std::make_shared<Obj>(*it->second); return it->second.get(); }
    E byteAt(State& s, ObjP& o, uint64_t i)
    {
        E b = o->bytes[i]; if (b) return b;
        E v = freshVar(8, "uninit_" + o->name + "_" + std::to_string(i));
        auto it = s.mem.find(o->base); if (it->second.use_count() > 2 || it->second != o) { it->second = std::make_shared<Obj>(*it->second); } o = it->second; o->bytes[i] = v; return v;
    }
    ObjP newObj(State& s, uint64_t base, uint64_t size, Str name) { auto o = std::make_shared<Obj>(); o->base = base; o->size = size; o->name = name; o->bytes.assign(size, nullptr); s.mem[base] = o; return o; }

    //---- solver front
    std::vector<E> slice(State& s, E q)
    {
        std::vector<E> r; std::vector<char> used(s.pc.size(), 0); std::vector<uint32_t> vs = q->vs->v; bool ch = true;
        std::unordered_set<uint32_t> set(vs.begin(), vs.end());
        while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); ++i) if (!used[i]) { bool hit = false; for (auto v : s.pc[i]->vs->v) if (set.count(v)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; r.push_back(s.pc[i]); for (auto v : s.pc[i]->vs->v) set.insert(v); } } }
        return r;
    }
    // is (pc && q) satisfiable; on SAT m receives a full model
    Res sat(State& s, E q, ModelP& m)
    {
        if (isC(q)) { if (q->val) { m = s.model; return SAT; } return UNSAT; }
        if (s.model->eval(q)) { m = s.model; ++S.st.modelHits; return SAT; }
        if (s.pcset.count(q)) { m = s.model; return SAT; }
        if (s.pcset.count(mkNot(q))) return UNSAT;
        std::vector<E> cs = slice(s, q); cs.push_back(q);
        std::vector<std::pair<uint32_t, u128>> asg; Res r = S.check(cs, &asg);
        if (r == SAT) { auto mm = std::make_shared<Model>(); mm->vals = s.model->vals; for (auto& p : asg) mm->vals[p.first] = p.second; m = mm; }
        if (r == UNKNOWN) { ++nUnknown; errors.push_back("solver gave no answer within the limit"); }
        if (now() - t0 > opt.timeLimit) { timeout = true; }
        return r;
    }
    void addPC(State& s, E c)
    {
        if (isC(c)) return; if (c->k == AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
        if (c->k == XOR && isC(c->a, 1) && c->b->k == OR && c->b->w == 1) { addPC(s, mkNot(c->b->a)); addPC(s, mkNot(c->b->b)); return; }
        if (s.pcset.insert(c).second) s.pc.push_back(c);
    }
    StateP clone(State& s) { auto n = std::make_unique<State>(s); ++nForks; ++n->forks; return n; }

    void violation(State& s, Str label, Str kind, ModelP m, Instruction* i)
    {
        if (violCount[label + kind + (i ? loc(i) : "")]++ >= 2) return;
        Violation v; v.label = label; v.kind = kind; v.loc = i ? loc(i) : ""; for (E e : s.inputs) { v.inputs.push_back(m->eval(e)); v.names.push_back(e->k == VAR ? X.vars[(size_t)e->val].name : e->k == ZEXT && e->a->k == VAR ? X.vars[(size_t)e->a->val].name : "?"); }
        viol.push_back(v);
        if (opt.trace) fprintf(stderr, "violation %s %s %s\n", label.c_str(), kind.c_str(), v.loc.c_str());
    }

    //---- decide a boolean in state s; fork the other side via cb(clone)
    // returns the branch taken by s. `other` receives the sibling (already constrained) if feasible.
    bool decide(State& s, E c, StateP& other)
    {
        other = nullptr; c = tabBool(c); if (isC(c)) return c->val != 0;
        bool v = s.model->eval(c) != 0; E neg = v ? mkNot(c) : c; E pos = v ? c : mkNot(c);
        if (s.pcset.count(pos)) return v;
        ModelP m; Res r = sat(s, neg, m);
        if (r == SAT) { other = clone(s); addPC(*other, neg); other->model = m; addPC(s, pos); }
        return v;
    }
    // make e constant in this state; other values are explored by re-executing the current instruction
    u128 concretize(State& s, E e)
    {
        if (isC(e)) return e->val;
        u128 v = s.model->eval(e); E eq = mkEq(mkConst(v, e->w), e); StateP o;
        decide(s, eq, o); if (o) work.push_back(std::move(o));
        return v;
    }

    //---- memory access
    struct Ref { ObjP o; E off; };
    Ref resolve(State& s, E addr, uint64_t n, bool write, Instruction* I)
    {
        u128 a = s.model->eval(addr); ObjP o = findObj(s, (uint64_t)a);
        auto bad = [&](Str kind) { violation(s, "memory-safety", kind, s.model, I); term("violation"); };
        if (!o) bad(a < 4096 ? "null pointer access" : "out-of-bounds access");
        E off = mkSub(addr, mkConst(o->base, 64));
        bool okc = isC(off); 
        if (okc) { if (off->val > o->size || n > o->size - off->val) bad("out-of-bounds access of " + o->name); }
        else if (o->size >= n && off->hi <= o->size - n) {}
        else
        {
            E in = o->size >= n ? mkUle(off, mkConst(o->size - n, 64)) : mkFalse();
            StateP other; bool v = decide(s, in, other);
            if (other) work.push_back(std::move(other));
            if (!v) bad("out-of-bounds access of " + o->name);
        }
        if (o->dead) bad("use after free");
        if (write && o->ro) bad("write to constant " + o->name);
        return { o, off };
    }
    void cands(E off, uint64_t maxoff, std::vector<uint64_t>& out)
    {
        uint64_t lo = (uint64_t)off->lo, hi = (uint64_t)std::min(off->hi, (u128)maxoff); uint64_t kz = (uint64_t)off->kz;
        for (uint64_t i = lo; i <= hi; ++i) { if (i & kz) continue; out.push_back(i); if (i == UINT64_MAX) break; }
    }
    // is the table an affine function of the index bits over GF(2)?
    E affine(E off, std::vector<uint64_t> const& cs, std::vector<E> const& vals)
    {
        size_t n = cs.size(); if (n < 8 || (n & (n - 1))) return nullptr; unsigned k = 0; while ((1u << k) < n) ++k;
        for (E v : vals) if (!isC(v)) return nullptr;
        uint64_t stride = cs[1] - cs[0]; if (stride & (stride - 1)) return nullptr; if (cs[0] != 0) return nullptr; for (size_t i = 0; i < n; ++i) if (cs[i] != i * stride) return nullptr;
        u128 t0 = vals[0]->val; std::vector<u128> basis(k); for (unsigned b = 0; b < k; ++b) basis[b] = vals[1u << b]->val ^ t0;
        for (size_t i = 0; i < n; ++i) { u128 x = t0; for (unsigned b = 0; b < k; ++b) if ((i >> b) & 1) x ^= basis[b]; if (x != vals[i]->val) return nullptr; }
        unsigned sb = 0; while ((1ull << sb) < stride) ++sb; unsigned w = vals[0]->w;
        E r = mkConst(t0, w);
        for (unsigned b = 0; b < k; ++b) { E bit = mkExtract(off, sb + b, 1); r = mkBin(XOR, r, mkBin(AND, mkSExt(bit, w), mkConst(basis[b], w))); }
        return r;
    }
    E mux(E off, std::vector<uint64_t> const& cs, std::vector<E> const& vals, size_t lo, size_t hi, int bit)
    {
        if (hi - lo == 1) return vals[lo];
        bool same = true; for (size_t i = lo + 1; i < hi; ++i) if (vals[i] != vals[lo]) { same = false; break; } if (same) return vals[lo];
        while (bit >= 0) { bool z = (cs[lo] >> bit) & 1, z2 = (cs[hi - 1] >> bit) & 1; if (z != z2) break; --bit; }
        size_t m = lo; while (m < hi && !((cs[m] >> bit) & 1)) ++m;
        return mkIte(mkExtract(off, bit, 1), mux(off, cs, vals, m, hi, bit - 1), mux(off, cs, vals, lo, m, bit - 1));
    }
    E readRef(State& s, Ref r, uint64_t n)
    {
        if (isC(r.off))
        {
            uint64_t o = (uint64_t)r.off->val; E v = byteAt(s, r.o, o); for (uint64_t i = 1; i < n; ++i) v = mkConcat(byteAt(s, r.o, o + i), v); return v;
        }
        if (s.forkIndex) { u128 v = concretize(s, r.off); return readRef(s, { r.o, mkConst(v, 64) }, n); }
        if (r.off->k == ADD && isC(r.off->a)) { E b = r.off->b; unsigned tz = 0; while (tz < 16 && ((b->kz >> tz) & 1)) ++tz; if (tz && r.off->a->val < ((u128)1 << tz)) r.off = mkConcat(mkExtract(b, tz, 64 - tz), mkConst(r.off->a->val, tz)); }
        std::vector<uint64_t> cs; cands(r.off, r.o->size - n, cs);
        if (cs.size() > 8192) { u128 v = concretize(s, r.off); return readRef(s, { r.o, mkConst(v, 64) }, n); }
        std::vector<E> vals; for (auto c : cs) { E v = byteAt(s, r.o, c); for (uint64_t i = 1; i < n; ++i) v = mkConcat(byteAt(s, r.o, c + i), v); vals.push_back(v); }
        if (cs.empty()) term("infeasible");
        bool allc = cs.size() >= 3; for (E v : vals) allc = allc && isC(v);
        if (allc && cs.back() < (1u << 20))
        {
            unsigned sh = 0; while (sh < 12 && isC(mkExtract(r.off, sh, 1))) ++sh; uint64_t lowc = sh ? (uint64_t)mkExtract(r.off, 0, sh)->val : 0; uint64_t n = (cs.back() >> sh) + 1; 
            if (n <= 4096) { std::vector<u128> tv((size_t)n, vals[0]->val); for (size_t i = 0; i < cs.size(); ++i) if ((cs[i] & mask(sh)) == lowc) tv[(size_t)(cs[i] >> sh)] = vals[i]->val; unsigned nb = 1; while (nb < 40 && (n - 1) >> nb) ++nb; unsigned ib = std::max(nb, 1u); 
              // index bits beyond the table are impossible here (in-bounds was established)
              return mkTable(mkExtract(r.off, sh, std::min(ib, 64 - sh)), tv, vals[0]->w); }
        }
        if (E a = affine(r.off, cs, vals)) return a;
        return mux(r.off, cs, vals, 0, cs.size(), 63);
    }
    void writeRef(State& s, Ref r, E v)
    {
        uint64_t n = v->w / 8;
        if (!isC(r.off) && s.forkIndex) { u128 c = concretize(s, r.off); r.off = mkConst(c, 64); }
        if (isC(r.off)) { Obj* o = writable(s, r.o); uint64_t b = (uint64_t)r.off->val; for (uint64_t i = 0; i < n; ++i) o->bytes[b + i] = mkExtract(v, (unsigned)(8 * i), 8); return; }
        std::vector<uint64_t> cs; cands(r.off, r.o->size - n, cs);
        if (cs.size() > 2048) { u128 c = concretize(s, r.off); return writeRef(s, { r.o, mkConst(c, 64) }, v); }
        // materialise uninitialised bytes first
        for (auto c : cs) for (uint64_t i = 0; i < n; ++i) byteAt(s, r.o, c + i);
        Obj* o = writable(s, r.o); std::vector<E> old = o->bytes;
        for (auto c : cs) { E eq = mkEq(mkConst(c, 64), r.off); if (isC(eq, 0)) continue; for (uint64_t i = 0; i < n; ++i) o->bytes[c + i] = mkIte(eq, mkExtract(v, (unsigned)(8 * i), 8), o->bytes[c + i]); }
    }
    E read(State& s, E addr, uint64_t n, Instruction* I) { return readRef(s, resolve(s, addr, n, false, I), n); }
    void write(State& s, E addr, E v, Instruction* I) { writeRef(s, resolve(s, addr, v->w / 8, true, I), v); }

    //---- typed values
    unsigned bits(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; Str s; raw_string_ostream os(s); t->print(os); unsupported("type " + os.str()); }
    bool scalar(Type* t) { return t->isPointerTy() || t->isIntegerTy() || t->isFloatTy() || t->isDoubleTy(); }
    unsigned aggN(Type* t) { if (auto* st = dyn_cast<StructType>(t)) return st->getNumElements(); if (auto* at = dyn_cast<ArrayType>(t)) return (unsigned)at->getNumElements(); if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements(); unsupported("aggregate"); }
    Type* aggT(Type* t, unsigned i) { if (auto* st = dyn_cast<StructType>(t)) return st->getElementType(i); if (auto* at = dyn_cast<ArrayType>(t)) return at->getElementType(); return cast<FixedVectorType>(t)->getElementType(); }
    uint64_t aggOff(Type* t, unsigned i) { if (auto* st = dyn_cast<StructType>(t)) return DL->getStructLayout(st)->getElementOffset(i); if (auto* at = dyn_cast<ArrayType>(t)) return i * DL->getTypeAllocSize(at->getElementType()); return i * (bits(cast<FixedVectorType>(t)->getElementType()) / 8); }
    Val loadT(State& s, E addr, Type* t, Instruction* I)
    {
        Val v;
        if (scalar(t)) { unsigned w = bits(t), n = (w + 7) / 8; E e = read(s, addr, n, I); v.e = mkExtract(e, 0, w); return v; }
        v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < aggN(t); ++i) v.agg->push_back(loadT(s, mkAdd(mkConst(aggOff(t, i), 64), addr), aggT(t, i), I)); return v;
    }
    void storeT(State& s, E addr, Val const& v, Type* t, Instruction* I)
    {
        if (scalar(t)) { unsigned w = bits(t), n = (w + 7) / 8; write(s, addr, mkZExt(v.e, n * 8), I); return; }
        for (unsigned i = 0; i < aggN(t); ++i) storeT(s, mkAdd(mkConst(aggOff(t, i), 64), addr), (*v.agg)[i], aggT(t, i), I);
    }
    Val zeroT(Type* t) { Val v; if (scalar(t)) { v.e = mkConst(0, bits(t)); return v; } v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < aggN(t); ++i) v.agg->push_back(zeroT(aggT(t, i))); return v; }
    Val undefT(Type* t) { Val v; if (scalar(t)) { v.e = freshVar(bits(t), "undef"); return v; } v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < aggN(t); ++i) v.agg->push_back(undefT(aggT(t, i))); return v; }
    E ci(APInt const& a) { u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; return mkConst(v, a.getBitWidth()); }
    Val mkV(E e) { Val v; v.e = e; return v; }

    std::unordered_map<const Constant*, Val> ccache;
    Val constant(Constant* c)
    {
        auto it = ccache.find(c); if (it != ccache.end()) return it->second;
        Val v = constant0(c); if (!isa<UndefValue>(c)) ccache[c] = v; return v;
    }
    Val constant0(Constant* c)
    {
        if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 128) unsupported("wide int"); return mkV(ci(i->getValue())); }
        if (auto* f = dyn_cast<ConstantFP>(c)) { if (!scalar(c->getType())) unsupported("fp type"); return mkV(ci(f->getValueAPF().bitcastToAPInt())); }
        if (isa<ConstantPointerNull>(c)) return mkV(mkConst(0, 64));
        if (isa<UndefValue>(c)) return undefT(c->getType());
        if (isa<ConstantAggregateZero>(c)) return zeroT(c->getType());
        if (auto* d = dyn_cast<ConstantDataSequential>(c)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < d->getNumElements(); ++i) v.agg->push_back(constant(d->getElementAsConstant(i))); return v; }
        if (auto* a = dyn_cast<ConstantAggregate>(c)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (auto& o : a->operands()) v.agg->push_back(constant(cast<Constant>(o.get()))); return v; }
        if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) unsupported("external global " + g->getName().str()); return mkV(mkConst(it->second, 64)); }
        if (auto* f = dyn_cast<Function>(c)) return mkV(mkConst(faddr[f], 64));
        if (auto* a = dyn_cast<GlobalAlias>(c)) return constant(a->getAliasee());
        if (auto* e = dyn_cast<ConstantExpr>(c))
        {
            if (auto* g = dyn_cast<GEPOperator>(e)) return mkV(gep(g, [&](Value* v) { return constant(cast<Constant>(v)).e; }));
            switch (e->getOpcode())
            {
            case Instruction::BitCast: case Instruction::AddrSpaceCast: return constant(e->getOperand(0));
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: { E x = constant(e->getOperand(0)).e; unsigned w = bits(e->getType()); return mkV(w <= x->w ? mkExtract(x, 0, w) : mkZExt(x, w)); }
            case Instruction::Add: return mkV(mkAdd(constant(e->getOperand(0)).e, constant(e->getOperand(1)).e));
            case Instruction::Sub: return mkV(mkSub(constant(e->getOperand(0)).e, constant(e->getOperand(1)).e));
            default: break;
            }
        }
        Str s; raw_string_ostream os(s); c->print(os); unsupported("constant " + os.str());
    }
    template<class F> E gep(GEPOperator* g, F val)
    {
        E p = val(g->getPointerOperand()); if (!p) unsupported("vector gep");
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
        {
            Value* ix = it.getOperand();
            if (StructType* st = it.getStructTypeOrNull()) { p = mkAdd(mkConst(DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()), 64), p); continue; }
            uint64_t sz = it.getSequentialElementStride(*DL); E i = val(ix); i = i->w < 64 ? mkSExt(i, 64) : mkExtract(i, 0, 64);
            p = mkAdd(p, mkBin(MUL, mkConst(sz, 64), i));
        }
        return p;
    }

    //---- frames
    Frame& top(State& s) { auto& f = s.th[s.cur].st.back(); if (f.use_count() > 1) f = std::make_shared<Frame>(*f); return *f; }
    Val val(State& s, Value* v)
    {
        if (auto* c = dyn_cast<Constant>(v)) return constant(c);
        auto& f = *s.th[s.cur].st.back(); auto it = f.fi->slot.find(v); if (it == f.fi->slot.end()) { Str t; raw_string_ostream os(t); v->print(os); unsupported("value " + os.str()); }
        Val r = f.regs[it->second]; return r;
    }
    E ve(State& s, Value* v) { return val(s, v).e; }
    void set(State& s, Instruction* i, Val v) { if (i->getType()->isVoidTy()) return; auto& f = top(s); f.regs[f.fi->slot[i]] = v; }
    void setE(State& s, Instruction* i, E e) { set(s, i, mkV(e)); }

    void jump(State& s, BasicBlock* b)
    {
        auto& f = top(s); f.prev = f.bb; f.bb = b; f.ip = b->begin();
        std::vector<std::pair<PHINode*, Val>> ph; for (auto& i : *b) { auto* p = dyn_cast<PHINode>(&i); if (!p) break; ph.push_back({ p, val(s, p->getIncomingValueForBlock(f.prev)) }); }
        for (auto& p : ph) { auto& ff = top(s); ff.regs[ff.fi->slot[p.first]] = p.second; }
        auto& g = top(s); while (isa<PHINode>(&*g.ip)) ++g.ip;
    }
    void push(State& s, Function* f, std::vector<Val> args)
    {
        if (s.th[s.cur].st.size() > 600) { errors.push_back("call depth limit"); term("error"); }
        executed.insert(f); auto fr = std::make_shared<Frame>(); fr->fi = info(f); fr->regs.resize(fr->fi->n); fr->bb = &f->getEntryBlock(); fr->ip = fr->bb->begin(); fr->sp0 = s.th[s.cur].sp;
        unsigned i = 0; for (auto& a : f->args()) { if (i < args.size()) fr->regs[fr->fi->slot[&a]] = args[i]; ++i; }
        for (; i < args.size(); ++i) fr->varargs.push_back(args[i]);
        s.th[s.cur].st.push_back(fr);
    }
    void pop(State& s, Val rv)
    {
        auto& t = s.th[s.cur]; { auto& f = *t.st.back(); for (auto a : f.allocas) s.mem.erase(a); t.sp = f.sp0; }
        bool nr = t.st.back()->noret; t.st.pop_back(); if (t.st.empty()) { t.done = true; return; }
        if (nr) return;
        auto& f = top(s); Instruction* ci = &*f.ip; if (!ci->getType()->isVoidTy()) set(s, ci, rv); ++top(s).ip;
    }

    Str cstr(State& s, E p)
    {
        if (!isC(p)) return "?"; ObjP o = findObj(s, (uint64_t)p->val); Str r; if (!o) return "?"; for (uint64_t i = (uint64_t)p->val - o->base; i < o->size; ++i) { E b = o->bytes[i]; if (!b || !isC(b) || !b->val) break; r += (char)b->val; } return r;
    }

#include "instr.inc"

    //---- top level
    void checkCond(State& s, E c, Str label, Instruction* I)
    {
        if (c->w != 1) c = mkNot(mkEq(mkConst(0, c->w), c));
        c = tabBool(c); ++nChecks; ++s.checks; auto& L = labels[label]; ++L.first;
        if (isC(c)) { if (!c->val) { violation(s, label, "assertion", s.model, I); term("violation"); } ++L.second; return; }
        ModelP m; ++nCheckQ; Res r = sat(s, mkNot(c), m);
        if (r == SAT) { violation(s, label, "assertion", m, I); ModelP m2; if (viol.size() < opt.maxViol * 4 && sat(s, c, m2) == SAT) { s.model = m2; addPC(s, c); return; } term("violation"); }
        if (r == UNSAT) ++L.second; 
        addPC(s, c);
    }
    void assume(State& s, E c)
    {
        if (c->w != 1) c = mkNot(mkEq(mkConst(0, c->w), c));
        c = tabBool(c); if (isC(c)) { if (!c->val) term("pruned"); return; }
        ModelP m; Res r = sat(s, c, m); if (r != SAT) { term(r == UNSAT ? "pruned" : "error"); } s.model = m; addPC(s, c);
    }

    void finish(State& s)
    {
        ++nPaths; maxDepth = std::max<uint64_t>(maxDepth, s.forks);
        TestCase t; for (E e : s.inputs) t.inputs.push_back(s.model->eval(e)); for (E e : s.obs) t.obs.push_back((uint64_t)s.model->eval(e));
        if (tests.size() < opt.tests) tests.push_back(t); else { uint64_t k = rnd() % nPaths; if (k < opt.tests) tests[k] = t; }
    }

    void scanLabels(Function* f, std::set<Function*>& seen)
    {
        if (!seen.insert(f).second) return;
        for (auto& b : *f) for (auto& i : b)
        {
            auto* c = dyn_cast<CallBase>(&i); if (!c) { for (auto& o : i.operands()) if (auto* g = dyn_cast<Function>(o.get())) if (!g->isDeclaration()) scanLabels(g, seen); continue; }
            for (auto& o : c->operands()) if (auto* g = dyn_cast<Function>(o.get())) if (!g->isDeclaration()) scanLabels(g, seen);
            Function* cf = c->getCalledFunction(); if (!cf) continue; StringRef n = cf->getName();
            if (n == "vs_check" || n == "vs_cover") { Value* a = c->getArgOperand(n == "vs_check" ? 1 : 0); StringRef str; if (auto* g = dyn_cast<GlobalVariable>(a->stripPointerCasts())) if (g->hasInitializer()) if (auto* d = dyn_cast<ConstantDataArray>(g->getInitializer())) if (d->isCString()) (n == "vs_check" ? staticLabels : staticCovers).insert(d->getAsCString().str()); }
        }
    }

    void initMem(State& s)
    {
        uint64_t a = 0x700000000000ull; uint64_t fa = 0x400000;
        for (auto& f : *M) { faddr[&f] = fa; addrf[fa] = &f; fa += 16; }
        for (auto& g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; uint64_t sz = DL->getTypeAllocSize(g.getValueType()); if (g.isDeclaration()) { continue; } a = (a + 63) & ~63ull; gaddr[&g] = a; a += sz + 64; }
        for (auto& g : M->globals()) { auto it = gaddr.find(&g); if (it == gaddr.end()) continue; ObjP o = newObj(s, it->second, DL->getTypeAllocSize(g.getValueType()), g.getName().str()); initBytes(o, 0, g.getInitializer()); o->ro = g.isConstant(); }
        s.heap = (a + 0xfffff) & ~0xfffffull; 
    }
    void initBytes(ObjP o, uint64_t off, Constant* c)
    {
        Type* t = c->getType();
        if (scalar(t)) { E e = constant(c).e; unsigned n = (bits(t) + 7) / 8; e = mkZExt(e, n * 8); for (unsigned i = 0; i < n; ++i) o->bytes[off + i] = mkExtract(e, 8 * i, 8); return; }
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { uint64_t n = DL->getTypeAllocSize(t); for (uint64_t i = 0; i < n; ++i) o->bytes[off + i] = mkConst(0, 8); return; }
        uint64_t n = DL->getTypeAllocSize(t); for (uint64_t i = 0; i < n; ++i) if (!o->bytes[off + i]) o->bytes[off + i] = mkConst(0, 8);
        for (unsigned i = 0; i < aggN(t); ++i) initBytes(o, off + aggOff(t, i), c->getAggregateElement(i));
    }

    void runState(StateP sp)
    {
        State& s = *sp;
        try
        {
            while (true)
            {
                auto& T = s.th[s.cur];
                if (T.done) { if (s.cur == 0) { finish(s); return; } yieldFrom(s, true); continue; }
                Instruction* I = &*T.st.back()->ip;
                ++nSteps; if (++s.steps > opt.maxSteps) { ++nNonTerm; violation(s, "termination", "instruction limit", s.model, I); term("limit"); }
                if ((nSteps & 1023) == 0 && now() - t0 > opt.timeLimit) { timeout = true; return; }
                step(s, I);
            }
        }
        catch (Terminate& t) { ++nPruned; if (t.why == "pruned") {} if (opt.trace && t.why != "pruned") fprintf(stderr, "terminated: %s\n", t.why.c_str()); }
    }

    int main()
    {
        t0 = now(); SMDiagnostic d; M = parseIRFile(opt.file, d, C); if (!M) { d.print("vsx", errs()); return 3; }
        DL = &M->getDataLayout(); S.maxQuery = opt.maxQuery; S.quickMs = opt.quickMs; S.tmpdir = opt.tmp; S.directArith = opt.direct; S.fresh = opt.fresh; S.resetIncremental(); rng ^= opt.seed * 0x9E3779B97F4A7C15ull;
        Function* f = M->getFunction(opt.entry); if (!f || f->isDeclaration()) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
        { std::set<Function*> seen; scanLabels(f, seen); }
        auto s = std::make_unique<State>(); s->model = std::make_shared<Model>(); s->th.resize(1); s->th[0].sp = 0x7f0000000000ull;
        try { initMem(*s);
            // static constructors, executed before the entry
            push(*s, f, {});
            if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* a = dyn_cast<ConstantArray>(g->getInitializer())) for (unsigned i = a->getNumOperands(); i--;) if (auto* cf = dyn_cast<Function>(a->getOperand(i)->getAggregateElement(1u))) { push(*s, cf, {}); s->th[0].st.back()->noret = true; }
        } catch (Terminate&) { dump(); return 3; }
        work.push_back(std::move(s));
        while (!work.empty() && !timeout && viol.size() < opt.maxViol && errors.size() < 20) { StateP w = std::move(work.back()); work.pop_back(); runState(std::move(w)); }
        dump(); return 0;
    }

    void dump()
    {
        bool stopped = timeout || !work.empty();
        Str st = !viol.empty() ? "violation" : (!errors.empty() || stopped || nUnknown) ? "incomplete" : "ok";
        if (timeout) errors.push_back("time limit");
        std::set<Str> fnsIn; for (auto* f : executed) { if (auto* sp = f->getSubprogram()) note(sp, fnsIn); for (auto& b : *f) for (auto& i : b) if (auto& d = i.getDebugLoc()) for (const DILocation* l = d.get(); l; l = l->getInlinedAt()) note(l->getScope()->getSubprogram(), fnsIn); }
        FILE* o = fopen(opt.out.c_str(), "w"); if (!o) { perror("out"); return; }
        fprintf(o, "{\"entry\":\"%s\",\"status\":\"%s\",\"paths\":%llu,\"ended\":%llu,\"forks\":%llu,\"steps\":%llu,\"max_fork_depth\":%llu,\"checks\":%llu,\"check_queries\":%llu,\"unknown\":%llu,\"nonterm\":%llu,\n", opt.entry.c_str(), st.c_str(), (unsigned long long)nPaths, (unsigned long long)nPruned, (unsigned long long)nForks, (unsigned long long)nSteps, (unsigned long long)maxDepth, (unsigned long long)nChecks, (unsigned long long)nCheckQ, (unsigned long long)nUnknown, (unsigned long long)nNonTerm);
        fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"portfolio\":%llu,\"portfolio_log\":\"%s\",\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"nodes\":%u,\n", (unsigned long long)S.st.queries, (unsigned long long)S.st.sat, (unsigned long long)S.st.unsat, (unsigned long long)S.st.cacheHits, (unsigned long long)S.st.modelHits, (unsigned long long)S.st.portfolio, esc(S.portfolioLog.substr(0, 2000)).c_str(), S.st.time, S.st.maxq, now() - t0, X.nid);
        fprintf(o, "\"labels\":{"); { bool c = false; for (auto& l : labels) { fprintf(o, "%s\"%s\":[%llu,%llu]", c ? "," : "", esc(l.first).c_str(), (unsigned long long)l.second.first, (unsigned long long)l.second.second); c = true; } }
        fprintf(o, "},\n\"covers\":{"); { bool c = false; for (auto& l : covers) { fprintf(o, "%s\"%s\":%llu", c ? "," : "", esc(l.first).c_str(), (unsigned long long)l.second); c = true; } }
        fprintf(o, "},\n\"unreached\":["); { bool c = false; for (auto& l : staticLabels) if (!labels.count(l)) { fprintf(o, "%s\"%s\"", c ? "," : "", esc(l).c_str()); c = true; } for (auto& l : staticCovers) if (!covers.count(l)) { fprintf(o, "%s\"cover:%s\"", c ? "," : "", esc(l).c_str()); c = true; } }
        fprintf(o, "],\n\"functions\":["); { bool c = false; for (auto& l : fnsIn) { fprintf(o, "%s\"%s\"", c ? "," : "", esc(l).c_str()); c = true; } }
        fprintf(o, "],\n\"errors\":["); { bool c = false; std::set<Str> es(errors.begin(), errors.end()); for (auto& l : es) { fprintf(o, "%s\"%s\"", c ? "," : "", esc(l).c_str()); c = true; } }
        fprintf(o, "],\n\"violations\":["); { bool c = false; for (auto& v : viol) { fprintf(o, "%s{\"label\":\"%s\",\"kind\":\"%s\",\"loc\":\"%s\",\"inputs\":[", c ? ",\n" : "", esc(v.label).c_str(), esc(v.kind).c_str(), esc(v.loc).c_str()); for (size_t i = 0; i < v.inputs.size(); ++i) fprintf(o, "%s[\"%s\",\"%s\"]", i ? "," : "", esc(v.names[i]).c_str(), dec(v.inputs[i]).c_str()); fprintf(o, "]}"); c = true; } }
        fprintf(o, "],\n\"tests\":["); { bool c = false; for (auto& v : tests) { fprintf(o, "%s{\"inputs\":[", c ? ",\n" : ""); for (size_t i = 0; i < v.inputs.size(); ++i) fprintf(o, "%s\"%s\"", i ? "," : "", dec(v.inputs[i]).c_str()); fprintf(o, "],\"obs\":["); for (size_t i = 0; i < v.obs.size(); ++i) fprintf(o, "%s\"%llu\"", i ? "," : "", (unsigned long long)v.obs[i]); fprintf(o, "]}"); c = true; } }
        fprintf(o, "]}\n"); fclose(o);
    }
    void note(const DISubprogram* sp, std::set<Str>& out) { if (!sp) return; Str file = sp->getFilename().str(); Str dir = sp->getDirectory().str(); if (file.find("/repo/") != Str::npos || (file[0] != '/' && dir.find("/repo") == 0) || file.find("/lib/h/ce/") != Str::npos || getenv("VSX_ALLFN")) { auto p = file.rfind('/'); out.insert((p == Str::npos ? file : file.substr(p + 1)) + ":" + sp->getName().str()); } }
};

#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
// turn every atomic operation of the code under test into a call of the memory model in rt/vs_atomic.cpp, and likewise
// the plain accesses through pointers in the repository's own functions
static int instrument(Str in, Str out, Str repo)
{
    LLVMContext C; SMDiagnostic d; auto M = parseIRFile(in, d, C); if (!M) { d.print("vsx", errs()); return 3; }
    auto& DL = M->getDataLayout(); Type* V = Type::getVoidTy(C); Type* P = PointerType::get(C, 0); Type* I64 = Type::getInt64Ty(C); Type* I32 = Type::getInt32Ty(C); unsigned n = 0, np = 0;
    auto ld = M->getOrInsertFunction("vs_at_load", I64, P, I32, I32), stf = M->getOrInsertFunction("vs_at_store", V, P, I32, I64, I32), rmw = M->getOrInsertFunction("vs_at_rmw", I64, P, I32, I32, I64, I32), cas = M->getOrInsertFunction("vs_at_cas", I64, P, I32, I64, I64, I32, I32, I32), fen = M->getOrInsertFunction("vs_at_fence", V, I32), pl = M->getOrInsertFunction("vs_at_plain_load", I64, P, I32), ps = M->getOrInsertFunction("vs_at_plain_store", V, P, I32, I64);
    auto* okv = M->getOrInsertGlobal("vs_at_ok", I32);
    for (auto& f : *M)
    {
        if (f.isDeclaration() || f.getName().starts_with("vs_")) continue;
        bool mine = false; if (auto* sp = f.getSubprogram()) { Str fn = sp->getFilename().str(), dir = sp->getDirectory().str(); mine = fn.compare(0, repo.size() + 1, repo + "/") == 0 || (!fn.empty() && fn[0] != '/' && dir.compare(0, repo.size(), repo) == 0); }
        std::vector<Instruction*> at; for (auto& b : f) for (auto& i : b) if (isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i) || isa<FenceInst>(i) || isa<LoadInst>(i) || isa<StoreInst>(i)) at.push_back(&i);
        for (auto* i : at)
        {
            IRBuilder<> B(i);
            auto c32 = [&](unsigned v) { return ConstantInt::get(I32, v); };
            auto size = [&](Type* t) { return (unsigned)DL.getTypeStoreSize(t); };
            auto up = [&](Value* v) -> Value* { Type* t = v->getType(); if (t->isPointerTy()) return B.CreatePtrToInt(v, I64); if (!t->isIntegerTy()) v = B.CreateBitCast(v, IntegerType::get(C, DL.getTypeSizeInBits(t))); return B.CreateZExtOrTrunc(v, I64); };
            auto down = [&](Value* v, Type* t) -> Value* { if (t->isPointerTy()) return B.CreateIntToPtr(v, t); Type* it = IntegerType::get(C, DL.getTypeSizeInBits(t)); v = B.CreateZExtOrTrunc(v, it); return t->isIntegerTy() ? v : B.CreateBitCast(v, t); };
            auto fits = [&](Type* t) { return (t->isIntegerTy() || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy()) && (size(t) == 1 || size(t) == 2 || size(t) == 4 || size(t) == 8); };
            auto local = [&](Value* p) { return isa<AllocaInst>(p->stripInBoundsOffsets()); };
            Value* r = nullptr;
            if (auto* a = dyn_cast<FenceInst>(i)) { if (a->getSyncScopeID() == SyncScope::SingleThread) { a->eraseFromParent(); continue; } B.CreateCall(fen, { c32((unsigned)a->getOrdering()) }); a->eraseFromParent(); ++n; continue; }
            if (auto* a = dyn_cast<AtomicRMWInst>(i)) { if (!fits(a->getType()) || a->getOperation() > AtomicRMWInst::UMin) continue; r = down(B.CreateCall(rmw, { a->getPointerOperand(), c32(size(a->getType())), c32(a->getOperation()), up(a->getValOperand()), c32((unsigned)a->getOrdering()) }), a->getType()); }
            else if (auto* a = dyn_cast<AtomicCmpXchgInst>(i))
            {
                Type* t = a->getCompareOperand()->getType(); if (!fits(t)) continue;
                Value* o = down(B.CreateCall(cas, { a->getPointerOperand(), c32(size(t)), up(a->getCompareOperand()), up(a->getNewValOperand()), c32((unsigned)a->getSuccessOrdering()), c32((unsigned)a->getFailureOrdering()), c32(a->isWeak()) }), t);
                Value* k = B.CreateTrunc(B.CreateLoad(I32, okv), Type::getInt1Ty(C)); r = B.CreateInsertValue(B.CreateInsertValue(PoisonValue::get(a->getType()), o, 0), k, 1);
            }
            else if (auto* a = dyn_cast<LoadInst>(i)) { Type* t = a->getType(); if (!fits(t)) continue; if (a->isAtomic()) r = down(B.CreateCall(ld, { a->getPointerOperand(), c32(size(t)), c32((unsigned)a->getOrdering()) }), t); else if (mine && !local(a->getPointerOperand())) { r = down(B.CreateCall(pl, { a->getPointerOperand(), c32(size(t)) }), t); --n; ++np; } else continue; }
            else if (auto* a = dyn_cast<StoreInst>(i)) { Type* t = a->getValueOperand()->getType(); if (!fits(t)) continue; if (a->isAtomic()) B.CreateCall(stf, { a->getPointerOperand(), c32(size(t)), up(a->getValueOperand()), c32((unsigned)a->getOrdering()) }); else if (mine && !local(a->getPointerOperand())) { B.CreateCall(ps, { a->getPointerOperand(), c32(size(t)), up(a->getValueOperand()) }); --n; ++np; } else continue; }
            if (r) i->replaceAllUsesWith(r);
            i->eraseFromParent(); ++n;
        }
    }
    std::error_code ec; raw_fd_ostream o(out, ec); if (ec) return 3; WriteBitcodeToFile(*M, o); fprintf(stderr, "instrumented %u atomic and %u plain accesses\n", n, np); return 0;
}
static Exec* gx; static int rc;
static void onAlarm(int) { }
static void* worker(void*) { gx = new Exec; rc = gx->main(); return nullptr; }

int main(int argc, char** argv)
{
    Str instr, repo = "/repo";
    for (int i = 1; i < argc; ++i)
    {
        Str a = argv[i]; if (a == "--instrument") { instr = argv[++i]; continue; } if (a == "--repo") { repo = argv[++i]; continue; } auto nx = [&] { return Str(argv[++i]); };
        if (a == "--entry") opt.entry = nx(); else if (a == "--out") opt.out = nx(); else if (a == "--time") opt.timeLimit = atof(nx().c_str()); else if (a == "--steps") opt.maxSteps = strtoull(nx().c_str(), 0, 10);
        else if (a == "--tests") opt.tests = atoi(nx().c_str()); else if (a == "--viol") opt.maxViol = atoi(nx().c_str()); else if (a == "--seed") opt.seed = atoi(nx().c_str()); else if (a == "--trace") opt.trace = true; else if (a == "--maxq") opt.maxQuery = atof(nx().c_str()); else if (a == "--quickms") opt.quickMs = atof(nx().c_str()); else if (a == "--direct") opt.direct = true; else if (a == "--merge") opt.merge = true; else if (a == "--poly") X.poly = true; else if (a == "--polytab") X.polyTab = atoi(nx().c_str()); else if (a == "--fresh") opt.fresh = true; else if (a == "--tmp") opt.tmp = nx(); else if (a == "--switches") opt.maxSwitches = atoi(nx().c_str());
        else opt.file = a;
    }
    signal(SIGPIPE, SIG_IGN); if (!instr.empty()) return instrument(instr, opt.out, repo);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)4 << 30); pthread_t t; if (pthread_create(&t, &at, worker, nullptr)) { perror("thread"); return 3; } pthread_join(t, nullptr);
    fflush(nullptr); _exit(rc);
}
