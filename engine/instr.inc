    // included inside struct Exec: instruction semantics

    E shiftE(State& s, K k, E a, E b)
    {
        unsigned w = a->w; E r = mkBin(k, a, b);
        if (b->hi < w) return r;
        // an over-wide shift is poison in LLVM: any value
        return mkIte(mkUlt(b, mkConst(w, w)), r, freshVar(w, "poison_shift"));
    }
    void divGuard(State& s, E b, Instruction* I)
    {
        if (b->lo > 0) return; E z = mkEq(mkConst(0, b->w), b); StateP o; bool v = decide(s, z, o);
        auto hit = [&](State& t) { violation(t, "undefined-behaviour", "division by zero", t.model, I); };
        if (v) { if (o) work.push_back(std::move(o)); hit(s); term("violation"); }
        if (o) hit(*o);
    }
    E binE(State& s, unsigned op, E a, E b, Instruction* I)
    {
        switch (op)
        {
        case Instruction::Add: return mkAdd(a, b); case Instruction::Sub: return mkSub(a, b); case Instruction::Mul: return mkBin(MUL, a, b);
        case Instruction::UDiv: divGuard(s, b, I); return mkBin(UDIV, a, b); case Instruction::SDiv: divGuard(s, b, I); return mkBin(SDIV, a, b);
        case Instruction::URem: divGuard(s, b, I); return mkBin(UREM, a, b); case Instruction::SRem: divGuard(s, b, I); return mkBin(SREM, a, b);
        case Instruction::And: return mkAnd(a, b); case Instruction::Or: return mkOr(a, b); case Instruction::Xor: return mkBin(XOR, a, b);
        case Instruction::Shl: return shiftE(s, SHL, a, b); case Instruction::LShr: return shiftE(s, LSHR, a, b); case Instruction::AShr: return shiftE(s, ASHR, a, b);
        case Instruction::FAdd: return mkF(FADD, a->w, a, b); case Instruction::FSub: return mkF(FSUB, a->w, a, b); case Instruction::FMul: return mkF(FMUL, a->w, a, b); case Instruction::FDiv: return mkF(FDIV, a->w, a, b);
        default: unsupported("binop", I);
        }
    }
    E icmpE(CmpInst::Predicate p, E a, E b)
    {
        switch (p)
        {
        case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
        case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_ULE: return mkUle(a, b); case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_UGE: return mkUle(b, a);
        case CmpInst::ICMP_SLT: return mkSlt(a, b); case CmpInst::ICMP_SLE: return mkSle(a, b); case CmpInst::ICMP_SGT: return mkSlt(b, a); case CmpInst::ICMP_SGE: return mkSle(b, a);
        default: break;
        }
        E nan = nullptr; auto N = [&] { return mkOr(mkF(FISNAN, 1, a), mkF(FISNAN, 1, b)); }; (void)nan;
        auto oeq = [&] { return mkF(FOEQ, 1, a, b); }; auto olt = [&](E x, E y) { return mkF(FOLT, 1, x, y); }; auto ole = [&](E x, E y) { return mkF(FOLE, 1, x, y); };
        switch (p)
        {
        case CmpInst::FCMP_FALSE: return mkFalse(); case CmpInst::FCMP_TRUE: return mkTrue();
        case CmpInst::FCMP_OEQ: return oeq(); case CmpInst::FCMP_UNE: return mkNot(oeq()); case CmpInst::FCMP_ONE: return mkAnd(mkNot(oeq()), mkNot(N())); case CmpInst::FCMP_UEQ: return mkOr(oeq(), N());
        case CmpInst::FCMP_OLT: return olt(a, b); case CmpInst::FCMP_OGT: return olt(b, a); case CmpInst::FCMP_OLE: return ole(a, b); case CmpInst::FCMP_OGE: return ole(b, a);
        case CmpInst::FCMP_ULT: return mkNot(ole(b, a)); case CmpInst::FCMP_UGT: return mkNot(ole(a, b)); case CmpInst::FCMP_ULE: return mkNot(olt(b, a)); case CmpInst::FCMP_UGE: return mkNot(olt(a, b));
        case CmpInst::FCMP_ORD: return mkNot(N()); case CmpInst::FCMP_UNO: return N();
        default: abort();
        }
    }
    E castE(unsigned op, E a, unsigned w, Instruction* I)
    {
        switch (op)
        {
        case Instruction::Trunc: return mkExtract(a, 0, w); case Instruction::ZExt: return mkZExt(a, w); case Instruction::SExt: return mkSExt(a, w);
        case Instruction::PtrToInt: case Instruction::IntToPtr: return w <= a->w ? mkExtract(a, 0, w) : mkZExt(a, w);
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
        case Instruction::SIToFP: return mkF(FFROMS, w, a); case Instruction::UIToFP: return mkF(FFROMU, w, a);
        case Instruction::FPToSI: return mkF(FTOS, w, a); case Instruction::FPToUI: return mkF(FTOU, w, a);
        case Instruction::FPExt: case Instruction::FPTrunc: return mkF(FCAST, w, a);
        default: unsupported("cast", I);
        }
    }
    template<class F> Val lanes(Val const& a, F f) { if (a.e) return mkV(f(a.e)); Val r; r.agg = std::make_shared<std::vector<Val>>(); for (auto& x : *a.agg) r.agg->push_back(lanes(x, f)); return r; }
    template<class F> Val lanes2(Val const& a, Val const& b, F f) { if (a.e) return mkV(f(a.e, b.e)); Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(lanes2((*a.agg)[i], (*b.agg)[i], f)); return r; }
    Val iteV(E c, Val const& a, Val const& b) { return lanes2(a, b, [&](E x, E y) { return mkIte(c, x, y); }); }
    E flat(Val const& v) { if (v.e) return v.e; E r = nullptr; for (auto& x : *v.agg) { E e = flat(x); r = r ? mkConcat(e, r) : e; } return r; }
    Val unflat(E e, Type* t) { if (scalar(t)) return mkV(e); Val r; r.agg = std::make_shared<std::vector<Val>>(); unsigned n = aggN(t), w = bits(aggT(t, 0)); for (unsigned i = 0; i < n; ++i) r.agg->push_back(mkV(mkExtract(e, i * w, w))); return r; }

    // If-conversion: a branch whose region up to its post-dominator is small, acyclic and without effects is evaluated on every path at once,
    // and the phis become if-then-else terms. What may trap or needs a decision falls back to forking.
    struct Region { BasicBlock* join = nullptr; std::vector<BasicBlock*> order; };
    std::unordered_map<BasicBlock*, Region> regions; std::unordered_map<Function*, std::unique_ptr<PostDominatorTree>> pdts;
    static bool pureInst(Instruction& i)
    {
        if (isa<PHINode>(i) || isa<CmpInst>(i) || isa<SelectInst>(i) || isa<GetElementPtrInst>(i) || isa<FreezeInst>(i) || isa<ExtractValueInst>(i) || isa<InsertValueInst>(i) || i.isCast()) return true;
        if (auto* l = dyn_cast<LoadInst>(&i)) return l->isSimple();
        if (i.isBinaryOp())
        {
            unsigned op = i.getOpcode(); if (op != Instruction::UDiv && op != Instruction::SDiv && op != Instruction::URem && op != Instruction::SRem) return true;
            auto* k = dyn_cast<ConstantInt>(i.getOperand(1)); return k && !k->isZero();
        }
        if (auto* ii = dyn_cast<IntrinsicInst>(&i)) switch (ii->getIntrinsicID())
        {
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::abs: case Intrinsic::ctpop: case Intrinsic::bswap: case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: return true;
        default: return false;
        }
        return false;
    }
    Region& region(BasicBlock* b)
    {
        auto it = regions.find(b); if (it != regions.end()) return it->second; Region& r = regions[b];
        auto& p = pdts[b->getParent()]; if (!p) p.reset(new PostDominatorTree(*b->getParent()));
        auto* n = p->getNode(b); if (!n || !n->getIDom() || !n->getIDom()->getBlock()) return r; BasicBlock* join = n->getIDom()->getBlock();
        std::unordered_map<BasicBlock*, int> st; std::vector<BasicBlock*> post; bool ok = true; unsigned insts = 0;
        std::function<void(BasicBlock*)> dfs = [&](BasicBlock* x)
        {
            if (!ok || x == join) return; if (x == b || st[x] == 1) { ok = false; return; } if (st[x] == 2) return; st[x] = 1;
            if (st.size() > 24) ok = false; auto* t = x->getTerminator(); if (!isa<BranchInst>(t)) ok = false; for (auto& i : *x) { if (&i == t) break; if (!pureInst(i) || ++insts > 300) { ok = false; break; } }
            if (ok) for (auto* y : successors(x)) dfs(y); st[x] = 2; post.push_back(x);
        };
        for (auto* y : successors(b)) dfs(y); if (!ok) return r; r.join = join; r.order.assign(post.rbegin(), post.rend()); return r;
    }
    bool merge(State& s, E c, BasicBlock* t, BasicBlock* f)
    {
        BasicBlock* b = top(s).bb; Region& r = region(b); if (!r.join || t == f) return false; auto ip = top(s).ip; typedef std::vector<std::pair<BasicBlock*, E>> Edges; std::unordered_map<BasicBlock*, Edges> in;
        in[t].push_back({ b, c }); in[f].push_back({ b, mkNot(c) });
        auto phis = [&](BasicBlock* x)
        {
            std::vector<std::pair<PHINode*, Val>> ph; auto& es = in[x]; for (auto& i : *x) { auto* p = dyn_cast<PHINode>(&i); if (!p) break; Val v; bool any = false; for (auto& e : es) { if (isC(e.second, 0)) continue; Val y = val(s, p->getIncomingValueForBlock(e.first)); v = any ? iteV(e.second, y, v) : y; any = true; } ph.push_back({ p, v }); }
            for (auto& p : ph) { auto& ff = top(s); ff.regs[ff.fi->slot[p.first]] = p.second; }
        };
        for (auto* x : r.order)
        {
            E g = mkFalse(); for (auto& e : in[x]) g = mkOr(g, e.second); if (isC(g, 0)) continue; phis(x);
            for (auto& i : *x)
            {
                if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
                if (auto* br = dyn_cast<BranchInst>(&i)) { if (br->isUnconditional()) in[br->getSuccessor(0)].push_back({ x, g }); else { E d = ve(s, br->getCondition()); in[br->getSuccessor(0)].push_back({ x, mkAnd(g, d) }); in[br->getSuccessor(1)].push_back({ x, mkAnd(g, mkNot(d)) }); } break; }
                if (auto* l = dyn_cast<LoadInst>(&i)) { E a = ve(s, l->getPointerOperand()); ObjP o; if (!isC(a) || !(o = findObj(s, (uint64_t)a->val)) || o->dead || (uint64_t)a->val - o->base + DL->getTypeStoreSize(l->getType()) > o->size) { top(s).ip = ip; return false; } }
                top(s).ip = i.getIterator(); step(s, &i);
            }
        }
        phis(r.join); auto& fr = top(s); fr.prev = nullptr; fr.bb = r.join; fr.ip = r.join->begin(); while (isa<PHINode>(&*fr.ip)) ++fr.ip; return true;
    }
    void branchTo(State& s, E c, BasicBlock* t, BasicBlock* f)
    {
        if (opt.merge && !isC(c) && !s.pcset.count(c) && !s.pcset.count(mkNot(c)) && merge(s, c, t, f)) return;
        StateP o; bool v = decide(s, c, o);
        if (o) { jump(*o, v ? f : t); work.push_back(std::move(o)); }
        jump(s, v ? t : f);
    }

    //---- threads
    bool runnable(State& s, unsigned i)
    {
        Thread& t = s.th[i]; if (t.done) return false;
        if (t.joining) { for (unsigned k = 0; k < s.th.size(); ++k) if (k != i && !s.th[k].done) return false; return true; }
        if (t.waitAddr) { E v = readRef(s, { findObj(s, (uint64_t)t.waitAddr->val), mkConst((uint64_t)t.waitAddr->val - findObj(s, (uint64_t)t.waitAddr->val)->base, 64) }, 4); if (!isC(v)) unsupported("symbolic wait"); return v->val == 0; }
        return true;
    }
    // pick the next thread; the choice is an input. The current instruction must already be advanced.
    void yieldFrom(State& s, bool forced)
    {
        std::vector<unsigned> r; for (unsigned i = 0; i < s.th.size(); ++i) if (runnable(s, i)) r.push_back(i);
        if (r.empty()) { violation(s, "deadlock", "no runnable thread", s.model, nullptr); term("violation"); }
        bool curOk = std::find(r.begin(), r.end(), s.cur) != r.end(); if (!curOk) forced = true;
        if (!forced && s.switches >= s.maxSwitches) return;
        unsigned pick = r[0];
        if (r.size() > 1)
        {
            E v = mkVar("sched", 8, true, true, 0, r.size() - 1); s.inputs.push_back(v);
            for (unsigned k = 0; k + 1 < r.size(); ++k)
            {
                StateP o = clone(s); E eq = mkEq(mkConst(k + 1, 8), v); addPC(*o, eq); auto m = std::make_shared<Model>(); m->vals = s.model->vals; m->vals[(uint32_t)v->val] = k + 1; o->model = m;
                o->cur = r[k + 1]; if (!forced && r[k + 1] != s.cur) ++o->switches; o->th[o->cur].waitAddr = nullptr; o->th[o->cur].joining = false; work.push_back(std::move(o));
            }
            addPC(s, mkEq(mkConst(0, 8), v)); auto m = std::make_shared<Model>(); m->vals = s.model->vals; m->vals[(uint32_t)v->val] = 0; s.model = m;
        }
        if (!forced && pick != s.cur) ++s.switches;
        s.cur = pick; s.th[pick].waitAddr = nullptr; s.th[pick].joining = false;
    }

    void memCopy(State& s, E dst, E src, E len, bool move, Instruction* I)
    {
        u128 n = concretize(s, len); if (!n) return; if (n > (1u << 24)) { violation(s, "memory-safety", "huge copy length", s.model, I); term("violation"); }
        Ref a = resolve(s, src, (uint64_t)n, false, I), b = resolve(s, dst, (uint64_t)n, true, I);
        std::vector<E> bytes; if (!isC(a.off)) { for (uint64_t i = 0; i < n; ++i) bytes.push_back(readRef(s, { a.o, mkAdd(mkConst(i, 64), a.off) }, 1)); }
        else for (uint64_t i = 0; i < n; ++i) bytes.push_back(byteAt(s, a.o, (uint64_t)a.off->val + i));
        if (isC(b.off)) { b.o = s.mem[b.o->base]; Obj* o = writable(s, b.o); for (uint64_t i = 0; i < n; ++i) o->bytes[(uint64_t)b.off->val + i] = bytes[i]; }
        else for (uint64_t i = 0; i < n; ++i) { b.o = s.mem[b.o->base]; writeRef(s, { b.o, mkAdd(mkConst(i, 64), b.off) }, bytes[i]); }
    }
    void memSet(State& s, E dst, E v, E len, Instruction* I)
    {
        u128 n = concretize(s, len); if (!n) return; if (n > (1u << 24)) { violation(s, "memory-safety", "huge set length", s.model, I); term("violation"); }
        Ref b = resolve(s, dst, (uint64_t)n, true, I); v = mkExtract(v, 0, 8);
        if (isC(b.off)) { Obj* o = writable(s, b.o); for (uint64_t i = 0; i < n; ++i) o->bytes[(uint64_t)b.off->val + i] = v; }
        else for (uint64_t i = 0; i < n; ++i) { b.o = s.mem[b.o->base]; writeRef(s, { b.o, mkAdd(mkConst(i, 64), b.off) }, v); }
    }

    E popcount(E a) { unsigned w = a->w; E r = mkConst(0, w); for (unsigned i = 0; i < w; ++i) r = mkAdd(r, mkZExt(mkExtract(a, i, 1), w)); return r; }
    E ctlz(E a) { unsigned w = a->w; E r = mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r); return r; }
    E cttz(E a) { unsigned w = a->w; E r = mkConst(w, w); for (unsigned i = w; i--;) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r); return r; }

    bool intrinsic(State& s, CallBase* c, Function* f)
    {
        auto A = [&](unsigned i) { return ve(s, c->getArgOperand(i)); };
        auto ret = [&](E e) { setE(s, c, e); };
        auto V = [&](unsigned i) { return val(s, c->getArgOperand(i)); };
        auto un = [&](std::function<E(E)> g) { set(s, c, lanes(V(0), g)); }; auto bi = [&](std::function<E(E, E)> g) { set(s, c, lanes2(V(0), V(1), g)); };
        switch (f->getIntrinsicID())
        {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: return true;
        case Intrinsic::assume: return true;
        case Intrinsic::stacksave: ret(mkConst(0, 64)); return true; case Intrinsic::stackrestore: return true;
        case Intrinsic::expect: ret(A(0)); return true;
        case Intrinsic::is_constant: ret(mkFalse()); return true;
        case Intrinsic::objectsize: ret(mkConst(~(u128)0, bits(c->getType()))); return true;
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: memCopy(s, A(0), A(1), A(2), false, c); return true;
        case Intrinsic::memmove: memCopy(s, A(0), A(1), A(2), true, c); return true;
        case Intrinsic::memset: case Intrinsic::memset_inline: memSet(s, A(0), A(1), A(2), c); return true;
        case Intrinsic::trap: violation(s, "trap", "llvm.trap", s.model, c); term("violation");
        case Intrinsic::debugtrap: violation(s, "trap", "debug break", s.model, c); term("violation");
        case Intrinsic::ubsantrap: violation(s, "undefined-behaviour", "sanitizer trap " + std::to_string((unsigned)cast<ConstantInt>(c->getArgOperand(0))->getZExtValue()), s.model, c); term("violation");
        case Intrinsic::umax: bi([&](E a, E b) { return mkIte(mkUlt(a, b), b, a); }); return true;
        case Intrinsic::umin: bi([&](E a, E b) { return mkIte(mkUlt(a, b), a, b); }); return true;
        case Intrinsic::smax: bi([&](E a, E b) { return mkIte(mkSlt(a, b), b, a); }); return true;
        case Intrinsic::smin: bi([&](E a, E b) { return mkIte(mkSlt(a, b), a, b); }); return true;
        case Intrinsic::abs: un([&](E a) { return mkIte(mkSlt(a, mkConst(0, a->w)), mkSub(mkConst(0, a->w), a), a); }); return true;
        case Intrinsic::ctpop: un([&](E a) { return popcount(a); }); return true;
        case Intrinsic::ctlz: un([&](E a) { return ctlz(a); }); return true;
        case Intrinsic::cttz: un([&](E a) { return cttz(a); }); return true;
        case Intrinsic::bswap: un([&](E a) { E r = nullptr; for (unsigned i = 0; i < a->w; i += 8) { E b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; } return r; }); return true;
        case Intrinsic::bitreverse: un([&](E a) { E r = nullptr; for (unsigned i = 0; i < a->w; ++i) { E b = mkExtract(a, i, 1); r = r ? mkConcat(r, b) : b; } return r; }); return true;
        case Intrinsic::fshl: case Intrinsic::fshr:
        {
            E a = A(0), b = A(1), n = A(2); unsigned w = a->w; bool l = f->getIntrinsicID() == Intrinsic::fshl;
            n = mkBin(UREM, n, mkConst(w, w));
            if (isC(n)) { unsigned k = (unsigned)n->val; E cc = mkConcat(a, b); ret(w <= 64 ? (l ? mkExtract(cc, w - k, w) : mkExtract(cc, k, w)) : (unsupported("fsh"), a)); return true; }
            E z = mkEq(mkConst(0, w), n), inv = mkSub(mkConst(w, w), n);
            ret(l ? mkIte(z, a, mkOr(mkBin(SHL, a, n), mkBin(LSHR, b, inv))) : mkIte(z, b, mkOr(mkBin(SHL, a, inv), mkBin(LSHR, b, n)))); return true;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow:
        {
            E a = A(0), b = A(1); unsigned w = a->w; auto id = f->getIntrinsicID(); E r, o;
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            K k = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? ADD : id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow ? SUB : MUL;
            unsigned W = k == MUL ? 2 * w : w + 1; if (W > 128) unsupported("wide overflow", c);
            E wa = sg ? mkSExt(a, W) : mkZExt(a, W), wb = sg ? mkSExt(b, W) : mkZExt(b, W); E wr = mkBin(k, wa, wb); r = mkBin(k, a, b);
            o = mkNot(mkEq(sg ? mkSExt(r, W) : mkZExt(r, W), wr)); Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(mkV(r)); v.agg->push_back(mkV(o)); set(s, c, v); return true;
        }
        case Intrinsic::usub_sat: ret(mkIte(mkUlt(A(0), A(1)), mkConst(0, A(0)->w), mkSub(A(0), A(1)))); return true;
        case Intrinsic::uadd_sat: { E r = mkAdd(A(0), A(1)); ret(mkIte(mkUlt(r, A(0)), mkConst(mask(r->w), r->w), r)); return true; }
        case Intrinsic::sqrt: un([&](E a) { return mkF(FSQRT, a->w, a); }); return true;
        case Intrinsic::fabs: un([&](E a) { return mkAnd(mkConst(mask(a->w - 1), a->w), a); }); return true;
        case Intrinsic::floor: un([&](E a) { return mkF(FROUND, a->w, a, nullptr, 0); }); return true;
        case Intrinsic::ceil: un([&](E a) { return mkF(FROUND, a->w, a, nullptr, 1); }); return true;
        case Intrinsic::trunc: un([&](E a) { return mkF(FROUND, a->w, a, nullptr, 2); }); return true;
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: un([&](E a) { return mkF(FROUND, a->w, a, nullptr, 3); }); return true;
        case Intrinsic::fmuladd: { Val m = lanes2(V(0), V(1), [&](E a, E b) { return mkF(FMUL, a->w, a, b); }); set(s, c, lanes2(m, V(2), [&](E a, E b) { return mkF(FADD, a->w, a, b); })); return true; }
        case Intrinsic::x86_sse2_cvtsd2si: case Intrinsic::x86_sse2_cvtsd2si64: case Intrinsic::x86_sse2_cvttsd2si: case Intrinsic::x86_sse2_cvttsd2si64:
        case Intrinsic::x86_sse_cvtss2si: case Intrinsic::x86_sse_cvtss2si64: case Intrinsic::x86_sse_cvttss2si: case Intrinsic::x86_sse_cvttss2si64:
        {
            // to nearest even or towards zero; what does not fit becomes the smallest integer
            auto id = f->getIntrinsicID(); bool tr = id == Intrinsic::x86_sse2_cvttsd2si || id == Intrinsic::x86_sse2_cvttsd2si64 || id == Intrinsic::x86_sse_cvttss2si || id == Intrinsic::x86_sse_cvttss2si64;
            Val v = val(s, c->getArgOperand(0)); E x = (*v.agg)[0].e; unsigned w = bits(c->getType()); E r = mkF(FROUND, x->w, x, nullptr, tr ? 2 : 3), t = mkF(FTOS, 64, r);
            E ex = x->w == 64 ? mkExtract(r, 52, 11) : mkZExt(mkExtract(r, 23, 8), 11); E in = mkUlt(ex, mkConst((x->w == 64 ? 1023 : 127) + 63, 11)); if (w == 32) in = mkAnd(in, mkEq(mkSExt(mkExtract(t, 0, 32), 64), t));
            setE(s, c, mkIte(in, mkExtract(t, 0, w), mkConst((u128)1 << (w - 1), w))); return true;
        }
        case Intrinsic::readcyclecounter: { E v = freshVar(64, "cycles"); ret(v); return true; }
        case Intrinsic::load_relative: default: return false;
        }
    }

    bool special(State& s, CallBase* c, StringRef n)
    {
        auto A = [&](unsigned i) { return ve(s, c->getArgOperand(i)); };
        auto fitRet = [&](E e) { unsigned w = bits(c->getType()); setE(s, c, w <= e->w ? mkExtract(e, 0, w) : mkZExt(e, w)); };
        if (n == "vs_sym") { unsigned b = (unsigned)A(0)->val; Str nm = cstr(s, A(1)); E v = mkVar(nm, b, true); s.inputs.push_back(v); setE(s, c, mkZExt(v, 64)); return true; }
        if (n == "vs_range")
        {
            E lo = A(0), hi = A(1); Str nm = cstr(s, A(2)); u128 l = concretize(s, lo), h = concretize(s, hi); if (l > h) term("pruned");
            unsigned b = 1; while (b < 64 && (h >> b)) ++b; E v = mkVar(nm, b, true, !(l == 0 && h == mask(b)), l, h); s.inputs.push_back(v); setE(s, c, mkZExt(v, 64)); return true;
        }
        if (n == "vs_assume") { assume(s, A(0)); return true; }
        if (n == "vs_check") { checkCond(s, A(0), cstr(s, A(1)), c); return true; }
        if (n == "vs_fail") { Str l = cstr(s, A(0)); ++nChecks; ++labels[l].first; violation(s, l, "assertion", s.model, c); term("violation"); }
        if (n == "vs_cover") { ++covers[cstr(s, A(0))]; return true; }
        if (n == "vs_observe") { s.obs.push_back(mkZExt(A(0), 64)); return true; }
        if (n == "vs_concretize") { u128 v = concretize(s, A(0)); setE(s, c, mkConst(v, A(0)->w)); return true; }
        if (n == "vs_fork_index") { s.forkIndex = isC(A(0)) && A(0)->val; return true; }
        if (n == "vs_symbolic") { setE(s, c, mkConst(1, bits(c->getType()))); return true; }
        if (n == "vs_stop") { finish(s); term("pruned"); }
        if (n == "vs_preempt_bound") { s.maxSwitches = (unsigned)A(0)->val; return true; }
        if (n == "vs_self") { setE(s, c, mkConst(s.cur, 32)); return true; }
        if (n == "vs_no_yield") { s.noYield = A(0)->val != 0; return true; }
        if (n == "vs_spawn")
        {
            E fp = A(0); auto it = addrf.find((uint64_t)fp->val); if (!isC(fp) || it == addrf.end()) unsupported("spawn", c);
            Val arg = val(s, c->getArgOperand(1)); unsigned cur = s.cur; s.th.push_back({}); s.th.back().sp = 0x7f0000000000ull + s.th.size() * 0x100000000ull; s.cur = (unsigned)s.th.size() - 1; push(s, it->second, { arg }); s.cur = cur; return true;
        }
        if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "calloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t")
        {
            u128 sz = concretize(s, A(0)); if (n == "calloc") sz *= concretize(s, A(1)); if (sz > (1u << 26)) unsupported("huge allocation", c);
            uint64_t b = s.heap; s.heap += ((uint64_t)sz + 63 + 64) & ~63ull; ObjP o = newObj(s, b, (uint64_t)sz, "heap"); o->heap = true; if (n == "calloc") for (auto& x : o->bytes) x = mkConst(0, 8); setE(s, c, mkConst(b, 64)); return true;
        }
        if (n == "free" || n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm")
        {
            u128 p = concretize(s, A(0)); if (!p) return true; auto it = s.mem.find((uint64_t)p); if (it == s.mem.end() || !it->second->heap || it->second->dead) { violation(s, "memory-safety", "invalid free", s.model, c); term("violation"); }
            auto o = std::make_shared<Obj>(*it->second); o->dead = true; it->second = o; return true;
        }
        if (n == "abort" || n == "__assert_fail" || n == "_ZSt9terminatev") { violation(s, "abort", n.str(), s.model, c); term("violation"); }
        if (n == "exit" || n == "_exit") { finish(s); term("pruned"); }
        if (n == "sqrtf" || n == "sqrt") { setE(s, c, mkF(FSQRT, A(0)->w, A(0))); return true; }
        if (n == "floorf" || n == "floor") { setE(s, c, mkF(FROUND, A(0)->w, A(0), nullptr, 0)); return true; }
        if (n == "__cxa_atexit") { fitRet(mkConst(0, 32)); return true; }
        return false;
    }

    void call(State& s, CallBase* c)
    {
        if (auto* ia = dyn_cast<InlineAsm>(c->getCalledOperand())) { if (ia->getAsmString().empty()) { if (!c->getType()->isVoidTy()) set(s, c, undefT(c->getType())); ++top(s).ip; return; } unsupported("inline asm " + ia->getAsmString(), c); }
        Function* f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
        if (!f) { u128 a = concretize(s, ve(s, c->getCalledOperand())); auto it = addrf.find((uint64_t)a); if (it == addrf.end()) { violation(s, "memory-safety", "call through invalid pointer", s.model, c); term("violation"); } f = it->second; }
        if (f->isIntrinsic()) { if (!intrinsic(s, c, f)) unsupported("intrinsic " + f->getName().str(), c); ++top(s).ip; return; }
        StringRef n = f->getName();
        if (n == "vs_yield") { ++top(s).ip; if (s.th.size() > 1 && !s.noYield) yieldFrom(s, false); return; }
        if (n == "vs_wait") { E p = ve(s, c->getArgOperand(0)); p = mkConst(concretize(s, p), 64); ++top(s).ip; s.th[s.cur].waitAddr = p; yieldFrom(s, false); return; }
        if (n == "vs_join_all") { ++top(s).ip; s.th[s.cur].joining = true; yieldFrom(s, true); return; }
        if (f->isDeclaration() || n == "malloc" || n == "free") { if (!special(s, c, n)) unsupported("external function " + n.str(), c); ++top(s).ip; return; }
        std::vector<Val> args; for (auto& a : c->args())
        {
            Val v = val(s, a.get());
            unsigned k = (unsigned)(&a - c->arg_begin());
            if (c->isByValArgument(k)) { Type* t = c->getParamByValType(k); uint64_t sz = DL->getTypeAllocSize(t); uint64_t sp = (s.th[s.cur].sp + 63) & ~63ull; s.th[s.cur].sp = sp + sz + 64; newObj(s, sp, sz, "byval"); memCopy(s, mkConst(sp, 64), v.e, mkConst(sz, 64), false, c); v = mkV(mkConst(sp, 64)); }
            args.push_back(v);
        }
        push(s, f, args);
    }

    void step(State& s, Instruction* I)
    {
        auto O = [&](unsigned i) { return ve(s, I->getOperand(i)); };
        auto next = [&] { ++top(s).ip; };
        switch (I->getOpcode())
        {
        case Instruction::Br: { auto* b = cast<BranchInst>(I); if (b->isUnconditional()) jump(s, b->getSuccessor(0)); else branchTo(s, O(0), b->getSuccessor(0), b->getSuccessor(1)); return; }
        case Instruction::Switch:
        {
            auto* w = cast<SwitchInst>(I); E v = ve(s, w->getCondition()); std::vector<std::pair<BasicBlock*, E>> ts; E any = mkFalse();
            for (auto& k : w->cases()) { E eq = mkEq(ci(k.getCaseValue()->getValue()), v); any = mkOr(any, eq); bool f = false; for (auto& t : ts) if (t.first == k.getCaseSuccessor()) { t.second = mkOr(t.second, eq); f = true; } if (!f) ts.push_back({ k.getCaseSuccessor(), eq }); }
            E df = mkNot(any); { bool f = false; for (auto& t : ts) if (t.first == w->getDefaultDest()) { t.second = mkOr(t.second, df); f = true; } if (!f) ts.push_back({ w->getDefaultDest(), df }); }
            for (auto& t : ts) t.second = tabBool(t.second);
            BasicBlock* mine = nullptr; for (auto& t : ts) if (s.model->eval(t.second)) { mine = t.first; break; }
            E my = nullptr; for (auto& t : ts) { if (t.first == mine) { my = t.second; continue; } if (isC(t.second)) continue; ModelP m; if (sat(s, t.second, m) == SAT) { StateP o = clone(s); addPC(*o, t.second); o->model = m; jump(*o, t.first); work.push_back(std::move(o)); } }
            addPC(s, my); jump(s, mine); return;
        }
        case Instruction::Ret: { Val v; if (I->getNumOperands()) v = val(s, I->getOperand(0)); pop(s, v); return; }
        case Instruction::Unreachable: violation(s, "undefined-behaviour", "unreachable code reached", s.model, I); term("violation");
        case Instruction::Call: call(s, cast<CallBase>(I)); return;
        case Instruction::Alloca:
        {
            auto* a = cast<AllocaInst>(I); uint64_t n = DL->getTypeAllocSize(a->getAllocatedType()); if (a->isArrayAllocation()) n *= (uint64_t)concretize(s, O(0));
            auto& t = s.th[s.cur]; uint64_t al = std::max<uint64_t>(a->getAlign().value(), 16); uint64_t sp = (t.sp + al - 1) & ~(al - 1); t.sp = sp + n + 32; ObjP o = newObj(s, sp, n, a->getName().empty() ? "local" : a->getName().str()); o->stack = true; top(s).allocas.push_back(sp); setE(s, I, mkConst(sp, 64)); next(); return;
        }
        case Instruction::Load: { Val v = loadT(s, O(0), I->getType(), I); set(s, I, v); next(); return; }
        case Instruction::Store: { Val v = val(s, I->getOperand(0)); storeT(s, O(1), v, I->getOperand(0)->getType(), I); next(); return; }
        case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(I); if (!scalar(I->getType())) unsupported("vector gep", I); setE(s, I, gep(g, [&](Value* v) { return ve(s, v); })); next(); return; }
        case Instruction::ICmp: case Instruction::FCmp: { auto p = cast<CmpInst>(I)->getPredicate(); set(s, I, lanes2(val(s, I->getOperand(0)), val(s, I->getOperand(1)), [&](E a, E b) { return icmpE(p, a, b); })); next(); return; }
        case Instruction::Select:
        {
            Val c = val(s, I->getOperand(0)), a = val(s, I->getOperand(1)), b = val(s, I->getOperand(2));
            if (c.e) set(s, I, iteV(c.e, a, b)); else { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < c.agg->size(); ++i) r.agg->push_back(iteV((*c.agg)[i].e, (*a.agg)[i], (*b.agg)[i])); set(s, I, r); }
            next(); return;
        }
        case Instruction::Freeze: set(s, I, val(s, I->getOperand(0))); next(); return;
        case Instruction::FNeg: set(s, I, lanes(val(s, I->getOperand(0)), [&](E a) { return mkBin(XOR, mkConst((u128)1 << (a->w - 1), a->w), a); })); next(); return;
        case Instruction::ExtractValue: { Val v = val(s, I->getOperand(0)); for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[i]; v = t; } set(s, I, v); next(); return; }
        case Instruction::InsertValue: { auto* iv = cast<InsertValueInst>(I); Val v = val(s, I->getOperand(0)), x = val(s, I->getOperand(1)); std::function<Val(Val, unsigned)> go = [&](Val a, unsigned d) -> Val { if (d == iv->getNumIndices()) return x; Val r; r.agg = std::make_shared<std::vector<Val>>(*a.agg); unsigned i = iv->getIndices()[d]; (*r.agg)[i] = go((*a.agg)[i], d + 1); return r; }; set(s, I, go(v, 0)); next(); return; }
        case Instruction::ExtractElement: { u128 k = concretize(s, O(1)); Val v = val(s, I->getOperand(0)); Val t = (*v.agg)[(size_t)k]; set(s, I, t); next(); return; }
        case Instruction::InsertElement: { u128 k = concretize(s, O(2)); Val v = val(s, I->getOperand(0)); Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg); (*r.agg)[(size_t)k] = val(s, I->getOperand(1)); set(s, I, r); next(); return; }
        case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(I); Val a = val(s, I->getOperand(0)), b = val(s, I->getOperand(1)); Val r; r.agg = std::make_shared<std::vector<Val>>(); int n = (int)a.agg->size(); for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? mkV(mkConst(0, (*a.agg)[0].e->w)) : m < n ? (*a.agg)[m] : (*b.agg)[m - n]); set(s, I, r); next(); return; }
        case Instruction::AtomicRMW:
        {
            auto* a = cast<AtomicRMWInst>(I); E p = O(0); Type* t = a->getValOperand()->getType(); E v = O(1); E old = loadT(s, p, t, I).e; E n = nullptr;
            switch (a->getOperation())
            {
            case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = mkAdd(old, v); break; case AtomicRMWInst::Sub: n = mkSub(old, v); break; case AtomicRMWInst::And: n = mkAnd(old, v); break; case AtomicRMWInst::Or: n = mkOr(old, v); break; case AtomicRMWInst::Xor: n = mkBin(XOR, old, v); break;
            case AtomicRMWInst::Nand: n = mkNot(mkAnd(old, v)); break; case AtomicRMWInst::Max: n = mkIte(mkSlt(old, v), v, old); break; case AtomicRMWInst::Min: n = mkIte(mkSlt(old, v), old, v); break; case AtomicRMWInst::UMax: n = mkIte(mkUlt(old, v), v, old); break; case AtomicRMWInst::UMin: n = mkIte(mkUlt(old, v), old, v); break;
            default: unsupported("atomicrmw", I);
            }
            storeT(s, p, mkV(n), t, I); setE(s, I, old); next(); return;
        }
        case Instruction::AtomicCmpXchg:
        {
            auto* a = cast<AtomicCmpXchgInst>(I); E p = O(0), cmp = O(1), nv = O(2); Type* t = a->getCompareOperand()->getType(); E old = loadT(s, p, t, I).e; E ok = mkEq(cmp, old);
            storeT(s, p, mkV(mkIte(ok, nv, old)), t, I); Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(mkV(old)); r.agg->push_back(mkV(ok)); set(s, I, r); next(); return;
        }
        case Instruction::Fence: next(); return;
        default:
            if (I->isBinaryOp()) { set(s, I, lanes2(val(s, I->getOperand(0)), val(s, I->getOperand(1)), [&](E a, E b) { return binE(s, I->getOpcode(), a, b, I); })); next(); return; }
            if (I->isCast())
            {
                Val v = val(s, I->getOperand(0)); Type* t = I->getType(); Type* st = I->getOperand(0)->getType();
                if (isa<BitCastInst>(I) && (st->isVectorTy() || t->isVectorTy())) { set(s, I, unflat(flat(v), t)); next(); return; }
                unsigned w = bits(t->isVectorTy() ? cast<FixedVectorType>(t)->getElementType() : t); set(s, I, lanes(v, [&](E a) { return castE(I->getOpcode(), a, w, I); })); next(); return;
            }
            unsupported(Str("instruction ") + I->getOpcodeName(), I);
        }
    }
