// -*- c++ -*-  (body of class Exec, continued: instruction execution.)

    // ------------------------------------------------------------ slots
    void prep(const Function* f) {
        if (nslots.count(f)) return;
        auto& m = slots; int n = 0;
        for (auto& a : f->args()) m[&a] = n++;
        for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) m[&i] = n++;
        nslots[f] = n;
    }
    LoopInfo& loopInfo(Function* f) {
        auto& p = loops[f];
        if (!p.second) {
            p.first = make_shared<DominatorTree>(*f);
            p.second = make_shared<LoopInfo>(*p.first);
        }
        return *p.second;
    }
    V constV(const Constant* c) {
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            if (ci->getBitWidth() <= 64) return mkI(ci->getBitWidth(), ci->getBitWidth() == 1 ? (i128)ci->getZExtValue() : (i128)ci->getSExtValue());
            APInt a = ci->getValue().sextOrTrunc(128);
            i128 v = ((i128)(int64_t)a.extractBits(64, 64).getZExtValue() << 64) | (i128)(unsigned __int128)a.extractBits(64, 0).getZExtValue();
            return mkI(128, v);
        }
        if (auto* cf = dyn_cast<ConstantFP>(c)) {
            APFloat f = cf->getValueAPF(); bool li;
            unsigned w = c->getType()->isFloatTy() ? 32 : c->getType()->isDoubleTy() ? 64 : 80;
            f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
            return mkF(w, f.convertToDouble());
        }
        if (isa<ConstantPointerNull>(c)) return mkP(0, 0);
        if (isa<UndefValue>(c)) {
            Type* t = c->getType();
            if (auto* vt = dyn_cast<FixedVectorType>(t)) return mkA(vector<V>(vt->getNumElements()));
            if (auto* st = dyn_cast<StructType>(t)) { vector<V> r; for (unsigned i = 0; i < st->getNumElements(); i++) r.push_back(constV(UndefValue::get(st->getElementType(i)))); return mkA(r); }
            if (auto* at = dyn_cast<ArrayType>(t)) { vector<V> r; for (unsigned i = 0; i < at->getNumElements(); i++) r.push_back(constV(UndefValue::get(at->getElementType()))); return mkA(r); }
            return mkU();
        }
        if (auto* gv = dyn_cast<GlobalValue>(c)) {
            if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constV(ga->getAliasee());
            return mkP(gvObj(gv), 0);
        }
        if (isa<ConstantAggregateZero>(c)) {
            Type* t = c->getType(); vector<V> r;
            if (auto* st = dyn_cast<StructType>(t)) for (unsigned i = 0; i < st->getNumElements(); i++) r.push_back(constV(Constant::getNullValue(st->getElementType(i))));
            else if (auto* at = dyn_cast<ArrayType>(t)) { V z = constV(Constant::getNullValue(at->getElementType())); r.assign(at->getNumElements(), z); }
            else { auto* vt = cast<FixedVectorType>(t); V z = constV(Constant::getNullValue(vt->getElementType())); r.assign(vt->getNumElements(), z); }
            return mkA(r);
        }
        if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
            vector<V> r; for (unsigned i = 0; i < ca->getNumOperands(); i++) r.push_back(constV(ca->getOperand(i)));
            return mkA(r);
        }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
            vector<V> r; for (unsigned i = 0; i < cd->getNumElements(); i++) r.push_back(constV(cd->getElementAsConstant(i)));
            return mkA(r);
        }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                V b = constV(ce->getOperand(0));
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) throw Unsupported{"const gep"};
                b.c += off.getSExtValue(); return b;
            }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: return constV(ce->getOperand(0));
            case Instruction::PtrToInt: return ptrToInt(constV(ce->getOperand(0)), ce->getType()->getIntegerBitWidth());
            case Instruction::IntToPtr: return intToPtr(constV(ce->getOperand(0)));
            case Instruction::Sub: case Instruction::Add:
                return binop(ce->getOpcode(), constV(ce->getOperand(0)), constV(ce->getOperand(1)), ce->getType()->getIntegerBitWidth(), false, false);
            case Instruction::Trunc: return trunc(constV(ce->getOperand(0)), ce->getType()->getIntegerBitWidth());
            case Instruction::ICmp: return icmp((CmpInst::Predicate)ce->getPredicate(), constV(ce->getOperand(0)), constV(ce->getOperand(1)));
            default: break;
            }
            throw Unsupported{string("constexpr ") + ce->getOpcodeName()};
        }
        throw Unsupported{"constant"};
    }
    V val(const Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) return constV(c);
        Frame& f = S->st.back();
        auto i = slots.find(v);
        if (i == slots.end()) throw Unsupported{"operand"};
        return f.loc[i->second];
    }
    void set(const Instruction* I, V v) {
        Frame& f = S->st.back();
        f.loc[slots[I]] = std::move(v);
    }
    bool forkBool(const z3::expr& c0) { // decide a condition; sibling path re-executes current instruction.
        z3::expr c = c0.simplify();
        if (c.is_true()) return true;
        if (c.is_false()) return false;
        bool t = may(c);
        bool f = may(!c);
        if (!t && !f) throw PathEnd{};
        if (t && f) {
            StateP T = clone();
            swap(T); bool ok = true; try { addpc(!c); } catch (PathEnd&) { ok = false; } swap(T);
            if (ok) { g_forks++; work.push_back(T); }
            addpc(c);
            return true;
        }
        // only one side feasible: nothing to add (implied), but keep pc small.
        return t;
    }
    bool boolOf(const V& v) {
        if (v.k == V::U) throw Unsupported{"decision on an undefined value @ " + where()};
        if (!v.s) return v.c != 0;
        if (v.w == 1) return forkBool(v.s->e);
        return forkBool(v.s->e != 0);
    }

    // ------------------------------------------------------------ control flow
    void jump(BasicBlock* to) {
        Frame& f = S->st.back();
        BasicBlock* from = f.bb;
        if (!f.arb.empty()) // early exit out of a loop under the arbitrary-iteration rule.
            for (auto it = f.arb.begin(); it != f.arb.end();) {
                if (it->first->contains(from) && !it->first->contains(to)) { if (isProbe(S->arbEntries.back())) throw PathEnd{}; S->arbEntries.pop_back(); S->arbSnap.pop_back(); it = f.arb.erase(it); }
                else ++it;
            }
        // Arbitrary-iteration rule.
        const LoopRule* rule = nullptr; Loop* L = nullptr;
        if (!S->looprules.empty() && isa<PHINode>(to->begin())) {
            const string& n = dname(f.f);
            for (auto& r : S->looprules) if (n.find(r.fn) != string::npos) rule = &r;
            if (rule) {
                LoopInfo& LI = loopInfo(f.f);
                L = LI.getLoopFor(to);
                if (!L || L->getHeader() != to) { L = nullptr; rule = nullptr; }
            }
        }
        vector<std::pair<PHINode*, V>> nv;
        for (auto& I : *to) {
            auto* p = dyn_cast<PHINode>(&I); if (!p) break;
            nv.push_back({p, val(p->getIncomingValueForBlock(from))});
        }
        if (rule && rule->mode != 0 && L) applyLoopRule(*rule, L, from, nv);
        Frame& g = S->st.back();
        g.prev = from; g.bb = to; g.it = to->begin();
        for (auto& x : nv) g.loc[slots[x.first]] = x.second;
        while (isa<PHINode>(&*g.it)) ++g.it;
    }
    // Loop rule for 'for (i = b; i < n; i += s) body(i)' whose iterations are
    // independent: execute the body for one iteration k that is arbitrary
    // (mode 1) or chosen by the harness (mode 2), then continue after the loop
    // with everything the body may have changed undefined, except ghosts.
    // Independence is enforced: memory the body changes is undefined when the
    // body starts, so a value carried from one iteration to the next makes the
    // run fail as "unsupported" instead of being ignored.
    struct Lin { uint32_t size; V v0; shared_ptr<z3::expr> delta; };
    struct ArbEntry { Loop* L; shared_ptr<State> entry; std::map<std::pair<uint32_t, uint64_t>, Lin> lin; std::map<const PHINode*, Lin> plin; std::set<const PHINode*> pundef; std::map<const PHINode*, V> phi0;  bool inv_bound = false; shared_ptr<z3::expr> k; std::map<uint32_t, std::set<uint64_t>> undef; bool stale = false; vector<ObjP> objs; };
    vector<shared_ptr<ArbEntry>> arb;
    void applyLoopRule(const LoopRule& rule, Loop* L, BasicBlock* from, vector<std::pair<PHINode*, V>>& nv) {
        Frame& f = S->st.back();
        bool back = L->contains(from);
        PHINode* ind = nullptr; int idx = -1; Value* stepv = nullptr;
        for (size_t i = 0; i < nv.size(); i++) {
            PHINode* p = nv[i].first;
            if (!p->getType()->isIntegerTy()) continue;
            for (unsigned k = 0; k < p->getNumIncomingValues(); k++) {
                if (!L->contains(p->getIncomingBlock(k))) continue;
                auto* bo = dyn_cast<BinaryOperator>(p->getIncomingValue(k));
                if (!bo || bo->getOpcode() != Instruction::Add) continue;
                for (int o = 0; o < 2; o++)
                    if (bo->getOperand(o) == p) {
                        Value* st = bo->getOperand(1 - o);
                        auto* si = dyn_cast<Instruction>(st);
                        if (!si || !L->contains(si)) { // prefer the one tested in the header
                            auto* br = dyn_cast<BranchInst>(L->getHeader()->getTerminator());
                            auto* cmp = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
                            if (cmp && (cmp->getOperand(0) == p || cmp->getOperand(1) == p)) { ind = p; idx = (int)i; stepv = st; }
                        }
                    }
            }
        }
        if (!back) {
            f.arb.erase(L);
            if (!ind) return;                            // not a counted loop: execute normally.
            auto* br = cast<BranchInst>(L->getHeader()->getTerminator());
            auto* cmp = cast<ICmpInst>(br->getCondition());
            const Value* bound = cmp->getOperand(0) == ind ? cmp->getOperand(1) : cmp->getOperand(0);
            V stp = val(stepv), start = nv[idx].second;
            bool conc = !start.s && !stp.s;
            if (conc) {
                if (auto* bi = dyn_cast<Instruction>(bound)) {
                    if (!L->contains(bi)) conc = !val(bound).s;
                    else if (auto* ld = dyn_cast<LoadInst>(bi)) { // e.g. bound captured by reference
                        auto* pi = dyn_cast<Instruction>(ld->getPointerOperand());
                        if (pi && L->contains(pi)) {
                            // evaluate address if its operands are loop-invariant: give up => treat as symbolic
                            conc = false;
                        } else { V bv = memLoad(val(ld->getPointerOperand()), ld->getType()); conc = !bv.s; }
                    } else conc = false;
                } else conc = !val(bound).s;
            }
            if (conc) return;                            // concrete trip count: complete unrolling.
            unsigned w = ind->getType()->getIntegerBitWidth();
            // entry record (re-used when restarted).
            shared_ptr<ArbEntry> ae;
            if (S->restartEntry >= 0) {
                int aid = S->restartEntry; bool fin = S->restartFinal;
                ae = arb[aid]; S->arbEntries.push_back(aid); S->restartEntry = -1; S->restartFinal = false;
                if (!fin) S->probes.push_back(aid);
            } else {
                ae = make_shared<ArbEntry>(); ae->L = L; ae->entry = clone();
                arb.push_back(ae); S->arbEntries.push_back((int)arb.size() - 1);
                // First explore what the body changes (probe), then run the final pass.
                StateP T = clone(); T->arbEntries.pop_back(); T->restartEntry = (int)arb.size() - 1; T->restartFinal = true;
                work.push_back(T);
                S->probes.push_back((int)arb.size() - 1);
            }
            { auto* bi = dyn_cast<Instruction>(bound); ae->inv_bound = !bi || !L->contains(bi); }
            for (auto& u : ae->undef) {
                Obj& o = wr(u.first);
                for (auto b : u.second) {
                    o.def[b] = 0;
                    auto it = o.cells.upper_bound(b);
                    if (it != o.cells.begin()) { --it; if (it->first + it->second.size > b) { for (uint32_t q = 0; q < it->second.size; q++) o.def[it->first + q] = 0; o.cells.erase(it); } }
                }
            }
            S->arbSnap.push_back(S->objs);
            prove(E(stp) > 0, "loop-rule", "loop step is positive in " + dname(f.f).substr(0, 80));
            z3::expr k = zi(0);
            if (rule.mode == 2) {
                auto wi = S->witness.find(rule.id + 100 * ((int)L->getLoopDepth() - 1)); // nested loops: id + 100 per level, if given.
                if (wi == S->witness.end()) wi = S->witness.find(rule.id);
                if (wi == S->witness.end()) throw Unsupported{"no witness for loop in " + rule.fn};
                k = E(wi->second);
                if (!may(k >= 0)) { } 
            } else {
                k = zc->int_const(("iter" + std::to_string(rule.id) + "!" + std::to_string(S->fresh++)).c_str());
                addpc(k >= 0); addpc(k <= zi(wmax(w)));
            }
            S->iters[rule.id] = S->iters[rule.id + 1000 + 100 * (int)L->getLoopDepth()] = mkS(64, k, wmin(64), wmax(64));
            ae->k = make_shared<z3::expr>(k);
            if (!k.is_const() || k.is_numeral()) ae->inv_bound = false;
            // Locations that advance by the same amount in every iteration.
            auto linAt = [&](const Lin& l, const z3::expr& n) {
                unsigned lw = l.size * 8; z3::expr x = E(l.v0) + n * *l.delta;
                addpc(x >= zi(wmin(lw))); addpc(x <= zi(wmax(lw)));
                return mkS(lw, x, wmin(lw), wmax(lw));
            };
            for (auto& l : ae->lin) putInt(l.first.first, l.first.second, l.second.size, linAt(l.second, k));
            std::map<const PHINode*, V> pv;
            for (size_t q = 0; q < nv.size(); q++) if ((int)q != idx) {
                auto* ph = nv[q].first;
                if (ae->plin.count(ph)) pv[ph] = linAt(ae->plin[ph], k);
                else if (ae->pundef.count(ph)) pv[ph] = mkU();
                else pv[ph] = nv[q].second;
            }
            ae->phi0.clear(); for (auto& x : nv) ae->phi0[x.first] = x.second;
            z3::expr i = E(start) + k * E(stp);
            if (rule.mode == 2) addpc_case(k >= 0);
            addpc(i >= zi(wmin(w))); addpc(i <= zi(wmax(w)));
            g_loop_used[dname(f.f).substr(0, 120) + (rule.mode == 2 ? " [chosen iteration]" : " [arbitrary iteration]")]++;
            nv[idx].second = mkS(w, i, rule.mode == 2 ? wmin(w) : (lo(stp) > 0 ? lo(start) : wmin(w)), wmax(w));
            for (size_t q = 0; q < nv.size(); q++) if ((int)q != idx) nv[q].second = pv[nv[q].first];
            f.arb[L] = mkI(8, 1);
            return;
        }
        auto it = f.arb.find(L);
        if (it == f.arb.end()) return;
        unsigned w = ind->getType()->getIntegerBitWidth();
        // frame of the body.
        if (S->arbEntries.empty()) throw Unsupported{"loop rule nesting"};
        shared_ptr<ArbEntry> ae = arb[S->arbEntries.back()]; int aid = S->arbEntries.back();
        S->arbEntries.pop_back();
        vector<ObjP> snap = S->arbSnap.back(); S->arbSnap.pop_back();
        bool grown = false;
        std::map<uint32_t, std::set<uint64_t>> chg;
        for (size_t i = 1; i < snap.size() && i < S->objs.size(); i++) {
            if (!snap[i] || snap[i] == S->objs[i] || S->ghosts.count((uint32_t)i)) continue;
            if (!S->objs[i]->live || !snap[i]->live) continue;
            diff(*snap[i], *S->objs[i], chg[(uint32_t)i]);
        }
        z3::expr k = *ae->k, k1 = k + 1;
        // Inductive check of the linear locations; drop those that fail.
        auto linOk = [&](const Lin& l, const V& now) { return now.k == V::I && must(E(now) == E(l.v0) + k1 * *l.delta, true); };
        auto mentions = [&](const z3::expr& e) { string t = e.to_string(); return k.is_const() && !k.is_numeral() && t.find(k.to_string()) != string::npos; };
        for (auto l = ae->lin.begin(); l != ae->lin.end();) {
            V now = getInt(l->first.first, l->first.second, l->second.size);
            if (linOk(l->second, now)) { for (uint32_t q = 0; q < l->second.size; q++) chg[l->first.first].erase(l->first.second + q); ++l; }
            else { grown = true; if (getenv("YV_LIN")) std::cerr << "lin - obj" << l->first.first << "+" << l->first.second << "\n"; for (uint32_t q = 0; q < l->second.size; q++) ae->undef[l->first.first].insert(l->first.second + q); l = ae->lin.erase(l); }
        }
        for (auto& c : chg) for (auto b : c.second) {
            if (!snap[c.first]->def[b] && !ae->undef[c.first].count(b)) continue; // was undefined at entry.
            if (!snap[c.first]->def[b]) { continue; }
            if (ae->undef[c.first].count(b)) continue;
            grown = true;
            bool cov0 = false;
            for (uint32_t sz : {8u, 4u}) { auto li = ae->lin.find({c.first, b / sz * sz}); if (li != ae->lin.end() && li->second.size == sz) cov0 = true; }
            if (cov0) continue;
            // candidate for a linear location: an aligned 8- or 4-byte integer, before and after.
            bool isl = false;
            for (uint32_t sz : {8u, 4u}) {
                uint64_t o = b / sz * sz;
                if (o + sz > S->objs[c.first]->size || ae->lin.count({c.first, o})) continue;
                bool un = false; for (uint32_t q = 0; q < sz; q++) if (ae->undef[c.first].count(o + q)) un = true;
                if (un) continue;
                V before = getIntOf(*snap[c.first], o, sz), after = getInt(c.first, o, sz);
                if (before.k != V::I || after.k != V::I || before.w != sz * 8 || after.w != sz * 8) continue;
                z3::expr d = (E(after) - E(before)).simplify();
                if (mentions(d)) continue;
                ae->lin[{c.first, o}] = Lin{sz, before, make_shared<z3::expr>(d)}; isl = true; if (getenv("YV_LIN")) std::cerr << "lin + obj" << c.first << "+" << o << " sz " << sz << " d " << d << "\n"; break;
            }
            bool covered = false;
            for (uint32_t sz : {8u, 4u}) if (ae->lin.count({c.first, b / sz * sz}) && ae->lin[{c.first, b / sz * sz}].size == sz) covered = true;
            if (!isl && !covered) ae->undef[c.first].insert(b);
        }
        for (size_t q = 0; q < nv.size(); q++) if ((int)q != idx) {
            auto* ph = nv[q].first; const V& now = nv[q].second;
            if (ae->pundef.count(ph)) continue;
            if (ae->plin.count(ph)) { if (!linOk(ae->plin[ph], now)) { ae->plin.erase(ph); ae->pundef.insert(ph); grown = true; } continue; }
            const V& v0 = ae->phi0[ph];
            if (sameV(v0, now) && v0.k != V::U) continue;
            grown = true;
            if (v0.k == V::I && now.k == V::I && v0.w == now.w && (v0.w == 64 || v0.w == 32)) {
                z3::expr d = (E(now) - E(v0)).simplify();
                if (!mentions(d)) { ae->plin[ph] = Lin{v0.w / 8u, v0, make_shared<z3::expr>(d)}; continue; }
            }
            ae->pundef.insert(ph);
        }
        bool probing = isProbe(aid);
        if (grown) { // restart from the loop entry with these facts.
            StateP T = make_shared<State>(*ae->entry);
            T->restartEntry = aid; T->restartFinal = !probing;
            bool dup = false;
            for (auto& wk : work) if (wk->restartEntry == aid && wk->restartFinal == T->restartFinal) dup = true;
            if (!dup) work.push_back(T);
            throw PathEnd{};
        }
        if (probing) throw PathEnd{};
        for (auto& c : chg) { Obj& o = wr(c.first); for (auto b : c.second) { o.def[b] = 0; auto ci = o.cells.upper_bound(b); if (ci != o.cells.begin()) { --ci; if (ci->first + ci->second.size > b) { for (uint32_t q = 0; q < ci->second.size; q++) o.def[ci->first + q] = 0; o.cells.erase(ci); } } } }
        // After the loop: n iterations were made.
        z3::expr n = zc->int_const(("trips!" + std::to_string(S->fresh++)).c_str());
        V stp = val(stepv), start = ae->phi0[ind];
        z3::expr e = E(start) + n * E(stp);
        addpc(n > k); addpc(e >= E(nv[idx].second)); addpc(e <= zi(wmax(w)));
        auto linAt = [&](const Lin& l) {
            unsigned lw = l.size * 8; z3::expr x = E(l.v0) + n * *l.delta;
            addpc(x >= zi(wmin(lw))); addpc(x <= zi(wmax(lw)));
            return mkS(lw, x, wmin(lw), wmax(lw));
        };
        for (auto& l : ae->lin) putInt(l.first.first, l.first.second, l.second.size, linAt(l.second));
        nv[idx].second = mkS(w, e, wmin(w), wmax(w));
        for (size_t q = 0; q < nv.size(); q++) if ((int)q != idx) {
            auto* ph = nv[q].first;
            if (ae->plin.count(ph)) nv[q].second = linAt(ae->plin[ph]);
            else if (ae->pundef.count(ph)) nv[q].second = mkU();
        }
        S->exitSub.push_back({n, ae->inv_bound});
        it->second = mkI(8, 3);                          // force exit at the header.
    }
    void addpc_case(const z3::expr& c) { // witness precondition: outside it the iteration does not exist (assertions after the loop will tell).
        if (must(c)) return;
        prove(c, "loop-witness", "chosen iteration number is not negative");
    }
    V getIntOf(Obj& o, uint64_t off, uint32_t sz) { try { return loadScalar(o, off, sz, Type::getIntNTy(M.getContext(), sz * 8)); } catch (Unsupported&) { return mkU(); } }
    V getInt(uint32_t obj, uint64_t off, uint32_t sz) { return getIntOf(*S->objs[obj], off, sz); }
    void putInt(uint32_t obj, uint64_t off, uint32_t sz, V v) { memStore(mkP(obj, (i128)off), Type::getIntNTy(M.getContext(), sz * 8), v); }
    void diff(const Obj& a, const Obj& b, std::set<uint64_t>& out) {
        if (a.symbuf || b.symbuf) return;
        for (uint64_t i = 0; i < b.size; i++) if (a.def[i] != b.def[i] || a.bytes[i] != b.bytes[i]) out.insert(i);
        for (auto& c : b.cells) { auto j = a.cells.find(c.first); if (j == a.cells.end() || j->second.size != c.second.size || !sameV(j->second.v, c.second.v)) for (uint32_t q = 0; q < c.second.size; q++) out.insert(c.first + q); }
        for (auto& c : a.cells) { auto j = b.cells.find(c.first); if (j == b.cells.end()) for (uint32_t q = 0; q < c.second.size; q++) out.insert(c.first + q); }
    }
    static bool sameV(const V& a, const V& b) {
        if (a.k != b.k || a.w != b.w || a.obj != b.obj || a.c != b.c || a.d != b.d) return false;
        if ((bool)a.s != (bool)b.s) return false;
        if (a.s && !z3::eq(a.s->e, b.s->e)) return false;
        return true;
    }
    void branch(BranchInst* br) {
        if (br->isUnconditional()) { jump(br->getSuccessor(0)); return; }
        Frame& f = S->st.back();
        V c = val(br->getCondition());
        if (!f.arb.empty()) {
            LoopInfo& LI = loopInfo(f.f);
            Loop* L = LI.getLoopFor(f.bb);
            if (L && L->getHeader() == f.bb) {
                auto it = f.arb.find(L);
                if (it != f.arb.end()) {
                    int mode = (int)it->second.c;
                    bool in0 = L->contains(br->getSuccessor(0));
                    z3::expr ce = E(c); z3::expr stay = in0 ? ce : !ce;
                    if (mode == 3) { // leaving
                        f.arb.erase(it);
                        addpc(!stay);
                        if (S->exitSub.size()) { auto x = S->exitSub.back(); S->exitSub.pop_back(); if (x.second) { z3::expr_vector fr(*zc), to(*zc); fr.push_back(x.first); to.push_back(x.first - 1); z3::expr st2 = stay; addpc(st2.substitute(fr, to)); } }
                        if (!may(zc->bool_val(true))) throw PathEnd{};
                        jump(br->getSuccessor(in0 ? 1 : 0)); return;
                    }
                    if (mode == 1) {
                        it->second = mkI(8, 4);
                        // fallthrough to the normal two-way branch; exit side means "iteration does not exist".
                        bool t = boolOf(c);
                        bool goesIn = (t == in0);
                        if (!goesIn) {
                            shared_ptr<ArbEntry> ae = arb[S->arbEntries.back()];
                            if (isProbe(S->arbEntries.back())) throw PathEnd{};
                            if (ae->inv_bound) { // no iteration: k is the trip count.
                                z3::expr_vector fr(*zc), to(*zc); fr.push_back(*ae->k); to.push_back(*ae->k - 1);
                                z3::expr st2 = stay; addpc(*ae->k == 0 || st2.substitute(fr, to));
                            }
                            S->st.back().arb.erase(L); S->arbEntries.pop_back(); S->arbSnap.pop_back();
                        }
                        jump(br->getSuccessor(t ? 0 : 1)); return;
                    }
                }
            }
        }
        bool t = boolOf(c);
        jump(br->getSuccessor(t ? 0 : 1));
    }
    void pushFrame(Function* fn, const vector<V>& args, CallBase* call) {
        if (S->st.size() > 3000) throw Unsupported{"recursion too deep"};
        prep(fn);
        g_fn_exec[fn]++;
        Frame fr; fr.f = fn; fr.bb = &fn->getEntryBlock(); fr.it = fr.bb->begin();
        fr.loc.resize(nslots[fn]); fr.call = call;
        for (unsigned i = 0; i < fn->arg_size() && i < args.size(); i++) {
            fr.loc[i] = args[i];
            auto* A = fn->getArg(i);
            if (A->hasByValAttr() && args[i].k == V::P) { // byval copy.
                Type* t = A->getParamByValType(); uint64_t n = DL.getTypeAllocSize(t);
                uint32_t o = newObj(n, "byval"); fr.allocas.push_back(o);
                memCopy(mkP(o, 0), args[i], n); fr.loc[i] = mkP(o, 0);
            }
        }
        S->st.push_back(std::move(fr));
    }
    bool isProbe(int aid) { for (int x : S->probes) if (x == aid) return true; return false; }
    void popFrame() {
        if (!S->st.back().arb.empty() && isProbe(S->arbEntries.back())) throw PathEnd{};
        for (size_t i = 0; i < S->st.back().arb.size(); i++) { S->arbEntries.pop_back(); S->arbSnap.pop_back(); }
        for (auto o : S->st.back().allocas) { S->objs[o] = make_shared<Obj>(); S->objs[o]->live = false; }
        S->st.pop_back();
    }
    void doRet(V rv) {
        CallBase* call = S->st.back().call;
        popFrame();
        if (S->st.empty()) { endPath(); return; }
        finishCall(call, rv);
    }
    void finishCall(CallBase* call, V rv) {
        Frame& f = S->st.back();
        if (!call) { return; }
        if (!call->getType()->isVoidTy()) set(call, rv);
        if (auto* inv = dyn_cast<InvokeInst>(call)) jump(inv->getNormalDest());
        else { f.it = BasicBlock::iterator(call); ++f.it; }
    }
    void endPath() { g_paths++; throw PathEnd{}; }

    // ------------------------------------------------------------ exceptions
    std::map<uint32_t, int> tids; int tidOf(uint32_t o) { if (!o) return 1; auto i = tids.find(o); if (i != tids.end()) return i->second; int n = (int)tids.size() + 2; return tids[o] = n; }
    std::map<uint32_t, const GlobalVariable*> objGV;
    bool tiDerives(uint32_t t, uint32_t base, int64_t* off = nullptr) {
        if (t == base) return true;
        auto i = objGV.find(t), j = objGV.find(base);
        if (i == objGV.end()) return false;
        if (j != objGV.end() && i->second->getName() == j->second->getName()) return true;
        if (!i->second->hasInitializer()) return false;
        auto* cs = dyn_cast<ConstantStruct>(i->second->getInitializer());
        if (!cs) return false;
        for (unsigned k = 2; k < cs->getNumOperands(); k++)
            if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(k)->stripPointerCasts())) {
                int64_t o2 = 0;
                if (k + 1 < cs->getNumOperands()) if (auto* ci = dyn_cast<ConstantInt>(cs->getOperand(k + 1))) o2 = ci->getSExtValue() >> 8;
                int64_t o3 = 0;
                if (tiDerives(gobj[b], base, &o3)) { if (off) *off = o2 + o3; return true; }
            }
        return false;
    }
    int matchClauses(LandingPadInst* lp, uint32_t ti, bool& any) {
        any = lp->isCleanup();
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
            if (!lp->isCatch(i)) { continue; }
            Constant* c = lp->getClause(i);
            if (c->isNullValue()) { any = true; return 1; }
            V v = constV(c);
            if (ti && tiDerives(ti, v.obj)) { any = true; return tidOf(v.obj); }
        }
        return 0;
    }
    void unwind(CallBase* pending) {
        // pending: the call instruction being executed in the top frame.
        g_throws++;
        while (true) {
            if (S->st.empty()) { uncaught(); }
            if (auto* inv = dyn_cast_or_null<InvokeInst>(pending)) {
                auto* lp = inv->getLandingPadInst();
                bool any; matchClauses(lp, S->exc_tiv.obj, any);
                if (any) { jump(inv->getUnwindDest()); return; }
            }
            pending = S->st.back().call;
            popFrame();
            if (S->st.empty()) uncaught();
        }
    }
    [[noreturn]] void uncaught() {
        Ob& ob = g_obs["exception|no exception escapes the harness"];
        ob.label = "no exception escapes the harness"; ob.kind = "exception"; ob.n++; ob.where = where();
        shared_ptr<z3::model> m;
        if (check(zc->bool_val(true), &m, true) == z3::sat) { ob.failed++; if (ob.model.empty()) ob.model = modelStr(m, &ob.inputs); }
        else ob.unknown++;
        throw PathEnd{};
    }
    void doThrow(V obj, V ti, CallBase* call) {
        S->exc = obj; S->exc_tiv = ti;
        unwind(call);
    }

    // ------------------------------------------------------------ instruction step
    void step() {
        Frame& f = S->st.back();
        Instruction* I = &*f.it; cur = I;
        S->steps++; g_steps++;
        if ((g_steps & 0x3fff) == 0 && now() > g_deadline) throw Unsupported{"time limit reached"};
        unsigned w = I->getType()->isIntegerTy() ? I->getType()->getIntegerBitWidth() : 0;
        switch (I->getOpcode()) {
        case Instruction::Br: branch(cast<BranchInst>(I)); return;
        case Instruction::Switch: {
            auto* sw = cast<SwitchInst>(I);
            V c = val(sw->getCondition());
            if (c.k == V::U) throw Unsupported{"switch on undefined"};
            i128 cv = c.s ? (c.s ? switchSym(sw, c) : 0) : c.c;
            if (c.s && cv == (i128)1 << 100) { jump(sw->getDefaultDest()); return; }
            for (auto& cs : sw->cases()) if ((i128)cs.getCaseValue()->getSExtValue() == cv) { jump(cs.getCaseSuccessor()); return; }
            jump(sw->getDefaultDest()); return;
        }
        case Instruction::Ret: {
            V r; if (auto* v = cast<ReturnInst>(I)->getReturnValue()) r = val(v);
            doRet(r); return;
        }
        case Instruction::Unreachable: {
            // e.g. falling off a non-void function: UB.
            proveIf(false, "unreachable", "no undefined control flow in " + where_fn()); throw PathEnd{};
        }
        case Instruction::Resume: {
            CallBase* call = f.call; popFrame();
            if (S->st.empty()) uncaught();
            unwind(call); return;
        }
        case Instruction::Call: case Instruction::Invoke: doCall(cast<CallBase>(I)); return;
        case Instruction::LandingPad: {
            auto* lp = cast<LandingPadInst>(I); bool any;
            int sel = matchClauses(lp, S->exc_tiv.obj, any);
            set(I, mkA({S->exc, mkI(32, sel)})); break;
        }
        case Instruction::Alloca: {
            auto* a = cast<AllocaInst>(I);
            V n = val(a->getArraySize()); if (n.s) throw Unsupported{"symbolic alloca"};
            uint64_t sz = DL.getTypeAllocSize(a->getAllocatedType()) * (uint64_t)n.c;
            uint32_t o = newObj(sz, a->getName().str());
            S->objs[o]->stack = true;
            S->st.back().allocas.push_back(o); set(I, mkP(o, 0)); break;
        }
        case Instruction::Load: { V v = memLoad(val(I->getOperand(0)), I->getType()); set(I, v); break; }
        case Instruction::Store: memStore(val(I->getOperand(1)), I->getOperand(0)->getType(), val(I->getOperand(0))); break;
        case Instruction::GetElementPtr: set(I, gep(cast<GEPOperator>(I))); break;
        case Instruction::PHI: throw Unsupported{"phi"};
        case Instruction::Select: {
            V c = val(I->getOperand(0)), a = val(I->getOperand(1)), b = val(I->getOperand(2));
            set(I, select(c, a, b)); break;
        }
        case Instruction::ICmp: {
            V a = val(I->getOperand(0)), b = val(I->getOperand(1));
            auto pr = cast<ICmpInst>(I)->getPredicate();
            if (a.k == V::A) { vector<V> r; for (size_t i = 0; i < a.a->size(); i++) r.push_back(icmp(pr, (*a.a)[i], (*b.a)[i])); set(I, mkA(r)); }
            else set(I, icmp(pr, a, b));
            break;
        }
        case Instruction::FCmp: {
            V a = val(I->getOperand(0)), b = val(I->getOperand(1));
            auto pr = cast<FCmpInst>(I)->getPredicate();
            if (a.k == V::A) { vector<V> r; for (size_t i = 0; i < a.a->size(); i++) r.push_back(fcmp(pr, (*a.a)[i], (*b.a)[i])); set(I, mkA(r)); }
            else set(I, fcmp(pr, a, b));
            break;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::SDiv: case Instruction::UDiv:
        case Instruction::SRem: case Instruction::URem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: {
            bool nsw = false, nuw = false;
            if (auto* ob = dyn_cast<OverflowingBinaryOperator>(I)) { nsw = ob->hasNoSignedWrap(); nuw = ob->hasNoUnsignedWrap(); }
            V a = val(I->getOperand(0)), b = val(I->getOperand(1));
            unsigned ww = I->getType()->getScalarType()->getIntegerBitWidth();
            if (a.k == V::A) { vector<V> r; for (size_t i = 0; i < a.a->size(); i++) r.push_back(binop(I->getOpcode(), (*a.a)[i], (*b.a)[i], ww, nsw, nuw)); set(I, mkA(r)); }
            else set(I, binop(I->getOpcode(), a, b, ww, nsw, nuw));
            break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            V a = val(I->getOperand(0)), b = val(I->getOperand(1));
            unsigned ww = fw(I->getType());
            if (a.k == V::A) { vector<V> r; for (size_t i = 0; i < a.a->size(); i++) r.push_back(fbin(I->getOpcode(), (*a.a)[i], (*b.a)[i], ww)); set(I, mkA(r)); }
            else set(I, fbin(I->getOpcode(), a, b, ww));
            break;
        }
        case Instruction::FNeg: { V a = val(I->getOperand(0)); if (a.k == V::A) { vector<V> r; for (auto& x : *a.a) r.push_back(fneg(x)); set(I, mkA(r)); } else set(I, fneg(a)); break; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
        case Instruction::BitCast: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP:
        case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::AddrSpaceCast: {
            V a = val(I->getOperand(0));
            if (a.k == V::A && I->getOpcode() != Instruction::BitCast) {
                vector<V> r; for (auto& x : *a.a) r.push_back(castV(I->getOpcode(), x, I->getOperand(0)->getType()->getScalarType(), I->getType()->getScalarType())); set(I, mkA(r));
            } else set(I, castV(I->getOpcode(), a, I->getOperand(0)->getType(), I->getType()));
            break;
        }
        case Instruction::Freeze: { V a = val(I->getOperand(0)); set(I, a); break; }
        case Instruction::ExtractValue: {
            auto* ev = cast<ExtractValueInst>(I); V a = val(ev->getAggregateOperand());
            for (unsigned i : ev->indices()) { if (a.k != V::A) { a = mkU(); break; } V t = (*a.a)[i]; a = t; }
            set(I, a); break;
        }
        case Instruction::InsertValue: {
            auto* iv = cast<InsertValueInst>(I); V a = val(iv->getAggregateOperand());
            V e = val(iv->getInsertedValueOperand());
            set(I, insertAt(a, iv->getIndices(), 0, e, iv->getType())); break;
        }
        case Instruction::ExtractElement: {
            V a = val(I->getOperand(0)), i = val(I->getOperand(1));
            if (i.s) { i128 c = concretize(E(i)); i = mkI(64, c); }
            set(I, a.k == V::A ? (*a.a)[(size_t)i.c] : mkU()); break;
        }
        case Instruction::InsertElement: {
            V a = val(I->getOperand(0)), e = val(I->getOperand(1)), i = val(I->getOperand(2));
            if (i.s) { i128 c = concretize(E(i)); i = mkI(64, c); }
            vector<V> r = a.k == V::A ? *a.a : vector<V>(cast<FixedVectorType>(I->getType())->getNumElements());
            r[(size_t)i.c] = e; set(I, mkA(r)); break;
        }
        case Instruction::ShuffleVector: {
            auto* sv = cast<ShuffleVectorInst>(I); V a = val(sv->getOperand(0)), b = val(sv->getOperand(1));
            unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
            vector<V> r;
            for (int m : sv->getShuffleMask()) {
                if (m < 0) r.push_back(mkU());
                else if ((unsigned)m < n) r.push_back(a.k == V::A ? (*a.a)[m] : mkU());
                else r.push_back(b.k == V::A ? (*b.a)[m - n] : mkU());
            }
            set(I, mkA(r)); break;
        }
        case Instruction::AtomicRMW: {
            auto* rm = cast<AtomicRMWInst>(I); V p = val(rm->getPointerOperand()), v = val(rm->getValOperand());
            Type* t = rm->getType(); V old = memLoad(p, t); V nw;
            switch (rm->getOperation()) {
            case AtomicRMWInst::Add: nw = binop(Instruction::Add, old, v, t->getIntegerBitWidth(), false, false); break;
            case AtomicRMWInst::Sub: nw = binop(Instruction::Sub, old, v, t->getIntegerBitWidth(), false, false); break;
            case AtomicRMWInst::Xchg: nw = v; break;
            case AtomicRMWInst::FAdd: nw = fbin(Instruction::FAdd, old, v, t->isFloatTy() ? 32 : 64); break;
            case AtomicRMWInst::Or: nw = binop(Instruction::Or, old, v, t->getIntegerBitWidth(), false, false); break;
            default: throw Unsupported{"atomicrmw"};
            }
            memStore(p, t, nw); set(I, old); break;
        }
        case Instruction::AtomicCmpXchg: {
            auto* cx = cast<AtomicCmpXchgInst>(I); V p = val(cx->getPointerOperand()); Type* t = cx->getNewValOperand()->getType();
            V old = memLoad(p, t); bool eq = boolOf(icmp(CmpInst::ICMP_EQ, old, val(cx->getCompareOperand())));
            if (eq) memStore(p, t, val(cx->getNewValOperand()));
            set(I, mkA({old, mkI(1, eq)})); break;
        }
        case Instruction::Fence: break;
        default: throw Unsupported{string("instruction ") + I->getOpcodeName()};
        }
        ++S->st.back().it;
    }
    i128 switchSym(SwitchInst* sw, const V& c) {
        for (auto& cs : sw->cases()) {
            i128 k = cs.getCaseValue()->getSExtValue();
            if (sw->getCondition()->getType()->isIntegerTy(1)) k &= 1;
            z3::expr eq = c.w == 1 ? (k ? E(c) : !E(c)) : (E(c) == zi(k));
            if (forkBool(eq)) return cs.getCaseValue()->getSExtValue();
        }
        return (i128)1 << 100;
    }
    unsigned fw(Type* t) { t = t->getScalarType(); return t->isFloatTy() ? 32 : t->isDoubleTy() ? 64 : 80; }
    V fneg(const V& a) { if (a.k == V::U) return a; if (!a.s) return mkF(a.w, -a.d); return mkSF(a.w, -a.s->e); }
    V insertAt(const V& a, ArrayRef<unsigned> ix, unsigned d, const V& e, Type* t) {
        if (d == ix.size()) return e;
        vector<V> r;
        if (a.k == V::A) r = *a.a;
        else r.resize(isa<StructType>(t) ? t->getStructNumElements() : t->getArrayNumElements());
        Type* st = isa<StructType>(t) ? t->getStructElementType(ix[d]) : t->getArrayElementType();
        r[ix[d]] = insertAt(r[ix[d]], ix, d + 1, e, st);
        return mkA(r);
    }
    V select(const V& c, const V& a, const V& b) {
        // Undefined choice between two addresses: keep both candidates; a load
        // through it is defined only where both candidates agree.
        if (c.k == V::U && (a.k == V::P || a.k == V::U) && (b.k == V::P || b.k == V::U) && (a.k == V::P || b.k == V::P)) {
            V u = mkU(); vector<V> cs;
            for (auto* x : {&a, &b}) { if (x->k == V::P) cs.push_back(*x); else if (x->a) cs.insert(cs.end(), x->a->begin(), x->a->end()); else return mkU(); }
            u.a = make_shared<vector<V>>(cs); return u;
        }
        if (c.k == V::A) {
            vector<V> r; for (size_t i = 0; i < c.a->size(); i++) r.push_back(select((*c.a)[i], (*a.a)[i], (*b.a)[i]));
            return mkA(r);
        }
        if (c.k == V::U) return mkU();
        if (!c.s) return c.c ? a : b;
        if (a.k == V::F && b.k == V::F && c.s->e.is_app() && c.s->e.decl().decl_kind() == Z3_OP_EQ) { // x == y ? y : x is x.
            z3::expr x = c.s->e.arg(0), y = c.s->e.arg(1), p = EF(a), q = EF(b);
            if ((z3::eq(p, y) && z3::eq(q, x)) || (z3::eq(p, x) && z3::eq(q, y))) return b;
        }
        if (sameV(a, b) && a.k != V::A) return a;
        if (a.k == V::I && b.k == V::I) {
            if (a.w == 1) return mkB(z3::ite(c.s->e, E(a), E(b)));
            return mkS(a.w, z3::ite(c.s->e, E(a), E(b)), std::min(lo(a), lo(b)), std::max(hi(a), hi(b)));
        }
        if (a.k == V::F && b.k == V::F && (a.s || std::isfinite(a.d)) && (b.s || std::isfinite(b.d))) return mkSF(a.w, z3::ite(c.s->e, EF(a), EF(b)));
        if (a.k == V::P && b.k == V::P && a.obj == b.obj) {
            V r = a; z3::expr x = a.s ? a.s->e : zi(a.c), y = b.s ? b.s->e : zi(b.c);
            i128 al = a.s ? a.s->lo : a.c, ah = a.s ? a.s->hi : a.c, bl = b.s ? b.s->lo : b.c, bh = b.s ? b.s->hi : b.c;
            z3::expr e = z3::ite(c.s->e, x, y).simplify();
            r.c = 0; r.s = make_shared<Sym>(Sym{e, std::min(al, bl), std::max(ah, bh)});
            return r;
        }
        return boolOf(c) ? a : b;
    }
    V gep(GEPOperator* g) {
        V b = val(g->getPointerOperand());
        if (b.k == V::I) b = intToPtr(b);
        if (b.k == V::U) return b;
        if (b.k == V::A) throw Unsupported{"vector gep"};
        i128 c = 0; std::optional<z3::expr> se; bool sy = false; i128 sl = 0, sh = 0;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            V ix = val(gi.getOperand());
            if (ix.k == V::U) return mkU();
            if (StructType* st = gi.getStructTypeOrNull()) {
                c += DL.getStructLayout(st)->getElementOffset((unsigned)ix.c); continue;
            }
            i128 es = DL.getTypeAllocSize(gi.getIndexedType());
            if (!ix.s) c += es * ix.c;
            else { z3::expr te = zi(es) * E(ix); se = se ? *se + te : te; sl = sadd(sl, smul(lo(ix), es)); sh = sadd(sh, smul(hi(ix), es)); sy = true; }
        }
        if (!sy && !b.s) { b.c += c; return b; }
        z3::expr e0 = (b.s ? b.s->e : zi(b.c)) + zi(c);
        z3::expr e = (se ? e0 + *se : e0).simplify();
        i128 bl = b.s ? b.s->lo : b.c, bh = b.s ? b.s->hi : b.c;
        V r = b; i128 cc;
        if (numval(e, cc)) { r.s.reset(); r.c = cc; return r; }
        r.c = 0; r.s = make_shared<Sym>(Sym{e, sadd(sadd(bl, c), sl), sadd(sadd(bh, c), sh)});
        return r;
    }
    V castV(unsigned op, const V& a, Type* from, Type* to) {
        if (a.k == V::U) {
            if (op == Instruction::BitCast && isa<FixedVectorType>(to)) return mkA(vector<V>(cast<FixedVectorType>(to)->getNumElements()));
            return a;
        }
        switch (op) {
        case Instruction::Trunc: return trunc(a, to->getIntegerBitWidth());
        case Instruction::ZExt: return zext(a, to->getIntegerBitWidth());
        case Instruction::SExt: return sext(a, to->getIntegerBitWidth());
        case Instruction::PtrToInt: { V v = ptrToInt(a, 64); return to->getIntegerBitWidth() < 64 ? trunc(v, to->getIntegerBitWidth()) : v; }
        case Instruction::IntToPtr: return intToPtr(a);
        case Instruction::AddrSpaceCast: return a;
        case Instruction::BitCast: {
            if (from->isPointerTy()) return a;
            auto* fv = dyn_cast<FixedVectorType>(from); auto* tv = dyn_cast<FixedVectorType>(to);
            if (fv && tv && fv->getNumElements() == tv->getNumElements()) {
                vector<V> r; for (auto& x : *a.a) r.push_back(rebits(x, tv->getElementType())); return mkA(r);
            }
            if (!fv && !tv) return rebits(a, to);
            return bitcastBytes(a, from, to);
        }
        case Instruction::FPExt: case Instruction::FPTrunc: { if (!a.s) return mkF(fw(to), a.d); V r = a; r.w = fw(to); return r; }
        case Instruction::SIToFP: if (!a.s) return mkF(fw(to), (double)a.c); return mkSF(fw(to), z3::to_real(a.w == 1 ? z3::ite(E(a), zi(-1), zi(0)) : E(a)));
        case Instruction::UIToFP: { if (!a.s) { V z = zext(a, 127); return mkF(fw(to), (double)z.c); } return mkSF(fw(to), z3::to_real(uns(a))); }
        case Instruction::FPToSI: case Instruction::FPToUI: {
            unsigned w = to->getIntegerBitWidth();
            if (!a.s) { if (std::isnan(a.d) || std::fabs(a.d) > 1.8e19) { proveIf(false, "arith", "fp to int in range in " + where_fn()); throw PathEnd{}; } return mkI(w, (i128)a.d); }
            z3::expr e = a.s->e;
            z3::expr fl = z3::expr(*zc, Z3_mk_real2int(*zc, e));
            z3::expr t = z3::ite(e >= 0, fl, -z3::expr(*zc, Z3_mk_real2int(*zc, -e)));
            return rangeCheck(t, IMIN, IMAX, w, true, false, "fptosi");
        }
        }
        throw Unsupported{"cast"};
    }
    V rebits(const V& x, Type* t) {
        if (x.k == V::U) return x;
        if (t->isPointerTy() || x.k == V::P) return retype(x, t);
        if (t->isIntegerTy() && x.k == V::F && x.s) return x; // carried opaquely
        return retype(x, t);
    }
    V bitcastBytes(const V& a, Type* from, Type* to) {
        uint64_t n = DL.getTypeStoreSize(from);
        // vector of bits <-> integer masks.
        auto* fv = dyn_cast<FixedVectorType>(from);
        if (fv && fv->getElementType()->isIntegerTy(1) && to->isIntegerTy()) {
            unsigned w = to->getIntegerBitWidth(); V acc = mkI(w, 0);
            for (unsigned i = 0; i < fv->getNumElements(); i++) { V b = zext((*a.a)[i], w); acc = binop(Instruction::Or, acc, binop(Instruction::Shl, b, mkI(w, i), w, false, false), w, false, false); }
            return acc;
        }
        auto* tv = dyn_cast<FixedVectorType>(to);
        if (tv && tv->getElementType()->isIntegerTy(1) && from->isIntegerTy()) {
            unsigned w = from->getIntegerBitWidth(); vector<V> r;
            for (unsigned i = 0; i < tv->getNumElements(); i++) r.push_back(trunc(binop(Instruction::LShr, a, mkI(w, i), w, false, false), 1));
            return mkA(r);
        }
        uint32_t o = newObj(n, "bitcast");
        storeV(wr(o), 0, from, a);
        V r = loadV(rd(o), 0, to);
        S->objs[o] = make_shared<Obj>(); S->objs[o]->live = false;
        return r;
    }

    // ------------------------------------------------------------ calls
    string cstr(const V& p) {
        if (p.k != V::P || !p.obj) return "";
        Obj& o = rd(p.obj); string s;
        for (uint64_t i = (uint64_t)p.c; i < o.size && o.bytes[i]; i++) s += (char)o.bytes[i];
        return s;
    }
    static bool startsWith(const string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
    bool isStub(const string& n) {
        static const char* pre[] = {"std::basic_ostream", "std::basic_istream", "std::basic_ios", "std::ios_base", "std::__cxx11::basic_stringbuf",
            "std::__cxx11::basic_ostringstream", "std::__cxx11::basic_istringstream", "std::__cxx11::basic_stringstream", "std::basic_ofstream", "std::basic_ifstream", "std::basic_streambuf", "std::basic_filebuf",
            "std::locale", "std::ctype", "std::__ostream_insert", "std::operator<<", "std::ostream", "std::istream", "std::setw", "std::setprecision", "std::setfill", "std::hex", "std::dec", "std::fixed", "std::scientific", "std::endl"};
        for (auto p : pre) if (startsWith(n, p)) return true;
        static const char* sub[] = {"std::basic_ostream<char, std::char_traits<char>>& std::", "std::basic_ostream<char, std::char_traits<char> >& std::", "std::basic_istream<char, std::char_traits<char>>& std::", "std::basic_istream<char, std::char_traits<char> >& std::"};
        for (auto p : sub) if (startsWith(n, p)) return true;
        return false;
    }
    llvm::DenseMap<const Function*, int> stubCache;
    void mkEmptyString(const V& p) {
        // libstdc++ std::string: {char* p; size_t len; union{char buf[16]; size_t cap}}
        Ref r = resolve(p, 32, "string result");
        Obj& o = wr(r.obj);
        storeScalar(o, r.off, 8, mkP(r.obj, (i128)r.off + 16));
        storeScalar(o, r.off + 8, 8, mkI(64, 0));
        for (int i = 0; i < 2; i++) storeScalar(o, r.off + 16 + 8 * i, 8, mkI(64, 0));
    }
    void doCall(CallBase* call) {
        if (call->isInlineAsm()) { finishCall(call, mkU()); return; }
        Function* fn = call->getCalledFunction();
        if (!fn) {
            Value* cv = call->getCalledOperand()->stripPointerCasts();
            if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
            fn = dyn_cast<Function>(cv);
            if (!fn) {
                V p = val(call->getCalledOperand());
                if (p.k == V::U) throw Unsupported{"call through undefined pointer @ " + where()};
                if (p.k != V::P || p.s) throw Unsupported{"call through symbolic pointer"};
                if (!p.obj || !fobj.count(p.obj) || p.c) { proveIf(false, "memory", "call through a valid function pointer in " + where_fn()); throw PathEnd{}; }
                fn = fobj[p.obj];
            }
        }
        if (auto* ii = dyn_cast<IntrinsicInst>(call)) { intrinsic(ii, fn); return; }
        vector<V> args;
        for (unsigned i = 0; i < call->arg_size(); i++) {
            if (call->getArgOperand(i)->getType()->isMetadataTy()) { args.push_back(mkU()); continue; }
            args.push_back(val(call->getArgOperand(i)));
        }
        StringRef nm = fn->getName();
        if (nm.starts_with("llvm.")) { x86intr(call, fn, args); return; }
        if (nm.starts_with("yv_")) { if (yvApi(call, nm.str(), args)) return; }
        auto ct = S->contracts.find(fn);
        if (ct != S->contracts.end()) {
            g_contract_calls[dname(fn)]++;
            pushFrame(ct->second, args, call); return;
        }
        const string& dn = dname(fn);
        auto sc = stubCache.find(fn);
        if (sc == stubCache.end()) sc = stubCache.insert({fn, isStub(dn) ? 1 : minmaxKind(dn)}).first;
        if (sc->second == 1) {
            g_stub_used[dn.substr(0, 60)]++;
            V r = mkU();
            if (fn->getReturnType()->isPointerTy()) r = args.empty() ? mkP(0, 0) : args[0];
            else if (fn->getReturnType()->isIntegerTy()) r = mkI(fn->getReturnType()->getIntegerBitWidth(), 0);
            if (call->hasStructRetAttr() && dn.find("::str() const") != string::npos) mkEmptyString(args[0]);
            finishCall(call, r); return;
        }
        if (call->hasStructRetAttr() && args.size() == 2 && args[1].s && dn.compare(0, 24, "std::__cxx11::to_string(") == 0) { // digits of a symbolic number: messages only.
            g_stub_used["std::to_string(symbolic)"]++; mkEmptyString(args[0]); finishCall(call, mkU()); return;
        }
        if (sc->second == 2 || sc->second == 3) { // std::max / std::min on scalars by reference: no fork.
            Type* et = minmaxType(dn);
            if (et) {
                V a = memLoad(args[0], et), b = memLoad(args[1], et);
                if (a.k != V::U && b.k != V::U && (a.s || b.s)) {
                    V lt = et->isIntegerTy() ? (minmaxUns(dn) ? icmp(CmpInst::ICMP_ULT, a, b) : icmp(CmpInst::ICMP_SLT, a, b)) : fcmp(CmpInst::FCMP_OLT, a, b);
                    V r = sc->second == 2 ? select(lt, b, a) : (et->isIntegerTy() ? select(minmaxUns(dn) ? icmp(CmpInst::ICMP_ULT, b, a) : icmp(CmpInst::ICMP_SLT, b, a), b, a) : select(fcmp(CmpInst::FCMP_OLT, b, a), b, a));
                    uint32_t o = newObj(vsize(et), "minmax"); S->st.back().allocas.push_back(o);
                    storeV(wr(o), 0, et, r);
                    finishCall(call, mkP(o, 0)); return;
                }
            }
        }
        if (fn->isDeclaration()) { external(call, fn, nm.str(), args); return; }
        pushFrame(fn, args, call);
    }
    int minmaxKind(const string& n) {
        if (n.find("std::max<") != string::npos && n.find("const&, ") != string::npos && n.find("initializer_list") == string::npos && startsWith2(n, "std::max<")) return 2;
        if (n.find("std::min<") != string::npos && n.find("const&, ") != string::npos && n.find("initializer_list") == string::npos && startsWith2(n, "std::min<")) return 3;
        return 0;
    }
    bool startsWith2(const string& n, const char* p) { auto k = n.find(p); if (k == string::npos) return false; // preceded only by the return type
        for (size_t i = 0; i < k; i++) if (n[i] == '(' ) return false; return true; }
    bool minmaxUns(const string& n) { return n.find("<unsigned") != string::npos; }
    Type* minmaxType(const string& n) {
        auto k = n.find('<'); string t = n.substr(k + 1, n.find('>') - k - 1);
        auto& C = M.getContext();
        if (t == "long" || t == "unsigned long" || t == "long long") return Type::getInt64Ty(C);
        if (t == "int" || t == "unsigned int") return Type::getInt32Ty(C);
        if (t == "double") return Type::getDoubleTy(C);
        if (t == "float") return Type::getFloatTy(C);
        return nullptr;
    }
    void intrinsic(IntrinsicInst* ii, Function* fn) {
        auto done = [&](V r) { finishCall(ii, r); };
        auto A = [&](unsigned i) { return val(ii->getArgOperand(i)); };
        Type* t = ii->getType(); unsigned w = t->getScalarType()->isIntegerTy() ? t->getScalarType()->getIntegerBitWidth() : 0;
        auto map1 = [&](auto f) { V a = A(0); if (a.k == V::A) { vector<V> r; for (auto& x : *a.a) r.push_back(f(x)); return mkA(r); } return f(a); };
        auto map2 = [&](auto f) { V a = A(0), b = A(1); if (a.k == V::A) { vector<V> r; for (size_t i = 0; i < a.a->size(); i++) r.push_back(f((*a.a)[i], (*b.a)[i])); return mkA(r); } return f(a, b); };
        switch (ii->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
        case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation:
            done(mkU()); return;
        case Intrinsic::stacksave: case Intrinsic::invariant_start: done(mkP(0, 0)); return;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: done(A(0)); return;
        case Intrinsic::expect: done(A(0)); return;
        case Intrinsic::objectsize: done(mkI(w, -1)); return;
        case Intrinsic::is_constant: done(mkI(1, 0)); return;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            V n = A(2); if (n.s) n = mkI(64, concretize(E(n)));
            memCopy(A(0), A(1), (uint64_t)n.c); done(mkU()); return;
        }
        case Intrinsic::memset: { V n = A(2); if (n.s) n = mkI(64, concretize(E(n))); memSet(A(0), A(1), (uint64_t)n.c); done(mkU()); return; }
        case Intrinsic::trap: case Intrinsic::ubsantrap: proveIf(false, "trap", "no trap in " + where_fn()); throw PathEnd{};
        case Intrinsic::smax: done(map2([&](V a, V b) { return select(icmp(CmpInst::ICMP_SGT, a, b), a, b); })); return;
        case Intrinsic::smin: done(map2([&](V a, V b) { return select(icmp(CmpInst::ICMP_SLT, a, b), a, b); })); return;
        case Intrinsic::umax: done(map2([&](V a, V b) { return select(icmp(CmpInst::ICMP_UGT, a, b), a, b); })); return;
        case Intrinsic::umin: done(map2([&](V a, V b) { return select(icmp(CmpInst::ICMP_ULT, a, b), a, b); })); return;
        case Intrinsic::abs: done(map1([&](V a) { return select(icmp(CmpInst::ICMP_SLT, a, mkI(w, 0)), binop(Instruction::Sub, mkI(w, 0), a, w, false, false), a); })); return;
        case Intrinsic::is_fpclass: { // reals are finite; zero counts as positive zero.
            V v = A(0); int64_t m = (int64_t)A(1).c;
            if (v.k == V::U) { done(v); return; }
            if (!v.s) { double x = v.d; bool r = std::isnan(x) ? (m & 3) : std::isinf(x) ? (m & (x < 0 ? 4 : 512)) : x == 0 ? (m & (std::signbit(x) ? 32 : 64)) : std::isnormal(x) ? (m & (x < 0 ? 8 : 256)) : (m & (x < 0 ? 16 : 128)); done(mkI(1, r)); return; }
            if ((m & 504) == 504) { done(mkI(1, 1)); return; }
            if ((m & 504) == 0) { done(mkI(1, 0)); return; }
            throw Unsupported{"fp class test"};
        }
        case Intrinsic::fabs: done(map1([&](V a) { if (a.k == V::U) return a; if (!a.s) return mkF(a.w, std::fabs(a.d)); return mkSF(a.w, z3::ite(a.s->e >= 0, a.s->e, -a.s->e)); })); return;
        case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::trunc: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::sin: case Intrinsic::cos: {
            auto id = ii->getIntrinsicID();
            done(map1([&](V a) { return fmath(id == Intrinsic::sqrt ? "sqrt" : id == Intrinsic::floor ? "floor" : id == Intrinsic::ceil ? "ceil" : id == Intrinsic::round ? "round" : id == Intrinsic::trunc ? "trunc" : id == Intrinsic::exp ? "exp" : id == Intrinsic::log ? "log" : id == Intrinsic::sin ? "sin" : "cos", a); })); return;
        }
        case Intrinsic::pow: { V a = A(0), b = A(1); done(fmath2("pow", a, b)); return; }
        case Intrinsic::fmuladd: case Intrinsic::fma: {
            V a = A(0), b = A(1), c = A(2); unsigned ww = fw(t);
            auto one = [&](const V& x, const V& y, const V& z) { if (!x.s && !y.s && !z.s && x.k == V::F && y.k == V::F && z.k == V::F) return mkF(ww, ii->getIntrinsicID() == Intrinsic::fma ? std::fma(x.d, y.d, z.d) : x.d * y.d + z.d); return fbin(Instruction::FAdd, fbin(Instruction::FMul, x, y, ww), z, ww); };
            if (a.k == V::A) { vector<V> r; for (size_t i = 0; i < a.a->size(); i++) r.push_back(one((*a.a)[i], (*b.a)[i], (*c.a)[i])); done(mkA(r)); }
            else done(one(a, b, c));
            return;
        }
        case Intrinsic::minnum: case Intrinsic::maxnum: { bool mx = ii->getIntrinsicID() == Intrinsic::maxnum; done(map2([&](V a, V b) { V c = fcmp(mx ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a, b); return select(c, a, b); })); return; }
        case Intrinsic::copysign: { V a = A(0), b = A(1); if (a.s || b.s) throw Unsupported{"copysign"}; done(mkF(a.w, std::copysign(a.d, b.d))); return; }
        case Intrinsic::ctpop: { V a = A(0); if (a.k == V::U) { done(a); return; } if (a.s) throw Unsupported{"ctpop sym"}; i128 u = a.c; int n = 0; for (unsigned i = 0; i < w; i++) if ((u >> i) & 1) n++; done(mkI(w, n)); return; }
        case Intrinsic::ctlz: { V a = A(0); if (a.s) throw Unsupported{"ctlz sym"}; int n = 0; for (int i = w - 1; i >= 0 && !((a.c >> i) & 1); i--) n++; done(mkI(w, n)); return; }
        case Intrinsic::cttz: { V a = A(0); if (a.s) throw Unsupported{"cttz sym"}; unsigned n = 0; for (; n < w && !((a.c >> n) & 1); n++) {} done(mkI(w, n)); return; }
        case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
            V a = A(0), b = A(1); unsigned ww = a.w; auto id = ii->getIntrinsicID();
            bool uns_ = id == Intrinsic::uadd_with_overflow || id == Intrinsic::umul_with_overflow || id == Intrinsic::usub_with_overflow;
            bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow, sub = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow;
            if (!a.s && !b.s) {
                i128 x = a.c, y = b.c; if (uns_) { if (x < 0) x += (i128)1 << ww; if (y < 0) y += (i128)1 << ww; }
                i128 r; bool o = mul ? __builtin_mul_overflow(x, y, &r) : sub ? __builtin_sub_overflow(x, y, &r) : __builtin_add_overflow(x, y, &r);
                i128 l = uns_ ? 0 : wmin(ww), h = uns_ ? (((i128)1 << ww) - 1) : wmax(ww);
                done(mkA({mkI(ww, r), mkI(1, o || r < l || r > h)})); return;
            }
            z3::expr x = uns_ ? uns(a) : E(a), y = uns_ ? uns(b) : E(b);
            z3::expr r = mul ? x * y : sub ? x - y : x + y;
            z3::expr o = r < (uns_ ? zi(0) : zi(wmin(ww))) || r > (uns_ ? zi(((i128)1 << ww) - 1) : zi(wmax(ww)));
            V rv = must(r >= zi(wmin(ww)) && r <= zi(wmax(ww))) ? mkS(ww, r, wmin(ww), wmax(ww)) : wrap(r, ww);
            done(mkA({rv, mkB(o)})); return;
        }
        case Intrinsic::eh_typeid_for: { V v = A(0); done(mkI(32, tidOf(v.obj))); return; }
        case Intrinsic::vector_reduce_add: { V a = A(0); V acc = (*a.a)[0]; for (size_t i = 1; i < a.a->size(); i++) acc = binop(Instruction::Add, acc, (*a.a)[i], w, false, false); done(acc); return; }
        case Intrinsic::masked_store: {
            V v = A(0), p = A(1), m = A(3); auto* vt = cast<FixedVectorType>(ii->getArgOperand(0)->getType()); maskedStore(p, vt, v, m); done(mkU()); return;
        }
        case Intrinsic::masked_load: {
            V p = A(0), m = A(2), th = A(3); auto* vt = cast<FixedVectorType>(t); uint64_t es = vsize(vt->getElementType()); vector<V> r;
            for (unsigned i = 0; i < vt->getNumElements(); i++) { if (boolOf((*m.a)[i])) r.push_back(memLoad(padd(p, es * i), vt->getElementType())); else r.push_back(th.k == V::A ? (*th.a)[i] : mkU()); }
            done(mkA(r)); return;
        }
        default: break;
        }
        vector<V> args; for (unsigned i = 0; i < ii->arg_size(); i++) args.push_back(ii->getArgOperand(i)->getType()->isMetadataTy() ? mkU() : A(i));
        x86intr(ii, fn, args);
    }
    V padd(V p, i128 n) { if (p.s) { V r = p; r.s = make_shared<Sym>(Sym{(p.s->e + zi(n)).simplify(), sadd(p.s->lo, n), sadd(p.s->hi, n)}); return r; } p.c += n; return p; }
    void maskedStore(const V& p, FixedVectorType* vt, const V& v, const V& m) {
        uint64_t es = vsize(vt->getElementType());
        for (unsigned i = 0; i < vt->getNumElements(); i++) {
            V b = (*m.a)[i]; if (b.w > 1) b = icmp(CmpInst::ICMP_SLT, b, mkI(b.w, 0));
            if (!b.s) { if (b.c) memStore(padd(p, es * i), vt->getElementType(), (*v.a)[i]); continue; }
            V old = memLoad(padd(p, es * i), vt->getElementType());
            memStore(padd(p, es * i), vt->getElementType(), select(b, (*v.a)[i], old));
        }
    }
    void x86intr(CallBase* call, Function* fn, vector<V>& args) {
        string n = fn->getName().str();
        if (n == "llvm.x86.avx.maskstore.pd.256" || n == "llvm.x86.avx.maskstore.ps.256" || n == "llvm.x86.avx.maskstore.pd" || n == "llvm.x86.avx.maskstore.ps") {
            auto* vt = cast<FixedVectorType>(call->getArgOperand(2)->getType());
            maskedStore(args[0], vt, args[2], args[1]); finishCall(call, mkU()); return;
        }
        if (n == "llvm.x86.sse2.mfence" || n == "llvm.x86.sse.sfence" || n == "llvm.x86.sse2.lfence" || n == "llvm.x86.sse2.pause") { finishCall(call, mkU()); return; }
        throw Unsupported{"intrinsic " + n};
    }
    V fmath(const string& f, const V& a) {
        if (a.k == V::U) return a;
        if (!a.s) {
            double x = a.d, r;
            if (f == "sqrt") r = std::sqrt(x); else if (f == "floor") r = std::floor(x); else if (f == "ceil") r = std::ceil(x);
            else if (f == "round") r = std::round(x); else if (f == "trunc") r = std::trunc(x); else if (f == "exp") r = std::exp(x); else if (f == "log") r = std::log(x);
            else if (f == "sin") r = std::sin(x); else if (f == "cos") r = std::cos(x); else if (f == "tan") r = std::tan(x); else if (f == "atan") r = std::atan(x); else if (f == "asin") r = std::asin(x); else if (f == "acos") r = std::acos(x);
            else if (f == "cbrt") r = std::cbrt(x); else if (f == "fabs") r = std::fabs(x); else if (f == "log10") r = std::log10(x); else if (f == "log2") r = std::log2(x);
            else throw Unsupported{"math " + f};
            return mkF(a.w, r);
        }
        if (f == "floor") return mkSF(a.w, z3::to_real(z3::expr(*zc, Z3_mk_real2int(*zc, a.s->e))));
        if (f == "ceil") return mkSF(a.w, -z3::to_real(z3::expr(*zc, Z3_mk_real2int(*zc, -a.s->e))));
        if (f == "fabs") return mkSF(a.w, z3::ite(a.s->e >= 0, a.s->e, -a.s->e));
        z3::func_decl d = z3::function(("fn_" + f).c_str(), zc->real_sort(), zc->real_sort());
        return mkSF(a.w, d(a.s->e));
    }
    V fmath2(const string& f, const V& a, const V& b) {
        if (a.k == V::U || b.k == V::U) return mkU();
        if (!a.s && !b.s) return mkF(a.w, f == "pow" ? std::pow(a.d, b.d) : f == "fmod" ? std::fmod(a.d, b.d) : std::atan2(a.d, b.d));
        if (f == "pow" && !b.s && b.d == 2.0) return fbin(Instruction::FMul, a, a, a.w);
        z3::func_decl d = z3::function(("fn_" + f).c_str(), zc->real_sort(), zc->real_sort(), zc->real_sort());
        return mkSF(a.w, d(EF(a), EF(b)));
    }

    // ------------------------------------------------------------ yv_* API
    V boolArg(const V& v) { if (v.k == V::U) throw Unsupported{"assert/assume on an undefined value @ " + where()}; if (v.w == 1) return v; return icmp(CmpInst::ICMP_NE, v, mkI(v.w, 0)); }
    bool yvApi(CallBase* call, const string& n, vector<V>& a) {
        auto done = [&](V r) { finishCall(call, r); return true; };
        if (n == "yv_symbolic") return done(mkI(32, 1));
        if (n == "yv_i64") {
            string nm = cstr(a[0]); if (a[1].s || a[2].s) throw Unsupported{"yv_i64 bounds must be concrete"};
            i128 l = a[1].c, h = a[2].c;
            string un = nm + "@" + std::to_string(S->inputs.size());
            z3::expr e = zc->int_const(un.c_str());
            S->inputs.push_back(InputRec{nm, e, 0});
            if (l == h) { addpc(e == zi(l)); return done(mkI(64, l)); }
            addpc(e >= zi(l)); addpc(e <= zi(h));
            return done(mkS(64, e, l, h));
        }
        if (n == "yv_pick") {
            string nm = cstr(a[0]); i128 c = 0; i128 k = a[1].c;
            string un = nm + "@" + std::to_string(S->inputs.size());
            z3::expr e = zc->int_const(un.c_str());
            S->inputs.push_back(InputRec{nm, e, 0});
            for (i128 v = 1; v < k; v++) {
                StateP T = clone(); swap(T);
                addpc(e == zi(v)); finishCall(call, mkI(32, v));
                swap(T); work.push_back(T); g_forks++;
            }
            addpc(e == zi(c)); return done(mkI(32, c));
        }
        if (n == "yv_f64") {
            string nm = cstr(a[0]);
            string un = nm + "@" + std::to_string(S->inputs.size());
            z3::expr e = zc->real_const(un.c_str());
            S->inputs.push_back(InputRec{nm, e, 1});
            return done(mkSF(64, e));
        }
        if (n == "yv_fresh") {
            z3::expr e = zc->int_const(("fresh!" + std::to_string(S->fresh++)).c_str());
            i128 l = lo(a[0]), h = hi(a[1]);
            addpc(e >= E(a[0])); addpc(e <= E(a[1]));
            return done(mkS(64, e, l, h));
        }
        if (n == "yv_fresh_f64") { z3::expr e = zc->real_const(("freshf!" + std::to_string(S->fresh++)).c_str()); return done(mkSF(64, e)); }
        if (n == "yv_assume") {
            V b = boolArg(a[0]);
            if (!b.s) { if (!b.c) throw PathEnd{}; return done(mkU()); }
            addpc(E(b));
            if (!may(zc->bool_val(true))) throw PathEnd{};
            return done(mkU());
        }
        if (n == "yv_assert") { V b = boolArg(a[0]); prove(E(b), "assert", cstr(a[1])); return done(mkU()); }
        if (n == "yv_cover") {
            string l = cstr(a[0]); g_covers_all.insert(l);
            if (!S->probes.empty()) return done(mkU());
            if (!g_covers_hit.count(l)) { shared_ptr<z3::model> m; if (check(zc->bool_val(true), &m, true) == z3::sat) g_covers_hit.insert(l); }
            return done(mkU());
        }
        if (n == "yv_contract") {
            if (!fobj.count(a[0].obj) || !fobj.count(a[1].obj)) throw Unsupported{"yv_contract: not functions"};
            S->contracts[fobj[a[0].obj]] = fobj[a[1].obj]; return done(mkU());
        }
        if (n == "yv_contract_named") { // no such function of that type: its calls are simply executed.
            if (!fobj.count(a[1].obj)) throw Unsupported{"yv_contract_named: not a function"};
            string want = cstr(a[0]) + "("; Function* c = fobj[a[1].obj];
            for (auto& F : M) if (!F.isDeclaration() && &F != c && F.getFunctionType() == c->getFunctionType() && dname(&F).compare(0, want.size(), want) == 0) S->contracts[&F] = c;
            return done(mkU());
        }
        if (n == "yv_loop") {
            string f = cstr(a[0]);
            bool f2 = false; for (auto& r : S->looprules) if (r.fn == f) { r.mode = (int)a[1].c; r.id = (int)a[2].c; f2 = true; }
            if (!f2) S->looprules.push_back(LoopRule{f, (int)a[1].c, (int)a[2].c});
            return done(mkU());
        }
        if (n == "yv_witness") { S->witness[(int)a[0].c] = a[1]; return done(mkU()); }
        if (n == "yv_iter") { auto it = S->iters.find((int)a[0].c); return done(it == S->iters.end() ? mkI(64, -1) : it->second); }
        if (n == "yv_ghost") { S->ghosts.insert(a[0].obj); return done(mkU()); }
        if (n == "yv_concretize") { V v = a[0]; if (v.s) v = mkI(v.w, concretize(E(v))); return done(v); }
        if (n == "yv_symbuf") {
            static int ids = 0; (void)ids;
            V sz = a[1];
            auto o = make_shared<Obj>(); o->symbuf = true; o->name = cstr(a[0]); o->id = (int)S->objs.size();
            o->base = (S->next_base + 4095) & ~4095ull; i128 mx = hi(sz); if (mx > ((i128)1 << 50)) mx = (i128)1 << 50;
            o->size = (uint64_t)mx; S->next_base = o->base + (uint64_t)mx + 4096;
            o->symsize = make_shared<Sym>(Sym{E(sz), lo(sz), hi(sz)});
            S->objs.push_back(o); return done(mkP((uint32_t)S->objs.size() - 1, 0));
        }
        if (n == "yv_ptr_off") { // byte offset of p within its object
            V p = a[0]; if (p.k != V::P) throw Unsupported{"yv_ptr_off"};
            if (p.s) return done(mkS(64, p.s->e, p.s->lo, p.s->hi)); return done(mkI(64, p.c));
        }
        if (n == "yv_ptr_obj") { return done(mkI(64, a[0].k == V::P ? a[0].obj : 0)); }
        if (n == "yv_same") { // syntactic/semantic identity of two doubles as reals
            return done(mkB(EF(a[0]) == EF(a[1])));
        }
        if (n == "yv_msg") { if (g_trace || getenv("YV_MSG")) { std::cerr << "[msg] " << cstr(a[0]) << " " << (a.size() > 1 ? str(a[1]) : "") << "\n"; } return done(mkU()); }
        return false;
    }
    string str(const V& v) {
        switch (v.k) {
        case V::U: return "undef"; case V::I: return v.s ? v.s->e.to_string() : i2s(v.c);
        case V::F: return v.s ? v.s->e.to_string() : std::to_string(v.d);
        case V::P: return "ptr(" + std::to_string(v.obj) + "+" + (v.s ? v.s->e.to_string() : i2s(v.c)) + ")";
        case V::A: { string r = "{"; for (auto& x : *v.a) r += str(x) + ","; return r + "}"; }
        }
        return "?";
    }

    // ------------------------------------------------------------ external functions
    void external(CallBase* call, Function* fn, const string& n, vector<V>& a) {
        auto done = [&](V r) { finishCall(call, r); };
        g_ext_used[n]++;
        auto conc = [&](V v) -> uint64_t { if (v.s) return (uint64_t)concretize(E(v)); return (uint64_t)v.c; };
        if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t") { done(mkP(newObj(conc(a[0]), "heap"), 0)); return; }
        if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") { done(mkP(newObj(conc(a[0]), "heap"), 0)); return; }
        if (n == "aligned_alloc" || n == "memalign") { done(mkP(newObj(conc(a[1]), "heap"), 0)); return; }
        if (n == "calloc") { uint64_t s = conc(a[0]) * conc(a[1]); done(mkP(newObj(s, "heap", false), 0)); return; }
        if (n == "free" || n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") {
            V p = a[0];
            if (p.k == V::P && p.obj) {
                if (!rd(p.obj).live || p.s || p.c != 0) { proveIf(false, "memory", "valid free in " + where_fn()); throw PathEnd{}; }
                auto o = make_shared<Obj>(); o->live = false; o->base = rd(p.obj).base; o->size = 0; S->objs[p.obj] = o;
            }
            done(mkU()); return;
        }
        if (n == "__assert_fail") {
            string msg = cstr(a[0]); string file = cstr(a[1]); auto p = file.rfind('/'); if (p != string::npos) file = file.substr(p + 1);
            proveIf(false, "code-assert", "assert(" + msg.substr(0, 100) + ") in " + file); throw PathEnd{};
        }
        if (n == "abort" || n == "exit" || n == "_exit" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual") { proveIf(false, "abort", "no call of " + n + " in " + where_fn()); throw PathEnd{}; }
        if (n == "__cxa_allocate_exception") { done(mkP(newObj(conc(a[0]), "exception"), 0)); return; }
        if (n == "__cxa_free_exception") { done(mkU()); return; }
        if (n == "__cxa_throw") { doThrow(a[0], a[1], call); return; }
        if (n == "__cxa_begin_catch") { S->caught.push_back({S->exc, S->exc_tiv}); done(a[0]); return; }
        if (n == "__cxa_get_exception_ptr") { done(a[0]); return; }
        if (n == "__cxa_end_catch") { if (!S->caught.empty()) S->caught.pop_back(); done(mkU()); return; }
        if (n == "__cxa_rethrow") { if (S->caught.empty()) throw Unsupported{"rethrow"}; auto c = S->caught.back(); S->caught.pop_back(); doThrow(c.first, c.second, call); return; }
        if (n == "__cxa_guard_acquire") { V g = memLoad(a[0], Type::getInt8Ty(M.getContext())); done(mkI(32, (g.k == V::I && g.c) ? 0 : 1)); return; }
        if (n == "__cxa_guard_release") { memStore(a[0], Type::getInt8Ty(M.getContext()), mkI(8, 1)); done(mkU()); return; }
        if (n == "__cxa_guard_abort" || n == "__cxa_atexit" || n == "atexit") { done(mkI(32, 0)); return; }
        if (n == "__dynamic_cast") { dynCast(call, a); return; }
        static const std::set<string> m1 = {"sqrt", "floor", "ceil", "round", "trunc", "exp", "log", "sin", "cos", "tan", "atan", "asin", "acos", "cbrt", "fabs", "log10", "log2"};
        string base = n; bool flt = false;
        if (!m1.count(base) && base.size() > 1 && base.back() == 'f' && m1.count(base.substr(0, base.size() - 1))) { base.pop_back(); flt = true; }
        (void)flt;
        if (m1.count(base)) { done(fmath(base, a[0])); return; }
        if (n == "pow" || n == "powf" || n == "fmod" || n == "atan2") { done(fmath2(n == "powf" ? "pow" : n, a[0], a[1])); return; }
        if (n == "memcpy" || n == "memmove") { memCopy(a[0], a[1], conc(a[2])); done(a[0]); return; }
        if (n == "memset") { memSet(a[0], a[1], conc(a[2])); done(a[0]); return; }
        if (n == "getenv") { done(mkP(0, 0)); return; }
        if (n == "gettimeofday") { memSet(a[0], mkI(8, 0), 16); done(mkI(32, 0)); return; }
        if (n == "time") { done(mkI(64, 0)); return; }
        if (n == "printf" || n == "puts" || n == "fprintf" || n == "fflush" || n == "putchar" || n == "fputs") { done(mkI(32, 0)); return; }
        throw Unsupported{"external function " + dname(fn)};
    }
    void dynCast(CallBase* call, vector<V>& a) {
        // (ptr, src_ti, dst_ti, hint): complete-object typeinfo from the vtable.
        if (a[0].k == V::P && !a[0].obj && !a[0].c) { finishCall(call, a[0]); return; }
        Type* pt = PointerType::get(M.getContext(), 0);
        V vp = memLoad(a[0], pt);
        V ti = memLoad(padd(vp, -8), pt);
        V ot = memLoad(padd(vp, -16), Type::getInt64Ty(M.getContext()));
        if (ti.k != V::P || ot.s) throw Unsupported{"dynamic_cast"};
        int64_t off = 0;
        if (!tiDerives(ti.obj, a[2].obj, &off)) { finishCall(call, mkP(0, 0)); return; }
        finishCall(call, padd(a[0], ot.c + off));
    }

    // ------------------------------------------------------------ set-up
    void initGlobals() {
        for (auto& f : M) {
            uint32_t o = newObj(16, f.getName().str(), false); S->objs[o]->fn = &f; S->objs[o]->ro = true; gobj[&f] = o; fobj[o] = &f;
        }
        for (auto& g : M.globals()) {
            uint64_t n = g.getValueType()->isSized() ? (uint64_t)DL.getTypeAllocSize(g.getValueType()) : 8;
            uint32_t o = newObj(n, g.getName().str(), !g.hasInitializer());
            gobj[&g] = o; objGV[o] = &g;
            if (!g.hasInitializer()) { auto& ob = *S->objs[o]; ob.def.assign(n, 1); }
        }
        for (auto& a : M.aliases()) { if (auto* go = a.getAliaseeObject()) gobj[&a] = gobj[go]; }
        for (auto& g : M.globals()) if (g.hasInitializer()) {
            uint32_t o = gobj[&g];
            initConst(wr(o), 0, g.getInitializer());
            S->objs[o]->ro = g.isConstant();
        }
    }
    void initConst(Obj& o, uint64_t off, const Constant* c) {
        Type* t = c->getType();
        if (isa<ConstantAggregateZero>(c)) return;   // bytes are 0, defined
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(&o.bytes[off], r.data(), r.size()); return; }
        if (auto* st = dyn_cast<StructType>(t)) {
            if (isa<UndefValue>(c)) return;
            auto* sl = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) initConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
            return;
        }
        if (isa<ArrayType>(t)) {
            if (isa<UndefValue>(c)) return;
            uint64_t es = DL.getTypeAllocSize(t->getArrayElementType());
            for (unsigned i = 0; i < t->getArrayNumElements(); i++) initConst(o, off + es * i, c->getAggregateElement(i));
            return;
        }
        if (isa<UndefValue>(c)) return;
        try { storeV(o, off, t, constV(c)); } catch (Unsupported&) { }
    }
    void runToEnd() { // run current state until its stack is empty (used for constructors)
        while (!S->st.empty()) step();
    }
    void runCtors() {
        auto* g = M.getGlobalVariable("llvm.global_ctors");
        if (!g || !g->hasInitializer()) return;
        auto* ca = dyn_cast<ConstantArray>(g->getInitializer());
        if (!ca) return;
        for (auto& op : ca->operands()) {
            auto* cs = dyn_cast<ConstantStruct>(op); if (!cs) continue;
            auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if (!fn || fn->isDeclaration()) continue;
            pushFrame(fn, {}, nullptr);
            try {
                while (!S->st.empty()) {
                    // the final 'ret' of a constructor empties the stack without ending the path.
                    if (S->st.size() == 1 && isa<ReturnInst>(&*S->st.back().it)) { popFrame(); break; }
                    step();
                }
            } catch (PathEnd&) { S->st.clear(); g_unsupported.push_back("global constructor ended a path: " + dname(fn)); }
            catch (Unsupported& u) { S->st.clear(); g_unsupported.push_back("global constructor: " + u.what + " in " + where()); }
        }
    }
    void run(Function* entry) {
        S = make_shared<State>();
        S->objs.push_back(nullptr);
        if (Function* xs = M.getFunction("yv_to_xstring")) for (auto& F : M) if (F.getName().starts_with("_ZN9__gnu_cxx12__to_xstring")) S->contracts[&F] = xs;
        initGlobals();
        runCtors();
        work.clear();
        pushFrame(entry, {}, nullptr);
        work.push_back(S); S.reset();
        while (!work.empty()) {
            S = work.back(); work.pop_back();
            try {
                while (true) step();
            } catch (PathEnd&) {
            } catch (Unsupported& u) {
                string m = u.what + " @ " + where();
                if (S && !S->probes.empty() && u.what != "time limit reached") { if (g_trace) std::cerr << "probe: " << m << backtrace() << "\n"; continue; } // the final pass of the loop decides.
                if (g_unsupported.size() < 50) g_unsupported.push_back(m);
                if (g_trace) std::cerr << "UNSUPPORTED " << m << backtrace() << "\n";
                if (u.what == "time limit reached") return;
            } catch (z3::exception& ex) {
                g_unsupported.push_back(string("z3: ") + ex.msg() + " @ " + where());
            }
        }
    }
