// Symbolic executor for LLVM IR (C++ subset incl. exceptions, virtual calls, varargs).
// Forks on symbolic branches, checks memory safety at object granularity, decides assertions with z3.
#include "solver.h"

#include <llvm/ADT/DenseMap.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

using namespace llvm;

/* ------------------------------------------------------------------ values */
struct Agg;
struct Val {
    E e = nullptr;
    const Agg* agg = nullptr;
};
struct Agg { std::vector<Val> v; };
static Val V(E e) { return Val{e, nullptr}; }
static Val VA(std::vector<Val>&& v) {
    static std::deque<Agg> pool;
    pool.push_back(Agg{std::move(v)});
    return Val{nullptr, &pool.back()};
}

struct Unsupported { std::string why; };
struct Violation { std::string kind, msg; };
struct PathDone { };

/* ------------------------------------------------------------------ memory */
enum ObjKind { GLOBAL, HEAP, STACK, FUNC };
struct MemObj {
    u64 base = 0, size = 0;
    ObjKind kind = GLOBAL;
    bool ro = false;
    char allocator = 0; // 'm' malloc, 'n' new, 'a' new[]
    std::string name;
    std::vector<uint8_t> conc;
    std::vector<uint8_t> st; // 0 uninit 1 concrete 2 symbolic
    std::vector<E> sym;
    const Function* fn = nullptr;
};
typedef std::shared_ptr<MemObj> ObjP;
static inline u64 objId(u64 addr) { return addr >> 32; }
static const u64 OBJ_OFF = 0x1000; // objects start at this offset inside their 4 GiB slot

/* ------------------------------------------------------------------ state */
struct Frame {
    const Function* F;
    const BasicBlock* prev = nullptr;
    const Instruction* pc;
    std::vector<Val> regs;
    std::vector<u64> allocas;
    const CallBase* call = nullptr; // call site in the caller frame
    std::vector<Val> varargs;
    std::vector<Type*> vatypes;
    u64 dropObjOnRet = 0; // exception object to free
};
struct ExnInfo { u64 ti; u64 dtor; int handlers = 0; bool rethrown = false; };
struct SymIn { std::string name; unsigned w; E var; };
struct State {
    std::vector<Frame> stack;
    std::unordered_map<u64, ObjP> objs;
    std::vector<E> pc;
    Model model;
    std::vector<SymIn> inputs;
    std::vector<std::pair<std::string, E>> obs;
    u64 nextObj;
    u64 steps = 0;
    std::map<u64, ExnInfo> exns;
    std::vector<u64> caught;
    u64 curExn = 0;
    std::vector<const Function*> pending; // functions still to be called (ctors, then the harness)
    u64 heapMark = 0;
    unsigned decisions = 0;
    u64 dhash = 1469598103934665603ull;
    std::unordered_map<E, u128> eqs; // expression known to equal a constant on this path
    bool inHarness = false;
    bool spec = false; // feasibility not decided: no model; explored so that its assertions are checked all the same
};

/* ------------------------------------------------------------------ engine */
struct Viol {
    std::string kind, msg, where;
    std::vector<std::string> trace;
    std::vector<std::pair<std::string, std::pair<unsigned, u128>>> inputs;
};
struct Sample {
    std::vector<std::pair<std::string, std::pair<unsigned, u128>>> inputs;
    std::vector<std::pair<std::string, std::pair<unsigned, u128>>> obs;
};

struct Engine {
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    const DataLayout* DL;
    DenseMap<const Value*, int> slot;
    DenseMap<const Function*, int> nslots;
    std::unordered_map<u64, ObjP> baseObjs; // globals before execution
    DenseMap<const GlobalValue*, u64> gaddr;
    std::unordered_map<u64, const GlobalVariable*> addrGV;
    std::map<std::string, int> tiIndex;
    DenseMap<const Constant*, Val*> ccache;
    std::unordered_map<std::string, std::string> alias;

    std::deque<State*> work;
    // options
    u64 maxSteps = 3000000;
    double timeLimit = 600;
    int part = 0, parts = 1, partDepth = 8;
    unsigned maxViol = 6;
    unsigned nSamples = 12;
    std::string harness, srcRoot = "/repo/";
    bool verbose = false;
    // results
    u64 paths = 0, infeasible = 0, unsupportedPaths = 0, dropped = 0, steps = 0, forks = 0, asserts = 0, assertsTrivial = 0, undecided = 0, unknownBranch = 0, speculated = 0, maxPathSteps = 0;
    std::map<std::string, u64> unsupportedWhy;
    std::vector<Viol> viols;
    std::set<std::string> violKeys;
    std::set<std::string> reached;
    std::set<const Function*> executed;
    std::vector<Sample> samples;
    bool timedOut = false;
    std::chrono::steady_clock::time_point t0;
    u64 rng = 88172645463325252ull;
    u64 nextRand() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
    double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

    State* S = nullptr; // current

    /* ---- types */
    unsigned bits(Type* t) {
        if (t->isIntegerTy()) {
            unsigned w = t->getIntegerBitWidth();
            if (w > 128) throw Unsupported{"integer wider than 128 bits"};
            return w;
        }
        if (t->isPointerTy()) return 64;
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        std::string s;
        raw_string_ostream o(s);
        t->print(o);
        throw Unsupported{"type " + o.str()};
    }
    bool isScalar(Type* t) { return t->isIntegerTy() || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy(); }
    Val zeroOf(Type* t) {
        if (isScalar(t)) return V(mkConst(0, bits(t)));
        std::vector<Val> v;
        if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) v.push_back(zeroOf(e));
        else if (auto* at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType()));
        else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType()));
        else throw Unsupported{"zero of type"};
        return VA(std::move(v));
    }
    Val undefOf(Type* t) {
        if (isScalar(t)) return V(mkVar("undef", bits(t), true));
        std::vector<Val> v;
        if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) v.push_back(undefOf(e));
        else if (auto* at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(undefOf(at->getElementType()));
        else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < vt->getNumElements(); i++) v.push_back(undefOf(vt->getElementType()));
        else throw Unsupported{"undef of type"};
        return VA(std::move(v));
    }

    /* ---- constants */
    Val constant(const Constant* c) {
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            const APInt& a = ci->getValue();
            u128 k = a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0);
            if (a.getBitWidth() > 64) k |= (u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64;
            return V(mkConst(k, a.getBitWidth()));
        }
        if (auto* cf = dyn_cast<ConstantFP>(c)) {
            APInt a = cf->getValueAPF().bitcastToAPInt();
            bits(c->getType());
            return V(mkConst(a.getZExtValue(), a.getBitWidth()));
        }
        if (isa<ConstantPointerNull>(c)) return V(mkConst(0, 64));
        if (isa<UndefValue>(c)) return isa<PoisonValue>(c) ? undefOf(c->getType()) : undefOf(c->getType());
        auto it = ccache.find(c);
        if (it != ccache.end()) return *it->second;
        Val r = constantSlow(c);
        ccache[c] = new Val(r);
        return r;
    }
    Val constantSlow(const Constant* c) {
        if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
        if (auto* gv = dyn_cast<GlobalValue>(c)) return V(mkConst(addrOf(gv), 64));
        if (auto* cs = dyn_cast<ConstantAggregate>(c)) {
            std::vector<Val> v;
            for (auto& op : cs->operands()) v.push_back(constant(cast<Constant>(op)));
            return VA(std::move(v));
        }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
            std::vector<Val> v;
            for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constant(cd->getElementAsConstant(i)));
            return VA(std::move(v));
        }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            auto op = [&](unsigned i) { return constant(cast<Constant>(ce->getOperand(i))); };
            switch (ce->getOpcode()) {
            case Instruction::BitCast: case Instruction::AddrSpaceCast: return op(0);
            case Instruction::IntToPtr: return V(mkZext(op(0).e, 64));
            case Instruction::PtrToInt: return V(mkZext(op(0).e, bits(ce->getType())));
            case Instruction::GetElementPtr: {
                auto* gep = cast<GEPOperator>(ce);
                APInt off(64, 0);
                if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
                return V(mkAdd(op(0).e, mkConst(off.getZExtValue(), 64)));
            }
            case Instruction::Trunc: return V(mkExtract(op(0).e, 0, bits(ce->getType())));
            case Instruction::Add: return V(mkBin(ADD, op(0).e, op(1).e));
            case Instruction::Sub: return V(mkBin(SUB, op(0).e, op(1).e));
            case Instruction::Mul: return V(mkBin(MUL, op(0).e, op(1).e));
            case Instruction::Xor: return V(mkBin(XOR, op(0).e, op(1).e));
            case Instruction::ICmp: return V(icmp((CmpInst::Predicate)ce->getPredicate(), op(0).e, op(1).e));
            default: throw Unsupported{std::string("constant expr ") + ce->getOpcodeName()};
            }
        }
        throw Unsupported{"constant kind"};
    }
    u64 nextGlobal = 16;
    u64 addrOf(const GlobalValue* gv) {
        if (auto* ga = dyn_cast<GlobalAlias>(gv)) {
            Val v = constant(ga->getAliasee());
            return (u64)v.e->k;
        }
        auto it = gaddr.find(gv);
        if (it != gaddr.end()) return it->second;
        u64 id = nextGlobal++;
        u64 a = (id << 32) + OBJ_OFF;
        gaddr[gv] = a;
        auto o = std::make_shared<MemObj>();
        o->base = a;
        o->name = gv->getName().str();
        if (auto* f = dyn_cast<Function>(gv)) {
            o->kind = FUNC; o->fn = f; o->size = 0;
        } else {
            auto* v = cast<GlobalVariable>(gv);
            addrGV[a] = v;
            o->kind = GLOBAL;
            o->ro = v->isConstant();
            Type* t = v->getValueType();
            u64 sz = t->isSized() ? DL->getTypeAllocSize(t) : 0;
            if (!v->hasInitializer()) {
                sz = std::max<u64>(sz, 512);
                o->conc.assign(sz, 0);
                o->st.assign(sz, 1);
                o->size = sz;
                o->ro = false;
                if (o->name == "__libc_single_threaded") o->conc[0] = 1;
            } else {
                o->size = sz;
                o->conc.assign(sz, 0);
                o->st.assign(sz, 1);
                baseObjs[id] = o;
                writeConst(*o, 0, v->getInitializer(), t);
            }
        }
        baseObjs[id] = o;
        return a;
    }
    void writeConst(MemObj& o, u64 off, const Constant* c, Type* t) {
        if (isa<UndefValue>(c)) return;
        if (isa<ConstantAggregateZero>(c)) return;
        if (auto* st = dyn_cast<StructType>(t)) {
            auto* sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++)
                writeConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i), st->getElementType(i));
            return;
        }
        if (auto* at = dyn_cast<ArrayType>(t)) {
            u64 es = DL->getTypeAllocSize(at->getElementType());
            for (u64 i = 0; i < at->getNumElements(); i++) writeConst(o, off + i * es, c->getAggregateElement(i), at->getElementType());
            return;
        }
        if (auto* vt = dyn_cast<FixedVectorType>(t)) {
            u64 es = DL->getTypeAllocSize(vt->getElementType());
            for (u64 i = 0; i < vt->getNumElements(); i++) writeConst(o, off + i * es, c->getAggregateElement(i), vt->getElementType());
            return;
        }
        if (t->isX86_FP80Ty()) return; // left zero; loads of this type are unsupported anyway
        Val v = constant(c);
        if (!v.e->is_const()) return;
        u64 n = DL->getTypeStoreSize(t);
        for (u64 i = 0; i < n; i++) o.conc[off + i] = i < 16 ? (uint8_t)(v.e->k >> (8 * i)) : 0;
    }

    /* ---- objects */
    ObjP findObj(u64 id) {
        auto it = S->objs.find(id);
        if (it != S->objs.end()) return it->second;
        auto jt = baseObjs.find(id);
        return jt == baseObjs.end() ? nullptr : jt->second;
    }
    MemObj& writable(u64 id) {
        auto it = S->objs.find(id);
        if (it == S->objs.end()) {
            auto n = std::make_shared<MemObj>(*baseObjs.at(id));
            return *(S->objs[id] = n);
        }
        if (it->second.use_count() > 1) it->second = std::make_shared<MemObj>(*it->second);
        return *it->second;
    }
    u64 newObj(u64 size, ObjKind k, char allocator, const std::string& name) {
        u64 id = S->nextObj++;
        auto o = std::make_shared<MemObj>();
        o->base = (id << 32) + OBJ_OFF;
        o->size = size;
        o->kind = k;
        o->allocator = allocator;
        o->name = name;
        if (size > (1u << 24)) throw Unsupported{"allocation larger than 16 MiB"};
        o->conc.assign(size, 0);
        o->st.assign(size, 0);
        S->objs[id] = o;
        return o->base;
    }
    void freeObj(u64 id) { S->objs.erase(id); }

    std::string describeAddr(u64 a) {
        std::ostringstream os;
        auto o = findObj(objId(a));
        if (a < 4096) os << "null pointer";
        else if (!o) os << "freed or invalid object";
        else os << "object '" << o->name << "' of size " << o->size << " at offset " << (i64)(a - o->base);
        return os.str();
    }
    /// resolve a (possibly symbolic) address to an object and concrete offset for an access of n bytes
    MemObj* access(E addr, u64 n, bool write, u64& off) {
        u64 a = concretize(addr, "address");
        u64 id = objId(a);
        ObjP o = findObj(id);
        if (a < 4096) throw Violation{"memory", "null pointer dereference"};
        if (!o) throw Violation{"memory", std::string(write ? "write to" : "read from") + " freed or invalid memory"};
        if (o->kind == FUNC) throw Violation{"memory", "data access to a function"};
        off = a - o->base;
        if (off > o->size || n > o->size - off)
            throw Violation{"memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((i64)off) + " of '" + o->name + "' (size " + std::to_string(o->size) + ")"};
        if (write && o->ro) throw Violation{"memory", "write to constant '" + o->name + "'"};
        if (write) return &writable(id);
        return o.get();
    }
    E readByte(MemObj* o, u64 off) {
        if (o->st[off] == 1) return mkConst(o->conc[off], 8);
        if (o->st[off] == 2) return o->sym[off];
        // uninitialised: materialise an arbitrary but stable value
        E v = mkVar("uninit:" + o->name, 8, true);
        MemObj& w = writable(objId(o->base));
        w.st[off] = 2;
        if (w.sym.empty()) w.sym.assign(w.size, nullptr);
        w.sym[off] = v;
        return v;
    }
    E readBytes(MemObj* o, u64 off, u64 n) {
        bool conc = true;
        for (u64 i = 0; i < n; i++) if (o->st[off + i] != 1) { conc = false; break; }
        if (conc) {
            u128 v = 0;
            for (u64 i = 0; i < n; i++) v |= (u128)o->conc[off + i] << (8 * i);
            return mkConst(v, n * 8);
        }
        ObjP keep;
        E r = nullptr;
        u64 id = objId(o->base);
        for (u64 i = n; i-- > 0;) {
            ObjP cur = findObj(id);
            E b = readByte(cur.get(), off + i);
            r = r ? mkBin(CONCAT, r, b) : b;
        }
        return r;
    }
    void writeBytes(MemObj* o, u64 off, E v, u64 n) {
        if (v->is_const()) {
            for (u64 i = 0; i < n; i++) {
                o->conc[off + i] = (uint8_t)(v->k >> (8 * i));
                o->st[off + i] = 1;
            }
            return;
        }
        if (o->sym.empty()) o->sym.assign(o->size, nullptr);
        for (u64 i = 0; i < n; i++) {
            E b = mkExtract(v, 8 * i, 8);
            if (b->is_const()) { o->conc[off + i] = (uint8_t)b->k; o->st[off + i] = 1; }
            else { o->sym[off + i] = b; o->st[off + i] = 2; }
        }
    }
    Val loadType(Type* t, E addr) {
        if (isScalar(t)) {
            u64 n = DL->getTypeStoreSize(t);
            E r = loadScalar(addr, n);
            unsigned w = bits(t);
            return V(w == n * 8 ? r : mkExtract(r, 0, w));
        }
        std::vector<Val> v;
        if (auto* st = dyn_cast<StructType>(t)) {
            auto* sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadType(st->getElementType(i), mkAdd(addr, mkConst(sl->getElementOffset(i), 64))));
            return VA(std::move(v));
        }
        Type* et; u64 cnt;
        if (auto* at = dyn_cast<ArrayType>(t)) { et = at->getElementType(); cnt = at->getNumElements(); }
        else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
            et = vt->getElementType(); cnt = vt->getNumElements();
            if (bits(et) % 8) throw Unsupported{"vector of sub-byte elements"};
        } else throw Unsupported{"load of type"};
        u64 es = DL->getTypeAllocSize(et);
        for (u64 i = 0; i < cnt; i++) v.push_back(loadType(et, mkAdd(addr, mkConst(i * es, 64))));
        return VA(std::move(v));
    }
    E loadScalar(E addr, u64 n) {
        addr = subst(addr);
        if (!addr->is_const()) {
            // try an ITE over the aligned offsets of the object the address certainly points into
            settle();
            u64 a = (u64)evalExpr(addr, S->model);
            ObjP o = findObj(objId(a));
            if (o && o->kind != FUNC && a >= 4096) {
                unsigned z = std::min(3u, knownLowZeros(mkBin(SUB, addr, mkConst(o->base, 64))));
                u64 stride = (u64)1 << z;
                u64 cnt = o->size >= n ? (o->size - n) / stride + 1 : 0;
                if (cnt > 0 && cnt <= 128) {
                    E rel = mkBin(SUB, addr, mkConst(o->base, 64));
                    E inb = mkBin(ULE, rel, mkConst(o->size - n, 64));
                    if (!mustBeTrue(inb)) { // out of bounds (or other object) possible: split
                        forkOn(inb);
                        if (!evalExpr(inb, S->model)) { u64 off; access(addr, n, false, off); }
                    }
                    bool anySym = false;
                    E r = nullptr;
                    u64 id = objId(o->base);
                    for (u64 i = 0; i < cnt; i++) {
                        E b = readBytes(findObj(id).get(), i * stride, n);
                        if (b->undef) anySym = true;
                        r = r ? mkIte(mkEq(rel, mkConst(i * stride, 64)), b, r) : b;
                    }
                    if (!anySym) return r;
                }
            }
        }
        u64 off;
        MemObj* o = access(addr, n, false, off);
        return readBytes(o, off, n);
    }
    void storeType(Type* t, E addr, Val v) {
        if (isScalar(t)) {
            u64 n = DL->getTypeStoreSize(t);
            u64 off;
            MemObj* o = access(addr, n, true, off);
            writeBytes(o, off, mkZext(v.e, n * 8), n);
            return;
        }
        if (auto* st = dyn_cast<StructType>(t)) {
            auto* sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) storeType(st->getElementType(i), mkAdd(addr, mkConst(sl->getElementOffset(i), 64)), v.agg->v[i]);
            return;
        }
        Type* et;
        if (auto* at = dyn_cast<ArrayType>(t)) et = at->getElementType();
        else if (auto* vt = dyn_cast<FixedVectorType>(t)) { et = vt->getElementType(); if (bits(et) % 8) throw Unsupported{"vector of sub-byte elements"}; }
        else throw Unsupported{"store of type"};
        u64 es = DL->getTypeAllocSize(et);
        for (u64 i = 0; i < v.agg->v.size(); i++) storeType(et, mkAdd(addr, mkConst(i * es, 64)), v.agg->v[i]);
    }

    /* ---- path constraints */
    E subst(E e) {
        if (e->is_const() || S->eqs.empty()) return e;
        auto it = S->eqs.find(e);
        if (it != S->eqs.end()) return mkConst(it->second, e->w);
        if (e->op == ITE && (it = S->eqs.find(e->a)) != S->eqs.end()) return subst(it->second ? e->b : e->c);
        return e;
    }
    void addConstraint(State& st, E c) {
        if (c->is_true()) return;
        if (c->op == AND && c->w == 1) { addConstraint(st, c->a); addConstraint(st, c->b); return; }
        st.pc.push_back(c);
        if (c->op == EQ && c->b->is_const()) st.eqs[c->a] = c->b->k;
        else if (c->w == 1) {
            st.eqs[c] = 1;
            E n = mkNot(c);
            if (!n->is_const()) st.eqs[n] = 0;
        }
    }
    Res feasible(E c, Model* m) {
        std::vector<E> sl = sliceFor(S->pc, c);
        sl.push_back(c);
        return solverCheck(sl, m);
    }
    bool mustBeTrue(E c) {
        c = subst(c);
        if (c->is_const()) return c->k;
        if (!S->spec && !evalExpr(c, S->model)) return false;
        Model m;
        return feasible(mkNot(c), &m) == Res::UNSAT;
    }
    void applyModel(State& st, const Model& m) { for (auto& kv : m.v) st.model.v[kv.first] = kv.second; }
    void revalidate(State& st) {
        for (E c : st.pc) if (!evalExpr(c, st.model)) return;
        st.spec = false;
    }
    /// a speculative path reached something that needs a model: find one, or drop the path (undecided: not complete)
    bool settled() {
        if (!S->spec) return true;
        Model m;
        Res r = solverCheck(S->pc, &m);
        if (r == Res::SAT) { applyModel(*S, m); S->spec = false; return true; }
        if (r == Res::UNKNOWN) unknownBranch++;
        return false;
    }
    void settle() { if (!settled()) throw PathDone{}; }
    /// the side whose feasibility the solver could not decide is explored without a model
    void speculate(E other, bool taken, const std::function<void(State&)>& place) {
        speculated++;
        State* s2 = forkState();
        s2->spec = true;
        addConstraint(*s2, other);
        place(*s2);
        if (decide(s2, taken)) work.push_back(s2);
        else { dropped++; delete s2; }
    }
    State* forkState() {
        forks++;
        return new State(*S);
    }
    bool decide(State* st, bool taken) { // returns false if the state belongs to another partition
        st->decisions++;
        if (parts > 1 && st->decisions <= (unsigned)partDepth) {
            st->dhash = (st->dhash ^ (taken ? 0x9E37u : 0x79B9u)) * 1099511628211ull;
            if (st->decisions == (unsigned)partDepth) {
                u64 h = st->dhash;
                h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
                return (int)(h % parts) == part;
            }
        }
        return true;
    }
    /// After this call S's constraints imply c's truth value under S->model; the other side (if feasible) is queued
    /// at the same program counter.
    void forkOn(E c) {
        settle();
        bool v = evalExpr(c, S->model);
        E other = v ? mkNot(c) : c;
        Model m;
        Res r = feasible(other, &m);
        if (r == Res::SAT) {
            State* s2 = forkState();
            applyModel(*s2, m);
            addConstraint(*s2, other);
            if (decide(s2, !v)) work.push_back(s2);
            else { dropped++; delete s2; }
            addConstraint(*S, v ? c : mkNot(c));
            if (!decide(S, v)) throw PathDone{};
        } else if (r == Res::UNKNOWN) {
            speculate(other, !v, [](State&) {});
            addConstraint(*S, v ? c : mkNot(c));
            if (!decide(S, v)) throw PathDone{};
        }
    }
    u64 concretize(E e, const char* what) {
        e = subst(e);
        if (e->is_const()) return (u64)e->k;
        settle();
        u128 v = evalExpr(e, S->model);
        if (e->undef) {
            Model m;
            if (feasible(mkNe(e, mkConst(v, e->w)), &m) == Res::SAT) throw Violation{"uninit", std::string("use of an uninitialised value as ") + what};
        }
        E c = mkEq(e, mkConst(v, e->w));
        forkOn(c);
        S->eqs[e] = v;
        return (u64)v;
    }
    /// branch: returns the truth value taken by S; queues a sibling positioned by `place`
    bool branch(E c, const std::function<void(State&, bool)>& place) {
        c = subst(c);
        if (c->is_const()) return c->k;
        if (S->spec) {
            Model mt, mf;
            Res rt = feasible(c, &mt), rf = feasible(mkNot(c), &mf);
            if (rt == Res::UNSAT && rf == Res::UNSAT) throw PathDone{};
            if (rt == Res::UNSAT || rf == Res::UNSAT) { bool t = rf == Res::UNSAT; S->eqs[c] = t; return t; }
            if (c->undef) { settle(); }
            else {
                State* s2 = forkState();
                if (rf == Res::SAT) applyModel(*s2, mf);
                addConstraint(*s2, mkNot(c));
                if (rf == Res::SAT) revalidate(*s2);
                place(*s2, false);
                if (decide(s2, false)) work.push_back(s2);
                else { dropped++; delete s2; }
                if (rt == Res::SAT) applyModel(*S, mt);
                addConstraint(*S, c);
                if (rt == Res::SAT) revalidate(*S);
                if (!decide(S, true)) throw PathDone{};
                return true;
            }
        }
        bool v = evalExpr(c, S->model);
        E other = v ? mkNot(c) : c;
        Model m;
        Res r = feasible(other, &m);
        if (r == Res::SAT) {
            if (c->undef) reportNow("uninit", "branch depends on an uninitialised value");
            State* s2 = forkState();
            applyModel(*s2, m);
            addConstraint(*s2, other);
            place(*s2, !v);
            if (decide(s2, !v)) work.push_back(s2);
            else { dropped++; delete s2; }
            addConstraint(*S, v ? c : mkNot(c));
            if (!decide(S, v)) throw PathDone{};
        } else if (r == Res::UNKNOWN) {
            speculate(other, !v, [&](State& s2) { place(s2, !v); });
            addConstraint(*S, v ? c : mkNot(c));
            if (!decide(S, v)) throw PathDone{};
        } else {
            S->eqs[c] = v; // implied
        }
        return v;
    }

    /* ---- reporting */
    std::string locOf(const Instruction* I) {
        if (!I) return "?";
        if (const DebugLoc& d = I->getDebugLoc()) {
            auto* sc = d->getScope();
            std::string f = sc ? (sc->getFilename().str()) : "?";
            if (!f.empty() && f[0] != '/' && sc) f = sc->getDirectory().str() + "/" + f;
            return f + ":" + std::to_string(d.getLine());
        }
        return "?";
    }
    std::vector<std::string> backtrace() {
        std::vector<std::string> r;
        for (size_t i = S->stack.size(); i-- > 0 && r.size() < 14;) {
            auto& f = S->stack[i];
            r.push_back(f.F->getName().str() + " @ " + locOf(f.pc));
        }
        return r;
    }
    void reportWith(const std::string& kind, const std::string& msg, const Model& m) {
        Viol v;
        v.kind = kind;
        v.msg = msg;
        v.trace = backtrace();
        v.where = v.trace.empty() ? "?" : v.trace[0];
        for (auto& t : v.trace) if (t.find(" @ " + srcRoot) != std::string::npos) { v.where = t; break; }
        if (kind == "assert") v.where = v.trace.empty() ? "?" : v.trace[0];
        std::string key = kind + "|" + msg + "|" + v.where;
        if (!violKeys.insert(key).second) return;
        for (auto& in : S->inputs) v.inputs.push_back({in.name, {in.w, evalExpr(in.var, m)}});
        viols.push_back(v);
        if (verbose) fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
    }
    void reportNow(const std::string& kind, const std::string& msg) { if (settled()) reportWith(kind, msg, S->model); }

    /* ---- evaluation helpers */
    Frame& top() { return S->stack.back(); }
    Val get(const Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) return constant(c);
        auto it = slot.find(v);
        if (it == slot.end()) throw Unsupported{"operand kind"};
        Val r = top().regs[it->second];
        if (!r.e && !r.agg) throw Unsupported{"use of undefined register"};
        if (r.e && !r.e->is_const() && !S->eqs.empty()) r.e = subst(r.e);
        return r;
    }
    E getE(const Value* v) {
        Val x = get(v);
        if (!x.e) throw Unsupported{"aggregate operand"};
        return x.e;
    }
    void set(const Value* v, Val x) { top().regs[slot.lookup(v)] = x; }
    static E icmp(CmpInst::Predicate p, E a, E b) {
        switch (p) {
        case CmpInst::ICMP_EQ: return mkEq(a, b);
        case CmpInst::ICMP_NE: return mkNe(a, b);
        case CmpInst::ICMP_ULT: return mkBin(ULT, a, b);
        case CmpInst::ICMP_ULE: return mkBin(ULE, a, b);
        case CmpInst::ICMP_UGT: return mkBin(ULT, b, a);
        case CmpInst::ICMP_UGE: return mkBin(ULE, b, a);
        case CmpInst::ICMP_SLT: return mkBin(SLT, a, b);
        case CmpInst::ICMP_SLE: return mkBin(SLE, a, b);
        case CmpInst::ICMP_SGT: return mkBin(SLT, b, a);
        case CmpInst::ICMP_SGE: return mkBin(SLE, b, a);
        default: throw Unsupported{"icmp predicate"};
        }
    }
    E fcmp(CmpInst::Predicate p, E a, E b) {
        auto ord = [&] { return mkAnd(mkBin(FEQ, a, a), mkBin(FEQ, b, b)); };
        auto uno = [&] { return mkNot(ord()); };
        switch (p) {
        case CmpInst::FCMP_FALSE: return E_false();
        case CmpInst::FCMP_TRUE: return E_true();
        case CmpInst::FCMP_OEQ: return mkBin(FEQ, a, b);
        case CmpInst::FCMP_OGT: return mkBin(FLT, b, a);
        case CmpInst::FCMP_OGE: return mkBin(FLE, b, a);
        case CmpInst::FCMP_OLT: return mkBin(FLT, a, b);
        case CmpInst::FCMP_OLE: return mkBin(FLE, a, b);
        case CmpInst::FCMP_ONE: return mkAnd(mkNot(mkBin(FEQ, a, b)), ord());
        case CmpInst::FCMP_ORD: return ord();
        case CmpInst::FCMP_UNO: return uno();
        case CmpInst::FCMP_UEQ: return mkOr(uno(), mkBin(FEQ, a, b));
        case CmpInst::FCMP_UGT: return mkNot(mkBin(FLE, a, b));
        case CmpInst::FCMP_UGE: return mkNot(mkBin(FLT, a, b));
        case CmpInst::FCMP_ULT: return mkNot(mkBin(FLE, b, a));
        case CmpInst::FCMP_ULE: return mkNot(mkBin(FLT, b, a));
        case CmpInst::FCMP_UNE: return mkNot(mkBin(FEQ, a, b));
        default: throw Unsupported{"fcmp predicate"};
        }
    }
    template<class Fn> Val lanewise(Val a, Val b, Fn f) {
        if (a.e) return V(f(a.e, b.e));
        std::vector<Val> r;
        for (size_t i = 0; i < a.agg->v.size(); i++) r.push_back(V(f(a.agg->v[i].e, b.agg->v[i].e)));
        return VA(std::move(r));
    }
    template<class Fn> Val lanewise1(Val a, Fn f) {
        if (a.e) return V(f(a.e));
        std::vector<Val> r;
        for (auto& x : a.agg->v) r.push_back(V(f(x.e)));
        return VA(std::move(r));
    }
    E binop(unsigned opc, E a, E b) {
        switch (opc) {
        case Instruction::Add: return mkBin(ADD, a, b);
        case Instruction::Sub: return mkBin(SUB, a, b);
        case Instruction::Mul: return mkBin(MUL, a, b);
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
            E z = mkEq(b, mkConst(0, b->w));
            if (!z->is_false()) {
                if (!mustBeTrue(mkNot(z))) {
                    forkOn(z);
                    if (evalExpr(z, S->model)) throw Violation{"arith", "integer division by zero"};
                }
            }
            if (opc == Instruction::SDiv || opc == Instruction::SRem) {
                E ov = mkAnd(mkEq(b, mkConst(~(u128)0, b->w)), mkEq(a, mkConst((u128)1 << (a->w - 1), a->w)));
                if (!ov->is_false() && !mustBeTrue(mkNot(ov))) {
                    forkOn(ov);
                    if (evalExpr(ov, S->model)) throw Violation{"arith", "signed division overflow"};
                }
            }
            return mkBin(opc == Instruction::UDiv ? UDIV : opc == Instruction::SDiv ? SDIV : opc == Instruction::URem ? UREM : SREM, a, b);
        }
        case Instruction::And: return mkBin(AND, a, b);
        case Instruction::Or: return mkBin(OR, a, b);
        case Instruction::Xor: return mkBin(XOR, a, b);
        case Instruction::Shl: return mkBin(SHL, a, b);
        case Instruction::LShr: return mkBin(LSHR, a, b);
        case Instruction::AShr: return mkBin(ASHR, a, b);
        case Instruction::FAdd: return mkBin(FADD, a, b);
        case Instruction::FSub: return mkBin(FSUB, a, b);
        case Instruction::FMul: return mkBin(FMUL, a, b);
        case Instruction::FDiv: return mkBin(FDIV, a, b);
        case Instruction::FRem:
            if (a->is_const() && b->is_const()) return libm2("fmod", a, b);
            throw Unsupported{"frem on symbolic operands"};
        default: throw Unsupported{"binop"};
        }
    }
    static double asD(E a) { if (a->w == 32) { uint32_t x = (uint32_t)a->k; float f; memcpy(&f, &x, 4); return f; } u64 x = (u64)a->k; double d; memcpy(&d, &x, 8); return d; }
    static E fromD(double d, unsigned w) {
        if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return mkConst(x, 32); }
        u64 x; memcpy(&x, &d, 8); return mkConst(x, 64);
    }
    E libm2(const std::string& n, E a, E b) {
        a = subst(a); b = subst(b);
        if (!a->is_const() || !b->is_const()) throw Unsupported{n + " on symbolic operands"};
        if (a->w == 32) {
            float x = (float)asD(a), y = (float)asD(b), r;
            if (n == "pow") r = powf(x, y); else if (n == "fmod") r = fmodf(x, y); else if (n == "atan2") r = atan2f(x, y); else if (n == "hypot") r = hypotf(x, y); else throw Unsupported{n};
            return fromD(r, 32);
        }
        double x = asD(a), y = asD(b), r;
        if (n == "pow") r = pow(x, y); else if (n == "fmod") r = fmod(x, y); else if (n == "atan2") r = atan2(x, y); else if (n == "hypot") r = hypot(x, y); else throw Unsupported{n};
        return fromD(r, 64);
    }
    E libm1(const std::string& n, E a) {
        a = subst(a);
        if (!a->is_const()) throw Unsupported{n + " on a symbolic operand"};
        bool f = a->w == 32;
        double x = asD(a), r;
        if (n == "exp") r = f ? expf(x) : exp(x);
        else if (n == "exp2") r = f ? exp2f(x) : exp2(x);
        else if (n == "log") r = f ? logf(x) : log(x);
        else if (n == "log10") r = f ? log10f(x) : log10(x);
        else if (n == "log2") r = f ? log2f(x) : log2(x);
        else if (n == "sin") r = f ? sinf(x) : sin(x);
        else if (n == "cos") r = f ? cosf(x) : cos(x);
        else if (n == "tanh") r = f ? tanhf(x) : tanh(x);
        else throw Unsupported{n};
        return fromD(r, a->w);
    }

    /* ---- control */
    void gotoBB(Frame& f, const BasicBlock* bb) {
        f.prev = f.pc->getParent();
        // evaluate phis simultaneously
        std::vector<std::pair<const Value*, Val>> vals;
        const Instruction* I = &bb->front();
        for (; auto* phi = dyn_cast<PHINode>(I); I = I->getNextNode()) {
            const Value* in = phi->getIncomingValueForBlock(f.prev);
            Val v;
            if (auto* c = dyn_cast<Constant>(in)) v = constant(c);
            else v = f.regs[slot.lookup(in)];
            vals.push_back({phi, v});
        }
        for (auto& p : vals) f.regs[slot.lookup(p.first)] = p.second;
        f.pc = I;
    }
    void prepare(const Function* F) {
        if (nslots.count(F)) return;
        int n = 0;
        for (auto& a : F->args()) slot[&a] = n++;
        for (auto& bb : *F) for (auto& I : bb) if (!I.getType()->isVoidTy()) slot[&I] = n++;
        nslots[F] = n;
    }
    void pushFrame(const Function* F, const std::vector<Val>& args, const CallBase* call, std::vector<Val>&& va = {}, std::vector<Type*>&& vt = {}) {
        if (S->stack.size() > 2000) throw Violation{"hang", "recursion deeper than 2000 frames"};
        prepare(F);
        executed.insert(F);
        Frame f;
        f.F = F;
        f.pc = &F->getEntryBlock().front();
        f.regs.resize(nslots[F]);
        f.call = call;
        f.varargs = std::move(va);
        f.vatypes = std::move(vt);
        size_t i = 0;
        for (auto& a : F->args()) {
            if (i >= args.size()) break;
            f.regs[slot.lookup(&a)] = args[i++];
        }
        S->stack.push_back(std::move(f));
    }
    void popFrame() {
        for (u64 id : top().allocas) freeObj(id);
        u64 d = top().dropObjOnRet;
        S->stack.pop_back();
        if (d) freeObj(objId(d));
    }
    void advance() { top().pc = top().pc->getNextNode(); }
    void finishCall(const CallBase* cb, Val r) { // current top frame executed cb directly (intrinsic)
        if (!cb->getType()->isVoidTy() && (r.e || r.agg)) set(cb, r);
        if (auto* inv = dyn_cast<InvokeInst>(cb)) gotoBB(top(), inv->getNormalDest());
        else advance();
    }
    void ret(Val v, bool hasV) {
        const CallBase* cb = top().call;
        popFrame();
        if (S->stack.empty() || !cb) {
            if (S->stack.empty()) { nextPending(); return; }
            return; // helper frame (e.g. exception destructor): caller's pc already advanced
        }
        if (hasV && !cb->getType()->isVoidTy()) set(cb, v);
        if (auto* inv = dyn_cast<InvokeInst>(cb)) gotoBB(top(), inv->getNormalDest());
        else advance();
    }
    void nextPending() {
        if (S->pending.empty()) {
            pathCompleted();
            throw PathDone{};
        }
        const Function* F = S->pending.front();
        S->pending.erase(S->pending.begin());
        if (S->pending.empty()) { S->heapMark = S->nextObj; S->inHarness = true; }
        pushFrame(F, {}, nullptr);
    }
    void pathCompleted() {
        paths++;
        maxPathSteps = std::max(maxPathSteps, S->steps);
        // reservoir of path models for differential replay
        if (nSamples && !S->spec) {
            Sample s;
            auto fill = [&] {
                for (auto& in : S->inputs) s.inputs.push_back({in.name, {in.w, evalExpr(in.var, S->model)}});
                for (auto& o : S->obs) s.obs.push_back({o.first, {o.second->w, evalExpr(o.second, S->model)}});
            };
            bool undefObs = false;
            for (auto& o : S->obs) undefObs |= o.second->undef;
            if (!undefObs) {
                if (samples.size() < nSamples) { fill(); samples.push_back(s); }
                else { u64 r = nextRand() % paths; if (r < nSamples) { fill(); samples[r] = s; } }
            }
        }
    }

    /* ---- exceptions */
    std::string tiName(u64 addr) {
        auto it = addrGV.find(addr);
        return it == addrGV.end() ? "?" : it->second->getName().str();
    }
    bool tiMatches(u64 catchTi, u64 thrown, int depth = 0) {
        if (catchTi == 0) return true; // catch-all
        if (depth > 16) return false;
        std::string a = tiName(catchTi), b = tiName(thrown);
        if (a == b) return true;
        auto it = addrGV.find(thrown);
        if (it == addrGV.end()) return false;
        const GlobalVariable* gv = it->second;
        static const std::map<std::string, std::string> known = {
            {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
            {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
            {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
        if (!gv->hasInitializer()) {
            std::string cur = b;
            while (known.count(cur)) { cur = known.at(cur); if (cur == a) return true; }
            return false;
        }
        auto* init = dyn_cast<ConstantStruct>(gv->getInitializer());
        if (!init) return false;
        if (init->getNumOperands() == 3) return tiMatches(catchTi, (u64)constant(init->getOperand(2)).e->k, depth + 1);
        for (unsigned i = 4; i + 1 < init->getNumOperands() + 1 && i < init->getNumOperands(); i += 2)
            if (tiMatches(catchTi, (u64)constant(init->getOperand(i)).e->k, depth + 1)) return true;
        return false;
    }
    int tiId(u64 addr) {
        std::string n = tiName(addr);
        auto it = tiIndex.find(n);
        if (it != tiIndex.end()) return it->second;
        int k = (int)tiIndex.size() + 1;
        tiIndex[n] = k;
        return k;
    }
    /// selector for a landing pad: >0 catch, 0 cleanup, -1 no match
    int lpSelect(const LandingPadInst* lp, u64 ti, bool handlersOnly) {
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
            if (lp->isCatch(i)) {
                u64 c = (u64)constant(lp->getClause(i)).e->k;
                if (tiMatches(c, ti)) return c == 0 ? 0x7fffffff : tiId(c);
            } else throw Unsupported{"exception filter clause"};
        }
        return (!handlersOnly && lp->isCleanup()) ? 0 : -1;
    }
    void unwind(u64 exn) {
        u64 ti = S->exns[exn].ti;
        // phase 1: find a handler
        bool found = false;
        for (size_t i = S->stack.size(); i-- > 0;) {
            const Instruction* at = S->stack[i].pc;
            if (auto* inv = dyn_cast<InvokeInst>(at)) {
                if (lpSelect(inv->getLandingPadInst(), ti, true) > 0) { found = true; break; }
            }
        }
        if (!found) throw Violation{"exception", "uncaught exception of type " + tiName(ti)};
        while (true) {
            if (auto* inv = dyn_cast<InvokeInst>(top().pc)) {
                auto* lp = inv->getLandingPadInst();
                int sel = lpSelect(lp, ti, false);
                if (sel >= 0) {
                    S->curExn = exn;
                    gotoBB(top(), inv->getUnwindDest());
                    set(lp, VA({V(mkConst(exn, 64)), V(mkConst(sel, 32))}));
                    advance();
                    return;
                }
            }
            popFrame();
            if (S->stack.empty()) throw Violation{"exception", "uncaught exception of type " + tiName(ti)};
        }
    }

    /* ---- memory intrinsics */
    void memCopy(E dst, E src, u64 n, bool overlap) {
        if (!n) return;
        u64 so, d_o;
        u64 da = concretize(dst, "address"), sa = concretize(src, "address");
        if (!overlap && da != sa && da < sa + n && sa < da + n) throw Violation{"memory", "memcpy of " + std::to_string(n) + " bytes between overlapping places"};
        MemObj* s = access(mkConst(sa, 64), n, false, so);
        std::vector<uint8_t> conc(s->conc.begin() + so, s->conc.begin() + so + n), st(s->st.begin() + so, s->st.begin() + so + n);
        std::vector<E> sym;
        if (!s->sym.empty()) sym.assign(s->sym.begin() + so, s->sym.begin() + so + n);
        MemObj* d = access(mkConst(da, 64), n, true, d_o);
        std::copy(conc.begin(), conc.end(), d->conc.begin() + d_o);
        std::copy(st.begin(), st.end(), d->st.begin() + d_o);
        if (!sym.empty()) {
            if (d->sym.empty()) d->sym.assign(d->size, nullptr);
            std::copy(sym.begin(), sym.end(), d->sym.begin() + d_o);
        }
    }
    void memSet(E dst, E val, u64 n) {
        if (!n) return;
        u64 off;
        MemObj* d = access(dst, n, true, off);
        val = mkExtract(val, 0, 8);
        for (u64 i = 0; i < n; i++) writeBytes(d, off + i, val, 1);
    }
    std::string readCStr(E p) {
        u64 a = concretize(p, "string pointer");
        std::string r;
        for (u64 i = 0; i < 4096; i++) {
            E b = subst(loadScalar(mkConst(a + i, 64), 1));
            if (!b->is_const()) { r += '?'; continue; }
            if (b->k == 0) break;
            r += (char)b->k;
        }
        return r;
    }

    bool handleIntrinsic(const CallBase* cb, const Function* F);
    bool handleExternal(const CallBase* cb, const std::string& name, const std::vector<Val>& a);
    void callFunction(const CallBase* cb);
    void step();
    void runState();
    bool load(const std::vector<std::string>& files);
    void run();
    void writeResult(const std::string& path);
    std::set<std::string> expectedWitnesses();
};

bool Engine::handleIntrinsic(const CallBase* cb, const Function* F) {
    auto arg = [&](unsigned i) { return get(cb->getArgOperand(i)); };
    auto ae = [&](unsigned i) { return getE(cb->getArgOperand(i)); };
    Intrinsic::ID id = F->getIntrinsicID();
    Val none;
    switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::sideeffect:
        if (id == Intrinsic::invariant_start) { finishCall(cb, V(mkConst(0, 64))); return true; }
        finishCall(cb, none);
        return true;
    case Intrinsic::stacksave: finishCall(cb, V(mkConst(0, 64))); return true;
    case Intrinsic::stackrestore: finishCall(cb, none); return true;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
        E d = ae(0), s = ae(1);
        u64 n = concretize(ae(2), "length");
        memCopy(d, s, n, id == Intrinsic::memmove);
        finishCall(cb, none);
        return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        u64 n = concretize(ae(2), "length");
        memSet(ae(0), ae(1), n);
        finishCall(cb, none);
        return true;
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address:
        finishCall(cb, arg(0));
        return true;
    case Intrinsic::is_constant: finishCall(cb, V(E_false())); return true;
    case Intrinsic::objectsize: finishCall(cb, V(mkConst(~(u128)0, bits(cb->getType())))); return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: throw Violation{"trap", "trap executed"};
    case Intrinsic::eh_typeid_for: {
        u64 c = (u64)ae(0)->k;
        finishCall(cb, V(mkConst(tiId(c), 32)));
        return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        E a = ae(0), b = ae(1);
        unsigned w = a->w;
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? ADD : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? SUB : MUL;
        unsigned w2 = op == MUL ? std::min(128u, 2 * w) : w + 1;
        if (op == MUL && 2 * w > 128) throw Unsupported{"wide mul.with.overflow"};
        E x = sg ? mkSext(a, w2) : mkZext(a, w2), y = sg ? mkSext(b, w2) : mkZext(b, w2);
        E full = mkBin(op, x, y), lo = mkBin(op, a, b);
        E ov = mkNe(full, sg ? mkSext(lo, w2) : mkZext(lo, w2));
        finishCall(cb, VA({V(lo), V(ov)}));
        return true;
    }
    case Intrinsic::umax: finishCall(cb, lanewise(arg(0), arg(1), [](E a, E b) { return mkIte(mkBin(ULT, a, b), b, a); })); return true;
    case Intrinsic::umin: finishCall(cb, lanewise(arg(0), arg(1), [](E a, E b) { return mkIte(mkBin(ULT, a, b), a, b); })); return true;
    case Intrinsic::smax: finishCall(cb, lanewise(arg(0), arg(1), [](E a, E b) { return mkIte(mkBin(SLT, a, b), b, a); })); return true;
    case Intrinsic::smin: finishCall(cb, lanewise(arg(0), arg(1), [](E a, E b) { return mkIte(mkBin(SLT, a, b), a, b); })); return true;
    case Intrinsic::abs: finishCall(cb, lanewise1(arg(0), [](E a) { return mkIte(mkBin(SLT, a, mkConst(0, a->w)), mkBin(SUB, mkConst(0, a->w), a), a); })); return true;
    case Intrinsic::usub_sat: finishCall(cb, lanewise(arg(0), arg(1), [](E a, E b) { return mkIte(mkBin(ULT, a, b), mkConst(0, a->w), mkBin(SUB, a, b)); })); return true;
    case Intrinsic::uadd_sat: finishCall(cb, lanewise(arg(0), arg(1), [](E a, E b) { E s = mkBin(ADD, a, b); return mkIte(mkBin(ULT, s, a), mkConst(~(u128)0, a->w), s); })); return true;
    case Intrinsic::fabs: finishCall(cb, lanewise1(arg(0), [](E a) { return mkZext(mkExtract(a, 0, a->w - 1), a->w); })); return true;
    case Intrinsic::floor: finishCall(cb, lanewise1(arg(0), [](E a) { return mkUn(FRND, a, a->w, 4); })); return true;
    case Intrinsic::ceil: finishCall(cb, lanewise1(arg(0), [](E a) { return mkUn(FRND, a, a->w, 3); })); return true;
    case Intrinsic::trunc: finishCall(cb, lanewise1(arg(0), [](E a) { return mkUn(FRND, a, a->w, 2); })); return true;
    case Intrinsic::round: finishCall(cb, lanewise1(arg(0), [](E a) { return mkUn(FRND, a, a->w, 1); })); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: finishCall(cb, lanewise1(arg(0), [](E a) { return mkUn(FRND, a, a->w, 0); })); return true;
    case Intrinsic::sqrt: finishCall(cb, lanewise1(arg(0), [](E a) { return mkUn(FSQRT, a, a->w); })); return true;
    case Intrinsic::minnum: finishCall(cb, lanewise(arg(0), arg(1), [](E a, E b) { return mkBin(FMIN, a, b); })); return true;
    case Intrinsic::maxnum: finishCall(cb, lanewise(arg(0), arg(1), [](E a, E b) { return mkBin(FMAX, a, b); })); return true;
    case Intrinsic::copysign: finishCall(cb, lanewise(arg(0), arg(1), [](E a, E b) { return mkBin(CONCAT, mkExtract(b, b->w - 1, 1), mkExtract(a, 0, a->w - 1)); })); return true;
    case Intrinsic::fmuladd: finishCall(cb, V(mkBin(FADD, mkBin(FMUL, ae(0), ae(1)), ae(2)))); return true;
    case Intrinsic::pow: finishCall(cb, V(libm2("pow", ae(0), ae(1)))); return true;
    case Intrinsic::powi: { E a = subst(ae(0)), b = subst(ae(1)); if (!a->is_const() || !b->is_const()) throw Unsupported{"powi"}; finishCall(cb, V(fromD(std::pow(asD(a), (double)(i64)sxt(b->k, b->w)), a->w))); return true; }
    case Intrinsic::exp: finishCall(cb, V(libm1("exp", ae(0)))); return true;
    case Intrinsic::exp2: finishCall(cb, V(libm1("exp2", ae(0)))); return true;
    case Intrinsic::log: finishCall(cb, V(libm1("log", ae(0)))); return true;
    case Intrinsic::log10: finishCall(cb, V(libm1("log10", ae(0)))); return true;
    case Intrinsic::log2: finishCall(cb, V(libm1("log2", ae(0)))); return true;
    case Intrinsic::sin: finishCall(cb, V(libm1("sin", ae(0)))); return true;
    case Intrinsic::cos: finishCall(cb, V(libm1("cos", ae(0)))); return true;
    case Intrinsic::lround: case Intrinsic::llround:
        finishCall(cb, V(mkUn(FTOSI, mkUn(FRND, ae(0), ae(0)->w, 1), bits(cb->getType())))); return true;
    case Intrinsic::lrint: case Intrinsic::llrint:
        finishCall(cb, V(mkUn(FTOSI, mkUn(FRND, ae(0), ae(0)->w, 0), bits(cb->getType())))); return true;
    case Intrinsic::is_fpclass: {
        E a = ae(0);
        u64 mask = (u64)ae(1)->k;
        unsigned w = a->w, mb = w == 32 ? 23 : 52, eb = w - 1 - mb;
        E sign = mkExtract(a, w - 1, 1), ex = mkExtract(a, mb, eb), man = mkExtract(a, 0, mb);
        E exAll = mkEq(ex, mkConst(~(u128)0, eb)), ex0 = mkEq(ex, mkConst(0, eb)), man0 = mkEq(man, mkConst(0, mb)), quiet = mkExtract(a, mb - 1, 1);
        E r = E_false();
        auto add = [&](unsigned bit, E c) { if (mask & (1u << bit)) r = mkOr(r, c); };
        E nan = mkAnd(exAll, mkNot(man0)), inf = mkAnd(exAll, man0), sub = mkAnd(ex0, mkNot(man0)), zero = mkAnd(ex0, man0), norm = mkAnd(mkNot(exAll), mkNot(ex0));
        add(0, mkAnd(nan, mkNot(quiet))); add(1, mkAnd(nan, quiet));
        add(2, mkAnd(inf, sign)); add(3, mkAnd(norm, sign)); add(4, mkAnd(sub, sign)); add(5, mkAnd(zero, sign));
        add(6, mkAnd(zero, mkNot(sign))); add(7, mkAnd(sub, mkNot(sign))); add(8, mkAnd(norm, mkNot(sign))); add(9, mkAnd(inf, mkNot(sign)));
        finishCall(cb, V(r));
        return true;
    }
    case Intrinsic::bswap: {
        E a = ae(0);
        E r = nullptr;
        for (unsigned i = 0; i < a->w / 8; i++) { E b = mkExtract(a, 8 * i, 8); r = r ? mkBin(CONCAT, r, b) : b; }
        finishCall(cb, V(r));
        return true;
    }
    case Intrinsic::ctpop: { E a = ae(0); E r = mkConst(0, a->w); for (unsigned i = 0; i < a->w; i++) r = mkAdd(r, mkZext(mkExtract(a, i, 1), a->w)); finishCall(cb, V(r)); return true; }
    case Intrinsic::ctlz: { E a = ae(0); E r = mkConst(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(a->w - 1 - i, a->w), r); finishCall(cb, V(r)); return true; }
    case Intrinsic::cttz: { E a = ae(0); E r = mkConst(a->w, a->w); for (unsigned i = a->w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkConst(i, a->w), r); finishCall(cb, V(r)); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        E a = ae(0), b = ae(1), c = ae(2);
        u64 s = concretize(c, "shift") % a->w;
        unsigned w = a->w;
        E full = mkBin(CONCAT, a, b);
        if (2 * w > 128) throw Unsupported{"wide funnel shift"};
        finishCall(cb, V(id == Intrinsic::fshl ? mkExtract(full, w - s, w) : mkExtract(full, s, w)));
        return true;
    }
    case Intrinsic::vastart: {
        E ap = ae(0);
        Frame& f = top();
        unsigned gp = 0, fpn = 0;
        for (auto& a : f.F->args()) { if (a.hasByValAttr()) continue; if (a.getType()->isFloatTy() || a.getType()->isDoubleTy()) fpn++; else gp++; }
        u64 nOver = 0;
        for (size_t i = 0; i < f.vatypes.size(); i++) nOver++;
        u64 save = newObj(176, STACK, 0, "reg_save_area"), over = newObj(8 * nOver + 8, STACK, 0, "overflow_area");
        Frame& f2 = top();
        f2.allocas.push_back(objId(save));
        f2.allocas.push_back(objId(over));
        unsigned g = gp, x = fpn, ov = 0;
        for (size_t i = 0; i < f2.vatypes.size(); i++) {
            Type* t = f2.vatypes[i];
            if (!isScalar(t)) throw Unsupported{"aggregate vararg"};
            E v = f2.varargs[i].e;
            u64 a;
            if (t->isDoubleTy() || t->isFloatTy()) { if (x < 8) a = save + 48 + 16 * x++; else a = over + 8 * ov++; }
            else { if (g < 6) a = save + 8 * g++; else a = over + 8 * ov++; }
            u64 off;
            MemObj* o = access(mkConst(a, 64), 8, true, off);
            writeBytes(o, off, mkZext(v, 64), 8);
        }
        u64 off;
        MemObj* o = access(ap, 24, true, off);
        writeBytes(o, off, mkConst(std::min(gp, 6u) * 8, 32), 4);
        writeBytes(o, off + 4, mkConst(48 + std::min(fpn, 8u) * 16, 32), 4);
        writeBytes(o, off + 8, mkConst(over, 64), 8);
        writeBytes(o, off + 16, mkConst(save, 64), 8);
        finishCall(cb, none);
        return true;
    }
    case Intrinsic::vaend: finishCall(cb, none); return true;
    case Intrinsic::vacopy: memCopy(ae(0), ae(1), 24, false); finishCall(cb, none); return true;
    default: throw Unsupported{"intrinsic " + F->getName().str()};
    }
}

bool Engine::handleExternal(const CallBase* cb, const std::string& n, const std::vector<Val>& a) {
    Val none;
    auto retv = [&](E e) { finishCall(cb, V(e)); return true; };
    auto fit = [&](E e) { return mkZext(e, bits(cb->getType())); };
    if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "aligned_alloc") {
        u64 sz = concretize(n == "aligned_alloc" ? a[1].e : a[0].e, "allocation size");
        return retv(mkConst(newObj(sz, HEAP, n == "malloc" ? 'm' : n.compare(0, 4, "_Zna") == 0 ? 'a' : 'n', "heap"), 64));
    }
    if (n == "calloc") {
        u64 c = concretize(a[0].e, "allocation size"), s = concretize(a[1].e, "allocation size");
        u64 p = newObj(c * s, HEAP, 'm', "heap");
        memSet(mkConst(p, 64), mkConst(0, 8), c * s);
        return retv(mkConst(p, 64));
    }
    if (n == "realloc") {
        u64 p = concretize(a[0].e, "pointer"), s = concretize(a[1].e, "allocation size");
        u64 q = newObj(s, HEAP, 'm', "heap");
        if (p) {
            ObjP o = findObj(objId(p));
            if (!o || o->kind != HEAP || o->base != p) throw Violation{"memory", "realloc of an invalid pointer"};
            memCopy(mkConst(q, 64), mkConst(p, 64), std::min(s, o->size), false);
            freeObj(objId(p));
        }
        return retv(mkConst(q, 64));
    }
    if (n == "free" || n.compare(0, 5, "_ZdlP") == 0 || n.compare(0, 5, "_ZdaP") == 0) {
        u64 p = concretize(a[0].e, "freed pointer");
        if (p) {
            ObjP o = findObj(objId(p));
            if (!o) throw Violation{"memory", "double free or free of an invalid pointer"};
            if (o->kind != HEAP) throw Violation{"memory", "free of a non-heap object '" + o->name + "'"};
            if (o->base != p) throw Violation{"memory", "free of an interior pointer"};
            char want = n == "free" ? 'm' : n.compare(0, 5, "_ZdaP") == 0 ? 'a' : 'n';
            if (o->allocator != want) throw Violation{"memory", "mismatched allocation/deallocation functions"};
            freeObj(objId(p));
        }
        finishCall(cb, none);
        return true;
    }
    if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk") { u64 k = concretize(a[2].e, "length"); memCopy(a[0].e, a[1].e, k, n.find("memmove") != std::string::npos); return retv(a[0].e); }
    if (n == "memset") { u64 k = concretize(a[2].e, "length"); memSet(a[0].e, a[1].e, k); return retv(a[0].e); }
    if (n == "memcmp" || n == "bcmp") {
        u64 k = concretize(a[2].e, "length");
        E r = mkConst(0, 32);
        u64 p = concretize(a[0].e, "address"), q = concretize(a[1].e, "address");
        for (u64 i = k; i-- > 0;) {
            E x = loadScalar(mkConst(p + i, 64), 1), y = loadScalar(mkConst(q + i, 64), 1);
            r = mkIte(mkEq(x, y), r, mkIte(mkBin(ULT, x, y), mkConst(~(u128)0, 32), mkConst(1, 32)));
        }
        return retv(r);
    }
    if (n == "memchr") {
        u64 k = concretize(a[2].e, "length");
        if (!k) return retv(mkConst(0, 64));
        u64 p = concretize(a[0].e, "address");
        E c = mkExtract(a[1].e, 0, 8), r = mkConst(0, 64);
        for (u64 i = k; i-- > 0;) r = mkIte(mkEq(loadScalar(mkConst(p + i, 64), 1), c), mkConst(p + i, 64), r);
        return retv(r);
    }
    /* --- symbolic API --- */
    if (n == "sym_input") { // u64 sym_input(const char* name, unsigned bits)
        unsigned w = (unsigned)a[1].e->k;
        std::string nm = readCStr(a[0].e);
        E v = mkVar(nm + "#" + std::to_string(S->inputs.size()), w);
        S->inputs.push_back({nm, w, v});
        return retv(mkZext(v, 64));
    }
    if (n == "sym_assume") {
        E c = subst(a[0].e);
        c = c->w == 1 ? c : mkNe(c, mkConst(0, c->w));
        c = subst(c);
        if (c->is_false()) { infeasible++; throw PathDone{}; }
        if (!c->is_true()) {
            if (S->spec) {
                Model m;
                Res r = feasible(c, &m);
                if (r == Res::UNSAT) { infeasible++; throw PathDone{}; }
                if (r == Res::SAT) applyModel(*S, m);
                addConstraint(*S, c);
                if (r == Res::SAT) revalidate(*S);
            } else if (!evalExpr(c, S->model)) {
                Model m;
                Res r = feasible(c, &m);
                if (r == Res::UNKNOWN) unknownBranch++;
                if (r != Res::SAT) { infeasible++; throw PathDone{}; }
                applyModel(*S, m);
                addConstraint(*S, c);
            } else addConstraint(*S, c);
        }
        finishCall(cb, none);
        return true;
    }
    if (n == "sym_assert") {
        E c = a[0].e;
        c = c->w == 1 ? c : mkNe(c, mkConst(0, c->w));
        c = subst(c);
        asserts++;
        if (c->is_true()) assertsTrivial++;
        else {
            std::string msg = readCStr(a[1].e);
            if (S->spec) {
                Model m;
                Res r = feasible(mkNot(c), &m);
                if (r != Res::UNSAT) { // is it reachable at all?
                    std::vector<E> all = S->pc;
                    all.push_back(mkNot(c));
                    r = solverCheck(all, &m);
                }
                if (r == Res::SAT) {
                    Model full = S->model;
                    for (auto& kv : m.v) full.v[kv.first] = kv.second;
                    reportWith(c->undef ? "uninit" : "assert", msg, full);
                } else if (r == Res::UNKNOWN) undecided++;
                if (c->is_false()) throw PathDone{};
                if (r == Res::UNSAT) S->eqs[c] = 1;
                else addConstraint(*S, c);
            } else if (!evalExpr(c, S->model)) {
                reportNow(c->undef ? "uninit" : "assert", msg);
                Model m;
                if (c->is_false() || feasible(c, &m) != Res::SAT) throw PathDone{};
                applyModel(*S, m);
                addConstraint(*S, c);
            } else {
                Model m;
                Res r = feasible(mkNot(c), &m);
                if (r == Res::SAT) {
                    Model full = S->model;
                    for (auto& kv : m.v) full.v[kv.first] = kv.second;
                    reportWith(c->undef ? "uninit" : "assert", msg, full);
                    addConstraint(*S, c);
                } else if (r == Res::UNKNOWN) {
                    undecided++;
                    addConstraint(*S, c);
                } else S->eqs[c] = 1;
            }
        }
        finishCall(cb, none);
        return true;
    }
    if (n == "sym_reach") { if (!S->spec) reached.insert(readCStr(a[0].e)); finishCall(cb, none); return true; }
    if (n == "sym_concretize") { return retv(mkConst(concretize(a[0].e, "value"), 64)); }
    if (n == "sym_observe") { S->obs.push_back({readCStr(a[0].e), a[1].e}); finishCall(cb, none); return true; }
    if (n == "sym_live_heap") {
        u64 c = 0;
        for (auto& kv : S->objs) if (kv.second->kind == HEAP && kv.first >= S->heapMark) c++;
        return retv(mkConst(c, 64));
    }
    if (n == "sym_is_symbolic") return retv(mkConst(1, 32));
    if (n == "sym_stop") { pathCompleted(); throw PathDone{}; }
    if (n == "sym_fail") { reportNow("assert", readCStr(a[0].e)); throw PathDone{}; }
    if (n == "sym_note") { finishCall(cb, none); return true; }
    /* --- C++ runtime --- */
    if (n == "__cxa_allocate_exception") return retv(mkConst(newObj((u64)a[0].e->k, HEAP, 'x', "exception"), 64));
    if (n == "__cxa_free_exception") { freeObj(objId((u64)a[0].e->k)); finishCall(cb, none); return true; }
    if (n == "__cxa_throw") {
        u64 x = (u64)a[0].e->k;
        S->exns[x] = ExnInfo{(u64)a[1].e->k, (u64)a[2].e->k};
        unwind(x);
        return true;
    }
    if (n == "__cxa_begin_catch") {
        u64 x = (u64)a[0].e->k;
        S->caught.push_back(x);
        S->exns[x].handlers++;
        S->exns[x].rethrown = false;
        return retv(mkConst(x, 64));
    }
    if (n == "__cxa_get_exception_ptr") return retv(a[0].e);
    if (n == "__cxa_end_catch") {
        if (S->caught.empty()) throw Unsupported{"end_catch without catch"};
        u64 x = S->caught.back();
        S->caught.pop_back();
        auto& ei = S->exns[x];
        ei.handlers--;
        finishCall(cb, none);
        if (ei.handlers == 0 && !ei.rethrown) {
            u64 d = ei.dtor;
            S->exns.erase(x);
            ObjP o = d ? findObj(objId(d)) : nullptr;
            if (o && o->fn && !o->fn->isDeclaration()) {
                pushFrame(o->fn, {V(mkConst(x, 64))}, nullptr);
                top().dropObjOnRet = x;
            } else freeObj(objId(x));
        }
        return true;
    }
    if (n == "__cxa_rethrow") {
        if (S->caught.empty()) throw Violation{"exception", "rethrow without an active exception"};
        u64 x = S->caught.back();
        S->exns[x].rethrown = true;
        unwind(x);
        return true;
    }
    if (n == "_Unwind_Resume") { unwind((u64)a[0].e->k); return true; }
    if (n == "__cxa_atexit" || n == "atexit") return retv(mkConst(0, 32));
    if (n == "__cxa_guard_acquire") {
        E g = subst(loadScalar(a[0].e, 1));
        return retv(mkConst(g->is_const() && g->k == 0, 32));
    }
    if (n == "__cxa_guard_release") { u64 off; MemObj* o = access(a[0].e, 1, true, off); writeBytes(o, off, mkConst(1, 8), 1); finishCall(cb, none); return true; }
    if (n == "__cxa_guard_abort") { finishCall(cb, none); return true; }
    if (n == "__cxa_pure_virtual") throw Violation{"trap", "pure virtual function called"};
    if (n == "_ZSt9terminatev" || n == "abort" || n == "_ZSt10unexpectedv") throw Violation{"exception", n == "abort" ? "abort called" : "std::terminate called"};
    if (n == "exit" || n == "_exit") throw Violation{"trap", "exit called"};
    if (n == "__errno_location") {
        static const GlobalVariable* gv = nullptr;
        if (!gv) gv = M->getGlobalVariable("rt_errno", true);
        if (!gv) throw Unsupported{"errno"};
        return retv(mkConst(addrOf(gv), 64));
    }
    if (n == "_ZSt21ios_base_library_initv" || n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") { finishCall(cb, none); return true; }
    if (n == "rt_host_fmt_double") { // int (char* buf, size_t n, const char* fmt, double d), d concrete
        double d; u64 b = concretize(a[3].e, "formatted number"); memcpy(&d, &b, 8);
        char t[512];
        std::string f = readCStr(a[2].e);
        u64 cap = std::min<u64>(sizeof(t), concretize(a[1].e, "length"));
        int k = snprintf(t, cap, f.c_str(), d);
        u64 len = std::min<u64>(k + 1, cap), p = concretize(a[0].e, "address"), off;
        MemObj* o = access(mkConst(p, 64), len, true, off);
        for (u64 i = 0; i < len; i++) writeBytes(o, off + i, mkConst((uint8_t)t[i], 8), 1);
        return retv(mkConst((u64)k, 32));
    }
    if (n == "rt_host_strtod") { // u64 bits (const char* buf, size_t n, size_t* used, int is_float)
        std::string t = readCStr(a[0].e);
        char* e;
        u64 r = 0;
        if (a[3].e->k) { float v = strtof(t.c_str(), &e); memcpy(&r, &v, 4); } else { double v = strtod(t.c_str(), &e); memcpy(&r, &v, 8); }
        u64 off;
        MemObj* o = access(a[2].e, 8, true, off);
        writeBytes(o, off, mkConst(e - t.c_str(), 64), 8);
        return retv(mkConst(r, 64));
    }
    if (n == "__dynamic_cast") throw Unsupported{"dynamic_cast"};
    /* --- libm --- */
    static const std::map<std::string, int> rnd = {{"floor", 4}, {"ceil", 3}, {"trunc", 2}, {"round", 1}, {"rint", 0}, {"nearbyint", 0}};
    std::string b = n;
    if (b.size() > 1 && b.back() == 'f' && (rnd.count(b.substr(0, b.size() - 1)) || b == "sqrtf" || b == "fabsf" || b == "powf" || b == "fmodf" || b == "expf" || b == "logf" || b == "log10f" || b == "lroundf" || b == "fminf" || b == "fmaxf" || b == "sinf" || b == "cosf" || b == "exp2f" || b == "log2f" || b == "tanhf" || b == "llroundf" || b == "hypotf" || b == "atan2f")) b.pop_back();
    if (rnd.count(b)) return retv(mkUn(FRND, a[0].e, a[0].e->w, rnd.at(b)));
    if (b == "sqrt") return retv(mkUn(FSQRT, a[0].e, a[0].e->w));
    if (b == "fabs") return retv(mkZext(mkExtract(a[0].e, 0, a[0].e->w - 1), a[0].e->w));
    if (b == "fmin" || b == "fmax") return retv(mkBin(b == "fmin" ? FMIN : FMAX, a[0].e, a[1].e));
    if (b == "lround" || b == "llround") return retv(mkUn(FTOSI, mkUn(FRND, a[0].e, a[0].e->w, 1), 64));
    if (b == "pow" || b == "fmod" || b == "hypot" || b == "atan2") return retv(libm2(b, a[0].e, a[1].e));
    if (b == "exp" || b == "log" || b == "log10" || b == "log2" || b == "exp2" || b == "sin" || b == "cos" || b == "tanh") return retv(libm1(b, a[0].e));
    (void)fit;
    return false;
}

void Engine::callFunction(const CallBase* cb) {
    if (cb->isInlineAsm()) {
        finishCall(cb, Val{});
        return;
    }
    const Function* F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
    if (!F) {
        E fp = getE(cb->getCalledOperand());
        u64 p = concretize(fp, "function pointer");
        ObjP o = findObj(objId(p));
        if (p < 4096) throw Violation{"memory", "call through a null function pointer"};
        if (!o || o->kind != FUNC || o->base != p) throw Violation{"memory", "call through an invalid function pointer"};
        F = o->fn;
    }
    if (F->isIntrinsic()) { handleIntrinsic(cb, F); return; }
    std::string name = F->getName().str();
    auto al = alias.find(name);
    if (al != alias.end()) {
        if (const Function* G = M->getFunction(al->second)) { F = G; name = al->second; }
    }
    std::vector<Val> args;
    std::vector<Val> va;
    std::vector<Type*> vt;
    unsigned nfix = F->arg_size();
    for (unsigned i = 0; i < cb->arg_size(); i++) {
        Val v = get(cb->getArgOperand(i));
        if (cb->isByValArgument(i)) {
            Type* t = cb->getParamByValType(i);
            u64 sz = DL->getTypeAllocSize(t);
            u64 src = concretize(v.e, "address");
            u64 p = newObj(sz, STACK, 0, "byval");
            memCopy(mkConst(p, 64), mkConst(src, 64), sz, false);
            v = V(mkConst(p, 64));
        }
        if (i < nfix) args.push_back(v);
        else { va.push_back(v); vt.push_back(cb->getArgOperand(i)->getType()); }
    }
    if (F->isDeclaration()) {
        if (handleExternal(cb, name, args)) return;
        throw Unsupported{"external function " + name};
    }
    // engine-provided semantics win over IR bodies for the symbolic API only (those are declarations)
    pushFrame(F, args, cb, std::move(va), std::move(vt));
}

void Engine::step() {
    Frame& f = top();
    const Instruction* I = f.pc;
    S->steps++;
    steps++;
    switch (I->getOpcode()) {
    case Instruction::Ret: {
        auto* r = cast<ReturnInst>(I);
        if (r->getReturnValue()) { Val v = get(r->getReturnValue()); ret(v, true); }
        else ret(Val{}, false);
        return;
    }
    case Instruction::Br: {
        auto* b = cast<BranchInst>(I);
        if (b->isUnconditional()) { gotoBB(f, b->getSuccessor(0)); return; }
        E c = getE(b->getCondition());
        bool v = branch(c, [&](State& s, bool t) { gotoBB(s.stack.back(), b->getSuccessor(t ? 0 : 1)); });
        gotoBB(top(), b->getSuccessor(v ? 0 : 1));
        return;
    }
    case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(I);
        E c = getE(sw->getCondition());
        if (!c->is_const()) {
            // peel the case the model takes; the rest is revisited with c != that case
            settle();
            u128 v = evalExpr(c, S->model);
            for (auto& cs : sw->cases()) {
                E k = constant(cs.getCaseValue()).e;
                if (k->k == v) {
                    E eq = mkEq(c, k);
                    if (c->undef) reportNow("uninit", "switch depends on an uninitialised value");
                    forkOn(eq);
                    S->eqs[c] = v;
                    gotoBB(top(), cs.getCaseSuccessor());
                    return;
                }
            }
            // model takes the default: fork off the cases
            E any = E_false();
            for (auto& cs : sw->cases()) any = mkOr(any, mkEq(c, constant(cs.getCaseValue()).e));
            forkOn(any);
            gotoBB(top(), sw->getDefaultDest());
            return;
        }
        for (auto& cs : sw->cases())
            if (constant(cs.getCaseValue()).e == c) { gotoBB(f, cs.getCaseSuccessor()); return; }
        gotoBB(f, sw->getDefaultDest());
        return;
    }
    case Instruction::Unreachable: throw Violation{"trap", "unreachable code reached"};
    case Instruction::Resume: {
        Val v = get(I->getOperand(0));
        u64 x = (u64)v.agg->v[0].e->k;
        // continue unwinding from the caller
        popFrame();
        if (S->stack.empty()) throw Violation{"exception", "uncaught exception"};
        unwind(x);
        return;
    }
    case Instruction::Call: case Instruction::Invoke: callFunction(cast<CallBase>(I)); return;
    case Instruction::LandingPad: throw Unsupported{"landingpad reached directly"};
    case Instruction::Alloca: {
        auto* al = cast<AllocaInst>(I);
        u64 n = concretize(getE(al->getArraySize()), "alloca size");
        u64 sz = DL->getTypeAllocSize(al->getAllocatedType()) * n;
        u64 p = newObj(sz, STACK, 0, "stack:" + al->getName().str());
        top().allocas.push_back(objId(p));
        set(I, V(mkConst(p, 64)));
        advance();
        return;
    }
    case Instruction::Load: {
        auto* ld = cast<LoadInst>(I);
        Val v = loadType(ld->getType(), getE(ld->getPointerOperand()));
        set(I, v);
        advance();
        return;
    }
    case Instruction::Store: {
        auto* st = cast<StoreInst>(I);
        E p = getE(st->getPointerOperand());
        Val v = get(st->getValueOperand());
        // resolve the address (may fork) before writing
        concretize(p, "address");
        storeType(st->getValueOperand()->getType(), p, v);
        advance();
        return;
    }
    case Instruction::AtomicRMW: {
        auto* rmw = cast<AtomicRMWInst>(I);
        E p = getE(rmw->getPointerOperand());
        Val old = loadType(rmw->getType(), p);
        E o = old.e, v = getE(rmw->getValOperand()), nv;
        switch (rmw->getOperation()) {
        case AtomicRMWInst::Add: nv = mkBin(ADD, o, v); break;
        case AtomicRMWInst::Sub: nv = mkBin(SUB, o, v); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::And: nv = mkBin(AND, o, v); break;
        case AtomicRMWInst::Or: nv = mkBin(OR, o, v); break;
        default: throw Unsupported{"atomicrmw"};
        }
        storeType(rmw->getType(), p, V(nv));
        set(I, old);
        advance();
        return;
    }
    case Instruction::AtomicCmpXchg: {
        auto* cx = cast<AtomicCmpXchgInst>(I);
        E p = getE(cx->getPointerOperand());
        Type* t = cx->getCompareOperand()->getType();
        E o = loadType(t, p).e, c = mkEq(o, getE(cx->getCompareOperand()));
        storeType(t, p, V(mkIte(c, getE(cx->getNewValOperand()), o)));
        set(I, VA({V(o), V(c)}));
        advance();
        return;
    }
    case Instruction::Fence: advance(); return;
    case Instruction::GetElementPtr: {
        auto* g = cast<GetElementPtrInst>(I);
        if (g->getType()->isVectorTy()) throw Unsupported{"vector gep"};
        E p = getE(g->getPointerOperand());
        for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            if (StructType* st = it.getStructTypeOrNull()) {
                unsigned idx = cast<ConstantInt>(it.getOperand())->getZExtValue();
                p = mkAdd(p, mkConst(DL->getStructLayout(st)->getElementOffset(idx), 64));
            } else {
                E ix = getE(it.getOperand());
                u64 es = DL->getTypeAllocSize(it.getIndexedType());
                p = mkAdd(p, mkBin(MUL, mkSext(ix, 64), mkConst(es, 64)));
            }
        }
        set(I, V(p));
        advance();
        return;
    }
    case Instruction::PHI: throw Unsupported{"phi reached directly"};
    case Instruction::ICmp: {
        auto* c = cast<ICmpInst>(I);
        auto p = c->getPredicate();
        set(I, lanewise(get(c->getOperand(0)), get(c->getOperand(1)), [&](E a, E b) { return icmp(p, a, b); }));
        advance();
        return;
    }
    case Instruction::FCmp: {
        auto* c = cast<FCmpInst>(I);
        auto p = c->getPredicate();
        if (!isScalar(c->getOperand(0)->getType()) && !c->getOperand(0)->getType()->isVectorTy()) throw Unsupported{"fcmp type"};
        set(I, lanewise(get(c->getOperand(0)), get(c->getOperand(1)), [&](E a, E b) { return fcmp(p, a, b); }));
        advance();
        return;
    }
    case Instruction::Select: {
        Val c = get(I->getOperand(0)), a = get(I->getOperand(1)), b = get(I->getOperand(2));
        Val r;
        if (c.e) {
            E ce = subst(c.e);
            if (ce->is_const()) r = ce->k ? a : b;
            else if (a.e) r = V(mkIte(ce, a.e, b.e));
            else {
                std::function<Val(Val, Val)> ite = [&](Val x, Val y) -> Val {
                    if (x.e) return V(mkIte(ce, x.e, y.e));
                    std::vector<Val> v;
                    for (size_t i = 0; i < x.agg->v.size(); i++) v.push_back(ite(x.agg->v[i], y.agg->v[i]));
                    return VA(std::move(v));
                };
                r = ite(a, b);
            }
        } else {
            std::vector<Val> v;
            for (size_t i = 0; i < a.agg->v.size(); i++) v.push_back(V(mkIte(c.agg->v[i].e, a.agg->v[i].e, b.agg->v[i].e)));
            r = VA(std::move(v));
        }
        set(I, r);
        advance();
        return;
    }
    case Instruction::ExtractValue: {
        auto* ev = cast<ExtractValueInst>(I);
        Val v = get(ev->getAggregateOperand());
        for (unsigned ix : ev->indices()) v = v.agg->v[ix];
        set(I, v);
        advance();
        return;
    }
    case Instruction::InsertValue: {
        auto* iv = cast<InsertValueInst>(I);
        Val v = get(iv->getAggregateOperand()), x = get(iv->getInsertedValueOperand());
        std::function<Val(Val, ArrayRef<unsigned>)> ins = [&](Val cur, ArrayRef<unsigned> ix) -> Val {
            if (ix.empty()) return x;
            std::vector<Val> n = cur.agg->v;
            n[ix[0]] = ins(n[ix[0]], ix.drop_front());
            return VA(std::move(n));
        };
        set(I, ins(v, iv->getIndices()));
        advance();
        return;
    }
    case Instruction::ExtractElement: {
        Val v = get(I->getOperand(0));
        u64 ix = concretize(getE(I->getOperand(1)), "vector index");
        set(I, v.agg->v.at(ix));
        advance();
        return;
    }
    case Instruction::InsertElement: {
        Val v = get(I->getOperand(0));
        Val x = get(I->getOperand(1));
        u64 ix = concretize(getE(I->getOperand(2)), "vector index");
        std::vector<Val> n = v.agg->v;
        n.at(ix) = x;
        set(I, VA(std::move(n)));
        advance();
        return;
    }
    case Instruction::ShuffleVector: {
        auto* sv = cast<ShuffleVectorInst>(I);
        Val a = get(sv->getOperand(0)), b = get(sv->getOperand(1));
        std::vector<Val> n;
        size_t na = a.agg->v.size();
        for (int m : sv->getShuffleMask()) {
            if (m < 0) n.push_back(undefOf(cast<VectorType>(sv->getType())->getElementType()));
            else n.push_back((size_t)m < na ? a.agg->v[m] : b.agg->v[m - na]);
        }
        set(I, VA(std::move(n)));
        advance();
        return;
    }
    case Instruction::Freeze: set(I, get(I->getOperand(0))); advance(); return;
    case Instruction::FNeg: set(I, lanewise1(get(I->getOperand(0)), [](E a) { return mkBin(XOR, a, mkConst((u128)1 << (a->w - 1), a->w)); })); advance(); return;
    case Instruction::Trunc: { unsigned w = bits(I->getType()->getScalarType()); set(I, lanewise1(get(I->getOperand(0)), [&](E a) { return mkExtract(a, 0, w); })); advance(); return; }
    case Instruction::ZExt: { unsigned w = bits(I->getType()->getScalarType()); set(I, lanewise1(get(I->getOperand(0)), [&](E a) { return mkZext(a, w); })); advance(); return; }
    case Instruction::SExt: { unsigned w = bits(I->getType()->getScalarType()); set(I, lanewise1(get(I->getOperand(0)), [&](E a) { return mkSext(a, w); })); advance(); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: set(I, V(mkZext(getE(I->getOperand(0)), bits(I->getType())))); advance(); return;
    case Instruction::BitCast: {
        Type *ft = I->getOperand(0)->getType(), *tt = I->getType();
        Val v = get(I->getOperand(0));
        if (ft->isVectorTy() != tt->isVectorTy() || (ft->isVectorTy() && cast<FixedVectorType>(ft)->getNumElements() != cast<FixedVectorType>(tt)->getNumElements())) {
            // reinterpret through a flat bit string
            E flat = nullptr;
            if (v.e) flat = v.e;
            else for (auto& x : v.agg->v) flat = flat ? mkBin(CONCAT, x.e, flat) : x.e;
            if (tt->isVectorTy()) {
                auto* vt = cast<FixedVectorType>(tt);
                unsigned w = bits(vt->getElementType());
                std::vector<Val> n;
                for (unsigned i = 0; i < vt->getNumElements(); i++) n.push_back(V(mkExtract(flat, i * w, w)));
                v = VA(std::move(n));
            } else v = V(flat);
        }
        set(I, v);
        advance();
        return;
    }
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
        unsigned w = bits(I->getType()->getScalarType());
        bits(I->getOperand(0)->getType()->getScalarType());
        unsigned oc = I->getOpcode();
        set(I, lanewise1(get(I->getOperand(0)), [&](E a) {
            switch (oc) {
            case Instruction::FPToSI: return mkUn(FTOSI, a, w);
            case Instruction::FPToUI: return mkUn(FTOUI, a, w);
            case Instruction::SIToFP: return mkUn(SITOF, a, w);
            case Instruction::UIToFP: return mkUn(UITOF, a, w);
            default: return mkUn(FTOF, a, w);
            }
        }));
        advance();
        return;
    }
    default:
        if (I->isBinaryOp()) {
            unsigned oc = I->getOpcode();
            bits(I->getType()->getScalarType());
            Val r = lanewise(get(I->getOperand(0)), get(I->getOperand(1)), [&](E a, E b) { return binop(oc, a, b); });
            set(I, r);
            advance();
            return;
        }
        throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
    }
}

void Engine::runState() {
    try {
        if (S->stack.empty()) nextPending();
        while (true) {
            if (S->steps > maxSteps) throw Violation{"hang", "path did not terminate within " + std::to_string(maxSteps) + " instructions"};
            if ((steps & 0x3ff) == 0 && elapsed() > timeLimit) { timedOut = true; return; }
            step();
        }
    } catch (PathDone&) {
    } catch (Violation& v) {
        reportNow(v.kind, v.msg);
    } catch (Unsupported& u) {
        if (!settled()) return;
        unsupportedPaths++;
        std::string w = u.why;
        if (!S->stack.empty()) w += " @ " + locOf(top().pc);
        unsupportedWhy[w]++;
        if (verbose) { fprintf(stderr, "UNSUPPORTED %s\n", w.c_str()); for (auto& t : backtrace()) fprintf(stderr, "   %s\n", t.c_str()); }
    }
}

bool Engine::load(const std::vector<std::string>& files) {
    SMDiagnostic err;
    for (auto& f : files) {
        auto m = parseIRFile(f, err, ctx);
        if (!m) { err.print("engine", errs()); return false; }
        if (!M) { M = std::move(m); continue; }
        if (Linker::linkModules(*M, std::move(m))) return false;
    }
    for (auto& F : *M) {
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::NoInline);
    }
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "globaldce,function(sroa,instsimplify,simplifycfg)")) { errs() << "pass pipeline\n"; return false; }
    // keep only what is reachable from the harness
    for (auto& F : *M) if (!F.isDeclaration() && F.getName() != harness && !F.getName().starts_with("rt_")) F.setLinkage(F.hasLocalLinkage() ? F.getLinkage() : GlobalValue::InternalLinkage);
    for (auto& F : *M) if (F.getComdat()) F.setComdat(nullptr);
    for (auto& G : M->globals()) { if (G.getComdat()) G.setComdat(nullptr); if (G.hasInitializer() && !G.hasLocalLinkage() && !G.getName().starts_with("llvm.") && !G.getName().starts_with("rt_")) G.setLinkage(GlobalValue::InternalLinkage); }
    MPM.run(*M, MAM);
    DL = &M->getDataLayout();
    return true;
}

std::set<std::string> Engine::expectedWitnesses() {
    std::set<std::string> out;
    std::set<const Function*> seen;
    std::vector<const Function*> wl{M->getFunction(harness)};
    while (!wl.empty()) {
        const Function* F = wl.back();
        wl.pop_back();
        if (!F || !seen.insert(F).second) continue;
        for (auto& I : instructions(*F)) {
            for (auto& op : I.operands()) if (auto* G = dyn_cast<Function>(op)) wl.push_back(G);
            if (auto* cb = dyn_cast<CallBase>(&I)) if (auto* c = cb->getCalledFunction()) if (c->getName() == "sym_reach") {
                if (auto* gv = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts()))
                    if (gv->hasInitializer()) if (auto* cd = dyn_cast<ConstantDataSequential>(gv->getInitializer())) if (cd->isCString()) out.insert(cd->getAsCString().str());
            }
        }
    }
    return out;
}

void Engine::run() {
    t0 = std::chrono::steady_clock::now();
    // overrides: library entry points replaced by models from the runtime module
    alias = {
        {"_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", "rt_ostream_cstr"},
        {"_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", "rt_ostream_insert"},
        {"_ZNSolsEPFRSoS_E", "rt_ostream_manip"},
        {"_ZNSo5flushEv", "rt_ostream_flush"}, {"_ZNSo3putEc", "rt_ostream_put"},
        {"_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE", "rt_ostream_string"},
        {"_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St17basic_string_viewIS3_S4_E", "rt_ostream_sv"},
        {"_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", "rt_ostream_endl"},
        {"snprintf", "rt_snprintf"}, {"vsnprintf", "rt_vsnprintf"}, {"strlen", "rt_strlen"}, {"strcmp", "rt_strcmp"}, {"strncmp", "rt_strncmp"}, {"strchr", "rt_strchr"}, {"strstr", "rt_strstr"}, {"strcpy", "rt_strcpy"}, {"strncpy", "rt_strncpy"},
        {"strtol", "rt_strtol"}, {"__isoc23_strtol", "rt_strtol"}, {"strtoll", "rt_strtol"}, {"__isoc23_strtoll", "rt_strtol"}, {"strtoul", "rt_strtoul"}, {"__isoc23_strtoul", "rt_strtoul"}, {"strtoull", "rt_strtoul"}, {"__isoc23_strtoull", "rt_strtoul"}, {"atoi", "rt_atoi"},
        {"sscanf", "rt_sscanf"}, {"__isoc23_sscanf", "rt_sscanf"}, {"strtof", "rt_strtof"}, {"strtod", "rt_strtod"},
        {"gmtime_r", "rt_gmtime_r"}, {"gmtime", "rt_gmtime"}, {"mktime", "rt_mktime"}, {"timegm", "rt_mktime"}, {"strftime", "rt_strftime"},
        {"isspace", "rt_isspace"}, {"isdigit", "rt_isdigit"}, {"tolower", "rt_tolower"}, {"toupper", "rt_toupper"}, {"isalpha", "rt_isalpha"}, {"isalnum", "rt_isalnum"}};
    const Function* H = M->getFunction(harness);
    if (!H || H->isDeclaration()) { fprintf(stderr, "no harness %s\n", harness.c_str()); exit(3); }
    State* s0 = new State();
    S = s0;
    // lay out all globals first so object ids are stable
    for (auto& F : *M) addrOf(&F);
    for (auto& G : M->globals()) addrOf(&G);
    s0->nextObj = 1u << 20;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<u64, const Function*>> v;
        for (auto& op : ca->operands()) {
            auto* st = cast<ConstantStruct>(op);
            if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f});
        }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& p : v) s0->pending.push_back(p.second);
    }
    s0->pending.push_back(H);
    work.push_back(s0);
    while (!work.empty() && !timedOut && viols.size() < maxViol) {
        S = work.back();
        work.pop_back();
        bool first = S->decisions < (unsigned)partDepth;
        runState();
        // paths that finish before the partition depth are explored by every part; count them once
        (void)first;
        delete S;
        S = nullptr;
    }
}

static std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static std::string hex128(u128 v) {
    char b[40];
    if (v >> 64) snprintf(b, 40, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
    else snprintf(b, 40, "0x%llx", (unsigned long long)v);
    return b;
}
void Engine::writeResult(const std::string& path) {
    std::ofstream o(path);
    auto kvs = [&](const std::vector<std::pair<std::string, std::pair<unsigned, u128>>>& v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::string("[\"") + jesc(v[i].first) + "\"," + std::to_string(v[i].second.first) + ",\"" + hex128(v[i].second.second) + "\"]";
        return r + "]";
    };
    o << "{\"harness\":\"" << jesc(harness) << "\",\"part\":" << part << ",\"parts\":" << parts;
    o << ",\"complete\":" << ((!timedOut && work.empty() && viols.size() < maxViol && unsupportedPaths == 0 && unknownBranch == 0 && undecided == 0) ? "true" : "false");
    o << ",\"timed_out\":" << (timedOut ? "true" : "false") << ",\"pending\":" << work.size();
    o << ",\"paths\":" << paths << ",\"infeasible\":" << infeasible << ",\"unsupported_paths\":" << unsupportedPaths << ",\"steps\":" << steps << ",\"max_path_steps\":" << maxPathSteps << ",\"forks\":" << forks << ",\"asserts\":" << asserts << ",\"asserts_trivial\":" << assertsTrivial << ",\"undecided\":" << undecided << ",\"unknown_branch\":" << unknownBranch << ",\"speculated\":" << speculated;
    o << ",\"queries\":" << g_ss.queries << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat << ",\"unknown\":" << g_ss.unknown << ",\"cache_hits\":" << g_ss.cache_hits << ",\"fp_queries\":" << g_ss.fp_queries << ",\"int_queries\":" << g_ss.int_queries << ",\"real_queries\":" << g_ss.real_queries << ",\"solver_s\":" << g_ss.time << ",\"solver_max_s\":" << g_ss.max_time << ",\"wall_s\":" << elapsed() << ",\"exprs\":" << exprCount();
    o << ",\"unsupported\":{";
    bool first = true;
    for (auto& kv : unsupportedWhy) { o << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; }
    o << "},\"reached\":[";
    first = true;
    for (auto& r : reached) { o << (first ? "" : ",") << "\"" << jesc(r) << "\""; first = false; }
    o << "],\"expected\":[";
    first = true;
    for (auto& r : expectedWitnesses()) { o << (first ? "" : ",") << "\"" << jesc(r) << "\""; first = false; }
    o << "],\"functions\":[";
    first = true;
    for (auto* F : executed) {
        auto* sp = F->getSubprogram();
        if (!sp) continue;
        std::string file = sp->getFilename().str();
        if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
        if (file.compare(0, srcRoot.size(), srcRoot) != 0) continue;
        o << (first ? "" : ",") << "\"" << jesc(F->getName().str()) << "\"";
        first = false;
    }
    o << "],\"violations\":[";
    first = true;
    for (auto& v : viols) {
        o << (first ? "" : ",") << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"trace\":[";
        for (size_t i = 0; i < v.trace.size(); i++) o << (i ? "," : "") << "\"" << jesc(v.trace[i]) << "\"";
        o << "],\"inputs\":" << kvs(v.inputs) << "}";
        first = false;
    }
    o << "],\"samples\":[";
    first = true;
    for (auto& s : samples) { o << (first ? "" : ",") << "{\"inputs\":" << kvs(s.inputs) << ",\"obs\":" << kvs(s.obs) << "}"; first = false; }
    o << "]}\n";
}

int main(int argc, char** argv) {
    Engine en;
    std::vector<std::string> files;
    std::string out = "/dev/stdout";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--harness") en.harness = val();
        else if (a == "--out") out = val();
        else if (a == "--time") en.timeLimit = atof(val().c_str());
        else if (a == "--steps") en.maxSteps = atoll(val().c_str());
        else if (a == "--part") { std::string v = val(); sscanf(v.c_str(), "%d/%d", &en.part, &en.parts); }
        else if (a == "--part-depth") en.partDepth = atoi(val().c_str());
        else if (a == "--qtimeout") g_query_timeout_ms = atoi(val().c_str());
        else if (a == "--samples") en.nSamples = atoi(val().c_str());
        else if (a == "--max-viol") en.maxViol = atoi(val().c_str());
        else if (a == "--src-root") en.srcRoot = val();
        else if (a == "--dump") g_dump_dir = val();
        else if (a == "--seed") en.rng ^= (u64)atoll(val().c_str()) * 0x9E3779B97F4A7C15ull;
        else if (a == "-v") en.verbose = true;
        else files.push_back(a);
    }
    solverInit();
    if (!en.load(files)) return 3;
    en.run();
    en.writeResult(out);
    return 0;
}
