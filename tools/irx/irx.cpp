#include "llvm/BinaryFormat/Dwarf.h"
// irx: dumps an LLVM module as JSON for the Python analyses in /verif/lib.
// It only reads the IR: byte offsets, callees, debug locations, constants.
#include "llvm/IR/DebugInfo.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
using namespace llvm;
namespace J = llvm::json;
static const DataLayout *DL;
static std::map<const Value*, int> ids;
static std::string tname(Type *t) {
    std::string s; raw_string_ostream o(s);
    if (auto *st = dyn_cast<StructType>(t)) { if (st->hasName()) return st->getName().str(); }
    t->print(o); return o.str();
}
static std::string qual(const DIType *t) { std::string n = t->getName().str(); for (const DIScope *s = t->getScope(); s; s = s->getScope()) { if (isa<DINamespace>(s) || isa<DICompositeType>(s)) n = (s->getName().empty() ? std::string("(anon)") : s->getName().str()) + "::" + n; else if (isa<DISubprogram>(s)) { n = s->getName().str() + "()::" + n; } } return n; }
static J::Value op(const Value *v);
static J::Value cst(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        SmallString<40> s; ci->getValue().toStringUnsigned(s);
        if (ci->getBitWidth() <= 32) return J::Array{"i", (int64_t)ci->getZExtValue(), (int64_t)ci->getBitWidth()};
        return J::Array{"I", std::string(s.str()), (int64_t)ci->getBitWidth()};
    }
    if (isa<ConstantPointerNull>(c)) return J::Array{"n"};
    if (isa<PoisonValue>(c) || isa<UndefValue>(c)) return J::Array{"u"};
    if (auto *g = dyn_cast<GlobalValue>(c)) {
        if (auto *ga = dyn_cast<GlobalAlias>(g))
            if (auto *t = dyn_cast<GlobalValue>(ga->getAliasee()->stripPointerCasts())) return J::Array{"g", t->getName().str(), 0};
        return J::Array{"g", g->getName().str(), 0};
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { SmallString<40> s; cf->getValueAPF().toString(s); return J::Array{"f", std::string(s.str())}; }
    if (isa<ConstantAggregateZero>(c)) return J::Array{"z", (int64_t)DL->getTypeAllocSize(c->getType())};
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        APInt off(64, 0);
        const Value *b = c;
        if (c->getType()->isPointerTy()) {
            b = c->stripAndAccumulateConstantOffsets(*DL, off, true);
            if (b != c) {
                J::Value base = op(b);
                if (auto *a = base.getAsArray()) if ((*a)[0] == J::Value("g")) { (*a)[2] = (int64_t)((*a)[2].getAsInteger().value_or(0) + off.getSExtValue()); return base; }
                return J::Array{"ceo", std::move(base), (int64_t)off.getSExtValue()};
            }
        }
        J::Array ops; for (auto &o : ce->operands()) ops.push_back(op(o.get()));
        return J::Array{"ce", ce->getOpcodeName(), std::move(ops), tname(ce->getType())};
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        J::Array e; int64_t sz = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); i++) e.push_back(J::Array{(int64_t)(i * sz), sz, cst(cd->getElementAsConstant(i))});
        return J::Array{"agg", std::move(e)};
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        J::Array e; int64_t sz = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) e.push_back(J::Array{(int64_t)(i * sz), sz, cst(ca->getOperand(i))});
        return J::Array{"agg", std::move(e)};
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        J::Array e; auto *l = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++)
            e.push_back(J::Array{(int64_t)l->getElementOffset(i), (int64_t)DL->getTypeAllocSize(cs->getOperand(i)->getType()), cst(cs->getOperand(i))});
        return J::Array{"agg", std::move(e)};
    }
    return J::Array{"?", tname(c->getType())};
}
static J::Value op(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return cst(c);
    if (auto *bb = dyn_cast<BasicBlock>(v)) return J::Array{"b", ids[bb]};
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return J::Array{"m"};
    return J::Array{"r", ids[v]};
}
static int64_t sz(Type *t) { return t->isSized() ? (int64_t)DL->getTypeAllocSize(t) : 0; }
int main(int argc, char **argv) {
    if (argc < 2) return 2;
    LLVMContext ctx; SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print("irx", errs()); return 2; }
    DL = &m->getDataLayout();
    J::Object out; J::Object funcs; J::Object globals; J::Array ctors;
    for (auto &g : m->globals()) {
        J::Object o; o["size"] = sz(g.getValueType()); o["type"] = tname(g.getValueType()); o["const"] = g.isConstant();
        o["dem"] = demangle(g.getName().str());
        if (g.hasInitializer()) o["init"] = cst(g.getInitializer());
        globals[g.getName()] = std::move(o);
    }
    for (auto &f : *m) {
        J::Object o; o["dem"] = demangle(f.getName().str());
        J::Array as; ids.clear(); int n = 0;
        for (auto &a : f.args()) {
            ids[&a] = n;
            J::Object ao; ao["id"] = n++; ao["type"] = tname(a.getType()); ao["size"] = sz(a.getType());
            if (a.hasStructRetAttr()) ao["sret"] = true;
            if (a.hasByValAttr()) ao["byval"] = sz(a.getParamByValType());
            if (a.hasStructRetAttr()) ao["sretsize"] = sz(a.getParamStructRetType());
            ao["name"] = a.getName().str();
            as.push_back(std::move(ao));
        }
        o["args"] = std::move(as); o["ret"] = tname(f.getReturnType()); o["noreturn"] = f.doesNotReturn(); o["linkage"] = (int64_t)f.getLinkage();
        if (auto *sp = f.getSubprogram()) { o["file"] = (sp->getDirectory() + "/" + sp->getFilename()).str(); o["file0"]=sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); o["src"] = sp->getName().str(); if (auto *dc = sp->getDeclaration()) { o["art"] = (bool)(dc->getFlags() & DINode::FlagArtificial); } if (auto *cs = dyn_cast_or_null<DICompositeType>(sp->getScope())) o["cls"] = qual(cs); }
        if (!f.isDeclaration()) {
            int bn = 0; for (auto &b : f) ids[&b] = bn++;
            for (auto &b : f) for (auto &i : b) if (!i.getType()->isVoidTy()) ids[&i] = n++;
            J::Array blocks;
            for (auto &b : f) {
                J::Array ins;
                for (auto &i : b) {
                    if (isa<DbgInfoIntrinsic>(i)) continue;
                    J::Object io; io["op"] = i.getOpcodeName();
                    if (!i.getType()->isVoidTy()) { io["id"] = ids[&i]; io["type"] = tname(i.getType()); io["size"] = sz(i.getType()); if (i.getType()->isIntegerTy()) io["bits"] = (int64_t)i.getType()->getIntegerBitWidth(); }
                    if (auto &dl = i.getDebugLoc()) { io["line"] = (int64_t)dl.getLine(); if (auto *sc = dyn_cast_or_null<DIScope>(dl.getScope())) io["file"] = sc->getFilename().str(); }
                    if (auto *al = dyn_cast<AllocaInst>(&i)) { io["asize"] = sz(al->getAllocatedType()); io["atype"] = tname(al->getAllocatedType()); io["count"] = op(al->getArraySize()); io["name"] = al->getName().str(); }
                    else if (auto *ge = dyn_cast<GetElementPtrInst>(&i)) {
                        MapVector<Value*, APInt> vo; APInt co(64, 0);
                        if (ge->collectOffset(*DL, 64, vo, co)) {
                            io["base"] = op(ge->getPointerOperand()); io["off"] = (int64_t)co.getSExtValue();
                            J::Array va; for (auto &p : vo) va.push_back(J::Array{op(p.first), (int64_t)p.second.getSExtValue(), (int64_t)p.first->getType()->getIntegerBitWidth()});
                            io["var"] = std::move(va);
                        } else io["op"] = "gep?";
                        io["gt"] = tname(ge->getSourceElementType());
                    } else if (auto *ph = dyn_cast<PHINode>(&i)) {
                        J::Array in; for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) in.push_back(J::Array{op(ph->getIncomingValue(k)), ids[ph->getIncomingBlock(k)]});
                        io["in"] = std::move(in);
                    } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
                        J::Array cs; for (auto &c : sw->cases()) cs.push_back(J::Array{(int64_t)c.getCaseValue()->getZExtValue(), ids[c.getCaseSuccessor()]});
                        io["v"] = op(sw->getCondition()); io["cases"] = std::move(cs); io["def"] = ids[sw->getDefaultDest()]; io["cbits"]=(int64_t)sw->getCondition()->getType()->getIntegerBitWidth();
                    } else if (auto *cb = dyn_cast<CallBase>(&i)) {
                        J::Array ar, at; unsigned k = 0;
                        for (auto &a : cb->args()) { ar.push_back(op(a.get())); at.push_back(J::Array{tname(a->getType()), sz(a->getType()), a->getType()->isIntegerTy()? (int64_t)a->getType()->getIntegerBitWidth():0, cb->isByValArgument(k)?(int64_t)sz(cb->getParamByValType(k)):0}); k++; }
                        io["args"] = std::move(ar); io["at"] = std::move(at); io["callee"] = op(cb->getCalledOperand()); io["asm"] = cb->isInlineAsm();
                        if (auto *inv = dyn_cast<InvokeInst>(&i)) { io["normal"] = ids[inv->getNormalDest()]; io["unwind"] = ids[inv->getUnwindDest()]; }
                    } else {
                        J::Array os; for (auto &u : i.operands()) os.push_back(op(u.get()));
                        io["ops"] = std::move(os);
                        if (auto *ci = dyn_cast<CmpInst>(&i)) { io["pred"] = CmpInst::getPredicateName(ci->getPredicate()).str(); Type *t = ci->getOperand(0)->getType(); io["cbits"] = t->isIntegerTy() ? (int64_t)t->getIntegerBitWidth() : 64; }
                        if (auto *st = dyn_cast<StoreInst>(&i)) { io["ssize"] = sz(st->getValueOperand()->getType()); io["vt"] = tname(st->getValueOperand()->getType()); if (st->isVolatile()) io["vol"] = true; if (st->isAtomic()) io["ord"] = toIRString(st->getOrdering()); }
                        if (auto *ld = dyn_cast<LoadInst>(&i)) { if (ld->isVolatile()) io["vol"] = true; if (ld->isAtomic()) io["ord"] = toIRString(ld->getOrdering()); }
                        if (auto *cx = dyn_cast<CastInst>(&i)) { Type *t = cx->getSrcTy(); io["sbits"] = t->isIntegerTy() ? (int64_t)t->getIntegerBitWidth() : 64; }
                        if (auto *ev = dyn_cast<ExtractValueInst>(&i)) { J::Array x; for (auto k : ev->indices()) x.push_back((int64_t)k); io["idx"] = std::move(x);
                            Type *t = ev->getAggregateOperand()->getType(); int64_t off = 0; for (auto k : ev->indices()) { if (auto *s = dyn_cast<StructType>(t)) { off += DL->getStructLayout(s)->getElementOffset(k); t = s->getElementType(k);} else { auto *a = cast<ArrayType>(t); off += k * sz(a->getElementType()); t = a->getElementType(); } } io["xoff"] = off; }
                        if (auto *iv = dyn_cast<InsertValueInst>(&i)) {
                            Type *t = iv->getAggregateOperand()->getType(); int64_t off = 0; for (auto k : iv->indices()) { if (auto *s = dyn_cast<StructType>(t)) { off += DL->getStructLayout(s)->getElementOffset(k); t = s->getElementType(k);} else { auto *a = cast<ArrayType>(t); off += k * sz(a->getElementType()); t = a->getElementType(); } } io["xoff"] = off; io["xsize"] = sz(iv->getInsertedValueOperand()->getType()); }
                        if (auto *lp = dyn_cast<LandingPadInst>(&i)) { J::Array cl; for (unsigned k = 0; k < lp->getNumClauses(); k++) cl.push_back(J::Array{lp->isCatch(k), op(lp->getClause(k))}); io["clauses"] = std::move(cl); io["cleanup"] = lp->isCleanup(); }
                        if (auto *rm = dyn_cast<AtomicRMWInst>(&i)) { io["rmw"] = AtomicRMWInst::getOperationName(rm->getOperation()).str(); io["ord"] = toIRString(rm->getOrdering()); }
                        if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&i)) { io["ord"] = toIRString(cx->getSuccessOrdering()); io["csize"] = sz(cx->getCompareOperand()->getType()); }
                    }
                    ins.push_back(std::move(io));
                }
                blocks.push_back(std::move(ins));
            }
            o["blocks"] = std::move(blocks); o["nreg"] = n;
        }
        funcs[f.getName()] = std::move(o);
    }
    J::Object structs;
    for (auto *st : m->getIdentifiedStructTypes()) if (!st->isOpaque()) {
        auto *l = DL->getStructLayout(st); J::Array fo; for (unsigned i = 0; i < st->getNumElements(); i++) fo.push_back(J::Array{(int64_t)l->getElementOffset(i), tname(st->getElementType(i)), sz(st->getElementType(i))});
        J::Object so; so["size"] = (int64_t)l->getSizeInBytes(); so["fields"] = std::move(fo); structs[st->getName()] = std::move(so);
    }
    // source-level types from debug info: members with names and offsets
    J::Object types; DebugInfoFinder fi; fi.processModule(*m);
    auto strip = [](const DIType *t) { while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) { auto g = d->getTag(); if (g == dwarf::DW_TAG_typedef || g == dwarf::DW_TAG_const_type || g == dwarf::DW_TAG_volatile_type || g == dwarf::DW_TAG_atomic_type) t = d->getBaseType(); else break; } return t; };
    auto tdesc = [&](const DIType *t) -> J::Value { t = strip(t); if (!t) return J::Array{"void", "void", 0};
        if (auto *b = dyn_cast<DIBasicType>(t)) return J::Array{"basic", b->getName().str(), (int64_t)(b->getSizeInBits() / 8)};
        if (auto *d = dyn_cast<DIDerivedType>(t)) return J::Array{(d->getTag() == dwarf::DW_TAG_reference_type || d->getTag() == dwarf::DW_TAG_rvalue_reference_type) ? "ref" : "ptr", d->getName().str(), (int64_t)(d->getSizeInBits() / 8)};
        if (auto *c = dyn_cast<DICompositeType>(t)) { std::string k = c->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : c->getTag() == dwarf::DW_TAG_array_type ? "array" : c->getTag() == dwarf::DW_TAG_union_type ? "union" : "class"; return J::Array{k, qual(c), (int64_t)(c->getSizeInBits() / 8)}; }
        return J::Array{"other", t->getName().str(), (int64_t)(t->getSizeInBits() / 8)}; };
    for (auto *t : fi.types()) {
        auto *c = dyn_cast<DICompositeType>(t); if (!c) continue;
        if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type) continue;
        if (c->isForwardDecl()) continue;
        J::Array ms, bs;
        for (auto *e : c->getElements()) { auto *d = dyn_cast<DIDerivedType>(e); if (!d) continue;
            if (d->getTag() == dwarf::DW_TAG_member && !(d->getFlags() & DINode::FlagStaticMember)) ms.push_back(J::Array{d->getName().str(), (int64_t)(d->getOffsetInBits() / 8), tdesc(d->getBaseType())});
            if (d->getTag() == dwarf::DW_TAG_inheritance) bs.push_back(J::Array{(int64_t)(d->getOffsetInBits() / 8), tdesc(d->getBaseType())}); }
        J::Object o; o["size"] = (int64_t)(c->getSizeInBits() / 8); o["members"] = std::move(ms); o["bases"] = std::move(bs); o["line"] = (int64_t)c->getLine(); o["file"] = c->getFilename().str();
        types[qual(c)] = std::move(o);
    }
    J::Object enums;
    for (auto *t : fi.types()) {
        auto *c = dyn_cast<DICompositeType>(t); if (!c || c->getTag() != dwarf::DW_TAG_enumeration_type) continue;
        J::Object o; for (auto *e : c->getElements()) if (auto *d = dyn_cast<DIEnumerator>(e)) o[d->getName()] = (int64_t)d->getValue().getSExtValue();
        enums[qual(c)] = std::move(o);
    }
    out["enums"] = std::move(enums);
    out["types"] = std::move(types);
    out["functions"] = std::move(funcs); out["globals"] = std::move(globals); out["structs"] = std::move(structs);
    outs() << J::Value(std::move(out)) << "\n";
    return 0;
}
