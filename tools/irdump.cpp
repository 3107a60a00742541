// irdump: link bitcode files, inline local helpers, promote allocas and dump
// a typed JSON view of the program for the Python analyses in /verif/sa.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/ADCE.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Transforms/Scalar/InstSimplifyPass.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/ADT/SCCIterator.h>
#include <llvm/ADT/DenseMap.h>
#include <fstream>
#include <set>
#include <map>
#include <string>
using namespace llvm;

static std::map<std::string, const DICompositeType *> Composites;
static std::map<const Value *, int> Ids;

static std::string baseName (const Function *F)
{
  if (auto *SP = F->getSubprogram ())
    return SP->getName ().str ();
  return F->getName ().str ();
}

static std::string structName (StructType *ST)
{
  if (!ST->hasName ()) return "";
  StringRef n = ST->getName ();
  if (n.consume_front ("struct.") || n.consume_front ("union.")) {}
  size_t p = n.rfind ('.');
  if (p != StringRef::npos && p + 1 < n.size () && n.substr (p + 1).find_first_not_of ("0123456789") == StringRef::npos && !n.starts_with ("anon"))
    n = n.substr (0, p);
  return n.str ();
}

static const DIType *strip (const DIType *T)
{
  while (T)
    {
      if (auto *D = dyn_cast<DIDerivedType> (T))
        {
          unsigned tag = D->getTag ();
          if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type ||
              tag == dwarf::DW_TAG_member || tag == dwarf::DW_TAG_restrict_type || tag == dwarf::DW_TAG_atomic_type)
            { T = D->getBaseType (); continue; }
        }
      break;
    }
  return T;
}

static std::string typeStr (const DIType *T)
{
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType> (T))
    {
      switch (D->getTag ())
        {
        case dwarf::DW_TAG_pointer_type: return typeStr (D->getBaseType ()) + "*";
        case dwarf::DW_TAG_const_type:
        case dwarf::DW_TAG_volatile_type:
        case dwarf::DW_TAG_restrict_type:
        case dwarf::DW_TAG_atomic_type:
        case dwarf::DW_TAG_member: return typeStr (D->getBaseType ());
        case dwarf::DW_TAG_typedef: return D->getName ().str ();
        default: return D->getName ().str ();
        }
    }
  if (auto *C = dyn_cast<DICompositeType> (T))
    {
      if (C->getTag () == dwarf::DW_TAG_array_type) return typeStr (C->getBaseType ()) + "[]";
      return C->getName ().str ();
    }
  if (isa<DISubroutineType> (T)) return "fn";
  return T->getName ().str ();
}

static json::Value tyJson (Type *T)
{
  if (T->isPointerTy ()) return "ptr";
  if (T->isVoidTy ()) return "void";
  std::string s; raw_string_ostream os (s); T->print (os, false, true);
  return os.str ();
}

// name of the member at byte offset `off` of composite C
static std::string memberAt (const DICompositeType *C, uint64_t off)
{
  if (!C) return "";
  std::string bits;
  for (auto *E : C->getElements ())
    if (auto *M = dyn_cast<DIDerivedType> (E))
      {
        if (M->getTag () != dwarf::DW_TAG_member) continue;
        if (M->isBitField ())
          {
            if (M->getOffsetInBits () / 8 >= off && bits.empty ())
              { bits = "bits@" + std::to_string (off); }
            continue;
          }
        if (M->getOffsetInBits () == off * 8)
          return M->getName ().empty () ? ("anon@" + std::to_string (off)) : M->getName ().str ();
      }
  return bits;
}

static const DICompositeType *compositeFor (StructType *ST)
{
  auto it = Composites.find (structName (ST));
  return it == Composites.end () ? nullptr : it->second;
}

static const DataLayout *DL;
static json::Value opnd (const Value *V);

static const DICompositeType *compositeFor (const std::string &n)
{
  auto it = Composites.find (n);
  return it == Composites.end () ? nullptr : it->second;
}

// the linker merges structures of equal layout; the names seen before linking
// travel as metadata
static std::vector<std::string> gepNames (Type *cur, ArrayRef<Value *> idx)
{
  std::vector<std::string> out;
  for (unsigned n = 1; n < idx.size (); n++)
    {
      if (auto *ST = dyn_cast<StructType> (cur))
        { out.push_back (structName (ST)); cur = ST->getElementType (cast<ConstantInt> (idx[n])->getZExtValue ()); }
      else if (auto *AT = dyn_cast<ArrayType> (cur)) cur = AT->getElementType ();
      else break;
    }
  return out;
}

static void nameGeps (Module &M)
{
  auto &C = M.getContext ();
  for (auto &F : M) for (auto &BB : F) for (auto &I : BB)
    if (auto *G = dyn_cast<GetElementPtrInst> (&I))
      {
        std::vector<Value *> ix (G->idx_begin (), G->idx_end ());
        std::vector<Metadata *> md;
        for (auto &s : gepNames (G->getSourceElementType (), ix)) md.push_back (MDString::get (C, s));
        if (!md.empty ()) G->setMetadata ("dexfld", MDNode::get (C, md));
      }
}

static json::Array gepFields (const GEPOperator *G)
{
  json::Array out;
  Type *cur = G->getSourceElementType ();
  unsigned n = 0;
  const MDNode *MD = nullptr; unsigned mk = 0;
  if (auto *GI = dyn_cast<GetElementPtrInst> (G)) MD = GI->getMetadata ("dexfld");
  for (auto I = G->idx_begin (), E = G->idx_end (); I != E; ++I, ++n)
    {
      const Value *ix = I->get ();
      if (n == 0)
        {
          auto *c = dyn_cast<ConstantInt> (ix);
          if (c && c->isZero ()) continue;
          out.push_back (json::Array{"[]", opnd (ix), tyJson (cur)});
          continue;
        }
      if (auto *ST = dyn_cast<StructType> (cur))
        {
          unsigned k = cast<ConstantInt> (ix)->getZExtValue ();
          uint64_t off = DL->getStructLayout (ST)->getElementOffset (k);
          std::string sn = structName (ST);
          if (MD && mk < MD->getNumOperands ()) sn = cast<MDString> (MD->getOperand (mk++))->getString ().str ();
          std::string nm = memberAt (compositeFor (sn), off);
          if (nm.empty ()) nm = "f" + std::to_string (k);
          out.push_back (json::Array{sn, nm, (int64_t) off});
          cur = ST->getElementType (k);
        }
      else if (auto *AT = dyn_cast<ArrayType> (cur))
        {
          auto *c = dyn_cast<ConstantInt> (ix);
          (void) c;
          out.push_back (json::Array{"[]", opnd (ix), tyJson (AT->getElementType ())});
          cur = AT->getElementType ();
        }
      else break;
    }
  return out;
}

// zero-offset struct GEPs: LLVM folds them away while inlining, which would lose
// the name of the first member.  They travel as calls to opaque markers.
struct Gep0 { Type *ty; unsigned nidx; std::vector<std::string> names; };
static std::vector<Gep0> Gep0s;

static int gep0Index (const Value *V)
{
  if (auto *C = dyn_cast<CallInst> (V))
    if (auto *F = C->getCalledFunction ())
      if (F->getName ().starts_with ("__gep0_"))
        return std::stoi (F->getName ().substr (7).str ());
  return -1;
}

static void markGep0 (Module &M)
{
  auto &C = M.getContext ();
  auto *PT = PointerType::getUnqual (C);
  std::map<std::pair<Type *, unsigned>, Function *> Gep0Fns;
  std::vector<GetElementPtrInst *> todo;
  for (auto &F : M) for (auto &BB : F) for (auto &I : BB)
    if (auto *G = dyn_cast<GetElementPtrInst> (&I))
      if (G->hasAllZeroIndices () && G->getNumIndices () >= 2 && isa<StructType> (G->getSourceElementType ()))
        todo.push_back (G);
  for (auto *G : todo)
    {
      auto key = std::make_pair (G->getSourceElementType (), G->getNumIndices ());
      auto &fn = Gep0Fns[key];
      if (!fn)
        {
          fn = Function::Create (FunctionType::get (PT, {PT}, false), GlobalValue::ExternalLinkage, "__gep0_" + std::to_string (Gep0s.size ()), &M);
          fn->setDoesNotAccessMemory (); fn->setDoesNotThrow (); fn->addFnAttr (Attribute::WillReturn); fn->addFnAttr (Attribute::NoFree); fn->addFnAttr (Attribute::NoSync);
          std::vector<Value *> ix (G->idx_begin (), G->idx_end ());
          Gep0s.push_back ({key.first, key.second, gepNames (key.first, ix)});
        }
      auto *C2 = CallInst::Create (fn, {G->getPointerOperand ()}, "", G);
      C2->setDebugLoc (G->getDebugLoc ());
      G->replaceAllUsesWith (C2);
      G->eraseFromParent ();
    }
}

static bool rootIsAlloca (Value *V)
{
  for (int n = 0; n < 64; n++)
    {
      if (isa<AllocaInst> (V)) return true;
      if (auto *G = dyn_cast<GEPOperator> (V)) { V = G->getPointerOperand (); continue; }
      if (gep0Index (V) >= 0) { V = cast<CallInst> (V)->getArgOperand (0); continue; }
      return false;
    }
  return false;
}

// restore markers on locals so that they can be promoted
static void lowerGep0 (Module &M)
{
  auto &C = M.getContext ();
  std::vector<CallInst *> todo;
  for (auto &F : M) for (auto &BB : F) for (auto &I : BB)
    if (gep0Index (&I) >= 0 && rootIsAlloca (&I)) todo.push_back (cast<CallInst> (&I));
  for (auto *K : todo)
    {
      auto &g = Gep0s[gep0Index (K)];
      std::vector<Value *> ix (g.nidx, ConstantInt::get (Type::getInt32Ty (C), 0));
      auto *G = GetElementPtrInst::Create (g.ty, K->getArgOperand (0), ix, "", K);
      G->setDebugLoc (K->getDebugLoc ());
      K->replaceAllUsesWith (G);
      K->eraseFromParent ();
    }
}

static json::Array gep0Fields (int n)
{
  json::Array out;
  Type *cur = Gep0s[n].ty;
  unsigned mk = 0;
  for (unsigned k = 1; k < Gep0s[n].nidx; k++)
    {
      if (auto *ST = dyn_cast<StructType> (cur))
        {
          std::string sn = mk < Gep0s[n].names.size () ? Gep0s[n].names[mk++] : structName (ST);
          std::string nm = memberAt (compositeFor (sn), 0);
          if (nm.empty ()) nm = "f0";
          out.push_back (json::Array{sn, nm, (int64_t) 0});
          cur = ST->getElementType (0);
        }
      else if (auto *AT = dyn_cast<ArrayType> (cur))
        {
          out.push_back (json::Array{"[]", json::Array{"c", 0, 32}, tyJson (AT->getElementType ())});
          cur = AT->getElementType ();
        }
    }
  return out;
}

static json::Value opnd (const Value *V)
{
  if (auto *A = dyn_cast<Argument> (V)) return json::Array{"a", (int64_t) A->getArgNo ()};
  if (isa<Instruction> (V)) return json::Array{"i", Ids[V]};
  if (auto *C = dyn_cast<ConstantInt> (V))
    {
      if (C->getBitWidth () <= 64) return json::Array{"c", C->getSExtValue (), (int64_t) C->getBitWidth ()};
      return json::Array{"x", "bigint"};
    }
  if (auto *C = dyn_cast<ConstantFP> (V))
    { SmallString<32> s; C->getValueAPF ().toString (s); return json::Array{"fp", std::string (s.str ())}; }
  if (isa<ConstantPointerNull> (V)) return json::Array{"n"};
  if (isa<UndefValue> (V)) return json::Array{"u"};
  if (auto *F = dyn_cast<Function> (V)) return json::Array{"g", F->getName ().str ()};
  if (auto *G = dyn_cast<GlobalVariable> (V))
    {
      if (G->hasInitializer ())
        if (auto *D = dyn_cast<ConstantDataArray> (G->getInitializer ()))
          if (D->isCString () && G->isConstant ())
            {
              std::string s = D->getAsCString ().str ();
              if (json::isUTF8 (s)) return json::Array{"s", s};
            }
      return json::Array{"g", G->getName ().str ()};
    }
  if (auto *A = dyn_cast<GlobalAlias> (V)) return json::Array{"g", A->getName ().str ()};
  if (auto *G = dyn_cast<GEPOperator> (V))
    if (isa<ConstantExpr> (V))
      return json::Array{"gep", opnd (G->getPointerOperand ()), gepFields (G)};
  if (auto *CE = dyn_cast<ConstantExpr> (V))
    {
      json::Array ops;
      for (auto &o : CE->operands ()) ops.push_back (opnd (o.get ()));
      return json::Array{"ce", CE->getOpcodeName (), std::move (ops)};
    }
  if (auto *CA = dyn_cast<ConstantAggregate> (V))
    {
      json::Array ops;
      for (auto &o : CA->operands ()) ops.push_back (opnd (o.get ()));
      return json::Array{"agg", std::move (ops)};
    }
  if (isa<ConstantAggregateZero> (V)) return json::Array{"zero"};
  if (isa<MetadataAsValue> (V)) return json::Array{"md"};
  if (isa<BasicBlock> (V)) return json::Array{"bb", Ids[V]};
  if (isa<InlineAsm> (V)) return json::Array{"asm", cast<InlineAsm> (V)->getAsmString ()};
  return json::Array{"x", "other"};
}

static std::string relFile (StringRef f)
{
  size_t p = f.rfind ("/src/");
  if (p != StringRef::npos) return f.substr (p + 1).str ();
  return f.str ();
}

static json::Value locJson (const Instruction &I)
{
  const DILocation *L = I.getDebugLoc ().get ();
  if (!L) return nullptr;
  json::Array chain;
  const DILocation *cur = L;
  while (cur)
    {
      auto *SP = cur->getScope ()->getSubprogram ();
      chain.push_back (json::Array{relFile (cur->getFilename ()), (int64_t) cur->getLine (), SP ? SP->getName ().str () : ""});
      cur = cur->getInlinedAt ();
    }
  return chain;
}

static json::Value constInit (const Constant *C, int depth = 0)
{
  if (depth > 4) return nullptr;
  if (auto *CS = dyn_cast<ConstantStruct> (C))
    {
      json::Array a;
      for (auto &o : CS->operands ()) a.push_back (constInit (cast<Constant> (o.get ()), depth + 1));
      return json::Object{{"st", structName (CS->getType ())}, {"v", std::move (a)}};
    }
  if (auto *CS = dyn_cast<ConstantArray> (C))
    {
      json::Array a;
      for (auto &o : CS->operands ()) a.push_back (constInit (cast<Constant> (o.get ()), depth + 1));
      return json::Object{{"arr", std::move (a)}};
    }
  if (auto *CD = dyn_cast<ConstantDataArray> (C))
    {
      json::Array a;
      for (unsigned k = 0; k < CD->getNumElements () && k < 256 && !CD->isString (); k++) a.push_back (opnd (CD->getElementAsConstant (k)));
      if (!CD->isString ()) return json::Object{{"arr", std::move (a)}};
    }
  return opnd (C);
}

int main (int argc, char **argv)
{
  // irdump OUT.json KEEP.txt a.bc b.bc ...   KEEP: extern functions never inlined
  LLVMContext Ctx;
  SMDiagnostic Err;
  std::unique_ptr<Module> M;
  std::set<std::string> keep;
  {
    std::ifstream f (argv[2]);
    std::string l;
    while (std::getline (f, l)) if (!l.empty () && l[0] != '#') keep.insert (l);
  }
  for (int i = 3; i < argc; i++)
    {
      auto m = parseIRFile (argv[i], Err, Ctx);
      if (m) { nameGeps (*m); markGep0 (*m); }
      if (!m) { Err.print ("irdump", errs ()); return 2; }
      if (!M) M = std::move (m);
      else if (Linker::linkModules (*M, std::move (m))) { errs () << "link failed " << argv[i] << "\n"; return 2; }
    }
  DL = &M->getDataLayout ();

  // make what a local holds before its first assignment visible: promotion
  // would otherwise replace it with whatever suits
  if (getenv ("IRDUMP_UNINIT"))
    for (auto &F : *M)
      {
        if (F.isDeclaration ()) continue;
        std::vector<AllocaInst *> as;
        for (auto &I : F.getEntryBlock ()) if (auto *A = dyn_cast<AllocaInst> (&I))
          if (A->getAllocatedType ()->isSingleValueType () && !A->isArrayAllocation ()) as.push_back (A);
        Instruction *at = &*F.getEntryBlock ().getFirstNonPHIOrDbgOrAlloca ();
        for (auto *A : as)
          {
            Type *T = A->getAllocatedType (); std::string n = "__uninit."; raw_string_ostream os (n); T->print (os); os.flush ();
            auto fc = M->getOrInsertFunction (n, FunctionType::get (T, false));
            auto *c = CallInst::Create (fc, "", at);
            c->setDoesNotAccessMemory (); c->setDoesNotThrow ();
            new StoreInst (c, A, at);
          }
      }

  // record callgraph facts before inlining
  json::Object pre;
  std::map<Function *, std::set<Function *>> callees;
  std::set<Function *> addrTaken;
  for (auto &F : *M)
    {
      if (F.isDeclaration ()) continue;
      std::set<Function *> cs;
      for (auto &BB : F) for (auto &I : BB)
        {
          if (auto *C = dyn_cast<CallBase> (&I))
            if (auto *cf = dyn_cast<Function> (C->getCalledOperand ()->stripPointerCasts ()))
              cs.insert (cf);
        }
      callees[&F] = cs;
    }
  for (auto &F : *M)
    if (F.hasAddressTaken ()) addrTaken.insert (&F);
  // recursive functions may not be inlined
  std::set<Function *> recursive;
  for (auto &kv : callees)
    {
      std::set<Function *> seen; std::vector<Function *> st (kv.second.begin (), kv.second.end ());
      while (!st.empty ())
        {
          auto *f = st.back (); st.pop_back ();
          if (!seen.insert (f).second) continue;
          if (f == kv.first) { recursive.insert (f); break; }
          auto it = callees.find (f);
          if (it != callees.end ()) for (auto *g : it->second) st.push_back (g);
        }
    }
  json::Array inlined;
  // getcontext() "returns twice", which only keeps its callers from being inlined
  for (auto &F : *M)
    {
      F.removeFnAttr (Attribute::ReturnsTwice);
      for (auto &BB : F)
        for (auto &I : BB)
          if (auto *CB = dyn_cast<CallBase> (&I))
            CB->removeFnAttr (Attribute::ReturnsTwice);
    }
  for (auto &F : *M)
    {
      if (F.isDeclaration ()) continue;
      F.removeFnAttr (Attribute::OptimizeNone);
      F.removeFnAttr (Attribute::NoInline);
      F.removeFnAttr (Attribute::StackProtectStrong);
      std::string bn = baseName (&F);
      bool cand = !recursive.count (&F) && !F.isVarArg () && !keep.count (bn);
      // static functions are always helpers; new extern functions (not in KEEP) too
      if (cand)
        {
          F.addFnAttr (Attribute::AlwaysInline);
          inlined.push_back (bn);
        }
      else
        F.removeFnAttr (Attribute::AlwaysInline);
    }
  // The always-inliner deletes local functions once inlined; keep them all by
  // remembering them via llvm.used-like references: turn locals into external
  // linkage under a unique name instead.
  std::map<std::string, bool> wasLocal;
  std::map<std::string, std::string> nice;
  for (auto &F : *M)
    if (!F.isDeclaration ())
      {
        wasLocal[F.getName ().str ()] = F.hasLocalLinkage ();
        if (F.hasLocalLinkage () || F.hasAvailableExternallyLinkage () || F.hasLinkOnceLinkage ())
          F.setLinkage (GlobalValue::ExternalLinkage);
      }

  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses (MAM); PB.registerCGSCCAnalyses (CGAM); PB.registerFunctionAnalyses (FAM); PB.registerLoopAnalyses (LAM);
  PB.crossRegisterProxies (LAM, FAM, CGAM, MAM);
  {
    ModulePassManager MPM;
    MPM.addPass (AlwaysInlinerPass (false));
    FunctionPassManager FPM;
    FPM.addPass (SROAPass (SROAOptions::PreserveCFG));
    MPM.addPass (createModuleToFunctionPassAdaptor (std::move (FPM)));
    MPM.run (*M, MAM);
  }
  lowerGep0 (*M);
  MAM.clear (); FAM.clear (); CGAM.clear (); LAM.clear ();
  {
    ModulePassManager MPM;
    FunctionPassManager FPM;
    FPM.addPass (SROAPass (SROAOptions::PreserveCFG));
    FPM.addPass (ADCEPass ());
    MPM.addPass (createModuleToFunctionPassAdaptor (std::move (FPM)));
    MPM.run (*M, MAM);
  }

  DebugInfoFinder DIF;
  DIF.processModule (*M);
  json::Object enums, structs;
  for (auto *T : DIF.types ())
    {
      const DIType *U = T;
      std::string tname;
      if (auto *D = dyn_cast<DIDerivedType> (T))
        {
          if (D->getTag () != dwarf::DW_TAG_typedef) continue;
          tname = D->getName ().str ();
          U = strip (D);
          if (!U) continue;
        }
      auto *C = dyn_cast<DICompositeType> (U);
      if (!C) continue;
      std::string cn = C->getName ().str ();
      if (C->getTag () == dwarf::DW_TAG_enumeration_type)
        {
          json::Object o;
          for (auto *E : C->getElements ())
            if (auto *En = dyn_cast<DIEnumerator> (E))
              o[En->getName ()] = (int64_t) En->getValue ().getSExtValue ();
          std::string n = !tname.empty () ? tname : cn;
          if (!n.empty () && !enums.get (n)) enums[n] = std::move (o);
        }
      else if (C->getTag () == dwarf::DW_TAG_structure_type || C->getTag () == dwarf::DW_TAG_union_type)
        {
          if (C->isForwardDecl ()) continue;
          std::string n = cn.empty () ? tname : cn;
          if (n.empty ()) continue;
          if (!Composites.count (n)) Composites[n] = C;
          if (!structs.get (n))
            {
              json::Array fs;
              for (auto *E : C->getElements ())
                if (auto *Mb = dyn_cast<DIDerivedType> (E))
                  if (Mb->getTag () == dwarf::DW_TAG_member)
                    fs.push_back (json::Object{{"n", Mb->getName ().str ()}, {"off", (int64_t) Mb->getOffsetInBits ()},
                                               {"size", (int64_t) Mb->getSizeInBits ()}, {"bf", Mb->isBitField ()},
                                               {"t", typeStr (Mb->getBaseType ())}});
              structs[n] = json::Object{{"size", (int64_t) C->getSizeInBits ()}, {"f", std::move (fs)},
                                        {"file", relFile (C->getFilename ())}, {"line", (int64_t) C->getLine ()}};
            }
        }
    }

  json::Object funcs;
  for (auto &F : *M)
    {
      json::Object fo;
      fo["name"] = F.getName ().str ();
      fo["base"] = baseName (&F);
      fo["decl"] = F.isDeclaration ();
      fo["addr"] = addrTaken.count (&F) > 0;
      if (F.isDeclaration ())
        {
          if (F.isIntrinsic ()) continue;
          funcs[F.getName ()] = std::move (fo);
          continue;
        }
      fo["local"] = wasLocal[F.getName ().str ()];
      fo["vis"] = F.hasHiddenVisibility () ? "hidden" : "default";
      json::Array pc;
      for (auto *c : callees[&F]) if (!c->isIntrinsic ()) pc.push_back (c->getName ().str ());
      fo["callees0"] = std::move (pc);
      if (auto *SP = F.getSubprogram ())
        {
          fo["file"] = relFile (SP->getFilename ());
          fo["line"] = (int64_t) SP->getLine ();
          json::Array pt;
          if (auto *ST = SP->getType ())
            for (auto *t : ST->getTypeArray ()) pt.push_back (typeStr (t));
          fo["ptypes"] = std::move (pt);
          json::Array pn;
          std::map<int, std::string> names;
          for (auto *N : SP->getRetainedNodes ())
            if (auto *LV = dyn_cast<DILocalVariable> (N))
              if (LV->getArg ()) names[LV->getArg ()] = LV->getName ().str ();
          for (unsigned k = 1; k <= F.arg_size (); k++) pn.push_back (names.count (k) ? names[k] : F.getArg (k - 1)->getName ().str ());
          fo["pnames"] = std::move (pn);
        }
      fo["vararg"] = F.isVarArg ();
      json::Array at;
      for (auto &A : F.args ()) at.push_back (tyJson (A.getType ()));
      fo["args"] = std::move (at);
      fo["ret"] = tyJson (F.getReturnType ());
      Ids.clear ();
      int bi = 0, ii = 0;
      for (auto &BB : F) { Ids[&BB] = bi++; for (auto &I : BB) Ids[&I] = ii++; }
      json::Array blocks;
      for (auto &BB : F)
        {
          json::Array insts;
          for (auto &I : BB)
            {
              if (isa<DbgInfoIntrinsic> (I)) continue;
              if (auto *II = dyn_cast<IntrinsicInst> (&I))
                if (II->isLifetimeStartOrEnd ()) continue;
              json::Object o;
              o["i"] = Ids[&I];
              o["op"] = I.getOpcodeName ();
              o["t"] = tyJson (I.getType ());
              auto L = locJson (I);
              if (L.kind () != json::Value::Null) o["l"] = std::move (L);
              if (int g0 = gep0Index (&I); g0 >= 0)
                {
                  o["op"] = "getelementptr";
                  o["a"] = json::Array{opnd (cast<CallInst> (&I)->getArgOperand (0))};
                  o["gf"] = gep0Fields (g0);
                  o["st"] = tyJson (Gep0s[g0].ty);
                }
              else if (auto *C = dyn_cast<CallBase> (&I))
                {
                  json::Array as;
                  for (auto &a : C->args ()) as.push_back (opnd (a.get ()));
                  o["a"] = std::move (as);
                  o["f"] = opnd (C->getCalledOperand ()->stripPointerCasts ());
                }
              else if (auto *G = dyn_cast<GetElementPtrInst> (&I))
                {
                  o["a"] = json::Array{opnd (G->getPointerOperand ())};
                  o["gf"] = gepFields (cast<GEPOperator> (G));
                  o["st"] = tyJson (G->getSourceElementType ());
                }
              else if (auto *P = dyn_cast<PHINode> (&I))
                {
                  json::Array as;
                  for (unsigned k = 0; k < P->getNumIncomingValues (); k++)
                    as.push_back (json::Array{Ids[P->getIncomingBlock (k)], opnd (P->getIncomingValue (k))});
                  o["phi"] = std::move (as);
                }
              else if (auto *B = dyn_cast<BranchInst> (&I))
                {
                  json::Array ss;
                  if (B->isConditional ()) o["a"] = json::Array{opnd (B->getCondition ())};
                  for (unsigned k = 0; k < B->getNumSuccessors (); k++) ss.push_back (Ids[B->getSuccessor (k)]);
                  o["succ"] = std::move (ss);
                }
              else if (auto *S = dyn_cast<SwitchInst> (&I))
                {
                  o["a"] = json::Array{opnd (S->getCondition ())};
                  json::Array cs;
                  for (auto &c : S->cases ()) cs.push_back (json::Array{c.getCaseValue ()->getSExtValue (), Ids[c.getCaseSuccessor ()]});
                  o["cases"] = std::move (cs);
                  o["def"] = Ids[S->getDefaultDest ()];
                }
              else
                {
                  json::Array as;
                  for (auto &a : I.operands ()) as.push_back (opnd (a.get ()));
                  o["a"] = std::move (as);
                }
              if (auto *C = dyn_cast<CmpInst> (&I)) o["p"] = CmpInst::getPredicateName (C->getPredicate ()).str ();
              if (auto *A = dyn_cast<AllocaInst> (&I)) { o["at"] = tyJson (A->getAllocatedType ()); if (auto *ST = dyn_cast<StructType> (A->getAllocatedType ())) o["st"] = structName (ST); }
              if (auto *Ld = dyn_cast<LoadInst> (&I)) { if (Ld->isAtomic ()) o["ord"] = toIRString (Ld->getOrdering ()); if (Ld->isVolatile ()) o["vol"] = true; }
              if (auto *S = dyn_cast<StoreInst> (&I)) { if (S->isAtomic ()) o["ord"] = toIRString (S->getOrdering ()); if (S->isVolatile ()) o["vol"] = true; }
              if (auto *R = dyn_cast<AtomicRMWInst> (&I)) { o["rmw"] = AtomicRMWInst::getOperationName (R->getOperation ()).str (); o["ord"] = toIRString (R->getOrdering ()); }
              if (auto *X = dyn_cast<AtomicCmpXchgInst> (&I)) { o["ord"] = toIRString (X->getSuccessOrdering ()); o["ordf"] = toIRString (X->getFailureOrdering ()); }
              if (auto *Fc = dyn_cast<FenceInst> (&I)) o["ord"] = toIRString (Fc->getOrdering ());
              if (auto *E = dyn_cast<ExtractValueInst> (&I)) { json::Array ix; for (auto k : E->indices ()) ix.push_back ((int64_t) k); o["ix"] = std::move (ix); }
              if (auto *E = dyn_cast<InsertValueInst> (&I)) { json::Array ix; for (auto k : E->indices ()) ix.push_back ((int64_t) k); o["ix"] = std::move (ix); }
              insts.push_back (std::move (o));
            }
          blocks.push_back (std::move (insts));
        }
      fo["blocks"] = std::move (blocks);
      funcs[F.getName ()] = std::move (fo);
    }
  json::Object globals;
  for (auto &G : M->globals ())
    {
      json::Object o;
      o["const"] = G.isConstant ();
      o["tls"] = G.isThreadLocal ();
      o["t"] = tyJson (G.getValueType ());
      if (G.hasInitializer ()) o["init"] = constInit (G.getInitializer ());
      SmallVector<DIGlobalVariableExpression *, 1> gv;
      G.getDebugInfo (gv);
      if (!gv.empty ())
        {
          o["file"] = relFile (gv[0]->getVariable ()->getFilename ());
          o["line"] = (int64_t) gv[0]->getVariable ()->getLine ();
          o["dt"] = typeStr (gv[0]->getVariable ()->getType ());
          o["dn"] = gv[0]->getVariable ()->getName ().str ();
        }
      globals[G.getName ()] = std::move (o);
    }
  std::error_code EC;
  raw_fd_ostream os (argv[1], EC);
  os << json::Value (json::Object{{"funcs", std::move (funcs)}, {"globals", std::move (globals)}, {"enums", std::move (enums)}, {"structs", std::move (structs)}, {"inlined", std::move (inlined)}});
  return 0;
}
