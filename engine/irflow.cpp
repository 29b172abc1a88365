// irflow: interprocedural, path-sensitive typestate / effect analysis over LLVM IR.
//
// Abstract domain (finite powerset of abstract states, explored with a work list):
//   * memory: byte-accurate regions whose cells hold abstract values,
//   * values: constants, addresses (region + offset), affine forms over a base symbol with an
//     interval set (sym + c mod 2^w), uninterpreted terms, undefined,
//   * typestate: which storage currently holds a live object of which class,
//   * effects: the ordered list of operations of opaque (declared, never defined) functions.
// Functions with a body are followed interprocedurally; functions without body are user code and
// are modelled by their role (copy/move constructor, assignment, destructor, level accessor,
// callback ...), each of which may also throw unless declared nounwind.
// No code is executed and no solver is involved.
#include "llvm/ADT/APInt.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DerivedTypes.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
using namespace llvm;
typedef unsigned __int128 u128;
using std::string; using std::vector; using std::map; using std::pair;

[[noreturn]] static void die(const string& m) { errs() << "irflow: ANALYSIS-BROKEN: " << m << "\n"; errs().flush(); _exit(3); }

// ---------------------------------------------------------------- values
enum VK : uint8_t { VUndef, VInt, VPtr, VSym, VAgg, VBytes };
struct Val {
  VK k = VUndef; unsigned w = 0;
  APInt i{1, 0};
  int reg = -1; int64_t off = 0;     // VPtr
  int sym = -1; uint64_t add = 0;    // VSym, or index term of a VPtr
  vector<int> el;
  vector<pair<int, uint16_t>> by;    // VBytes: the bytes of a block of mixed contents (-1: never written)
};
static std::deque<Val> pool;
static int mk(Val v) { pool.push_back(std::move(v)); return (int)pool.size() - 1; }
static int mkUndef(unsigned w) { Val v; v.w = w; return mk(v); }
static int mkInt(const APInt& a) { Val v; v.k = VInt; v.w = a.getBitWidth(); v.i = a; return mk(v); }
static int mkInt(unsigned w, uint64_t x) { return mkInt(APInt(w, x)); }
static int mkPtr(int r, int64_t o) { Val v; v.k = VPtr; v.w = 64; v.reg = r; v.off = o; return mk(v); }
typedef vector<pair<uint64_t, uint64_t>> Ranges; // sorted, closed, disjoint
struct GepTerm { int idx; uint64_t scale; int prev; };
static map<int, GepTerm> geps; // index terms of pointers, by symbol
struct SymInfo { string name; unsigned w; Ranges r; int level = -1; int addrOf = -1; int indet = 0; };
static vector<SymInfo> syms; static map<string, int> symByName;
static uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static int getSym(const string& n, unsigned w) {
  auto it = symByName.find(n + "/" + std::to_string(w)); if (it != symByName.end()) return it->second;
  SymInfo s; s.name = n; s.w = w; s.r = {{0, maskw(w)}};
  if (n.size() && n[0] == '?') s.indet = 1;
  syms.push_back(s); symByName[n + "/" + std::to_string(w)] = (int)syms.size() - 1; return (int)syms.size() - 1;
}
static int mkSym(int s, unsigned w, uint64_t add = 0) { Val v; v.k = VSym; v.w = w; v.sym = s; v.add = add & maskw(w); return mk(v); }
static unsigned PTRW = 64;

// ---------------------------------------------------------------- memory
struct B { int v = -1; uint16_t idx = 0; };
struct Region {
  string name; bool cst = false, lazy = false, isLocal = false, isGlobal = false, isHeap = false, dead = false, isParam = false;
  int64_t size = 0; vector<B> b; const Function* fn = nullptr;
};
struct Frame {
  const Function* f = nullptr; const BasicBlock* bb = nullptr; const BasicBlock* prev = nullptr;
  BasicBlock::const_iterator it; map<const Value*, int> env; vector<int> locals; const CallBase* cs = nullptr;
};
struct State {
  vector<Frame> st; vector<std::shared_ptr<Region>> rg; map<const GlobalVariable*, int> gl; map<const Function*, int> fnreg;
  map<int, Ranges> ref; map<string, bool> facts; map<pair<int, int64_t>, string> live;
  vector<std::shared_ptr<json::Value>> ev; vector<string> faults; std::set<string> writes; map<string,int> cnt;
  int exc = -1; string excType; bool post = false; long steps = 0;
  string exitKind; int ret = -1; std::set<string> seenFaults;
  string mainExit; int mainRet = -1;
};

static std::unique_ptr<Module> M; static const DataLayout* DL; static LLVMContext Ctx;
static map<string, json::Object> classes; // class configuration
static json::Object conf;
static map<const Function*, string> demCache;
static const string& dem(const Function* f) {
  auto& s = demCache[f]; if (s.empty()) s = demangle(f->getName().str()); return s;
}
static bool clsFlag(const string& c, const char* k) { auto it = classes.find(c); if (it == classes.end()) return false; if (auto b = it->second.getBoolean(k)) return *b; return false; }

static string hex(uint64_t x) { char buf[40]; snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)x); return buf; }
static string renderPtr(const State& s, const Val& v) {
  string r = "&" + s.rg[v.reg]->name; if (v.off) r += (v.off > 0 ? "+" : "") + std::to_string(v.off);
  if (v.sym >= 0) r += "+[" + syms[v.sym].name + "]"; return r;
}
static string render(const State& s, int h) {
  const Val& v = pool[h];
  switch (v.k) {
    case VUndef: return "undef";
    case VInt: { SmallString<32> t; v.i.toString(t, 10, false); return string(t.str()); }
    case VPtr: return renderPtr(s, v);
    case VSym: { string r = syms[v.sym].name; if (v.add) r += "+" + hex(v.add); if (v.w != syms[v.sym].w) r += ":" + std::to_string(v.w); return r; }
    case VAgg: { string r = "{"; for (int e : v.el) r += render(s, e) + ","; return r + "}"; }
    case VBytes: { string r = "bytes("; for (auto& b : v.by) r += (b.first < 0 ? string("undef") : render(s, b.first) + "." + std::to_string(b.second)) + ","; return r + ")"; }
  }
  return "?";
}

static int newRegion(State& s, const string& name, int64_t size) {
  auto r = std::make_shared<Region>(); r->name = name; r->size = size; r->b.resize(size); s.rg.push_back(r); return (int)s.rg.size() - 1;
}
static Region& wr(State& s, int r) { auto& p = s.rg[r]; if (p.use_count() > 1) p = std::make_shared<Region>(*p); return *p; }

static string where(const State& s) {
  // innermost frames with debug locations, library frames first
  string out; int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 6; --i) {
    const Frame& f = s.st[i]; if (!f.f) continue;
    const Instruction* I = nullptr;
    if (f.it != f.bb->end()) I = &*f.it; else if (!f.bb->empty()) I = &f.bb->back();
    if (I) if (const DebugLoc& d = I->getDebugLoc()) {
      string file = d->getFilename().str(); size_t p = file.rfind('/'); if (p != string::npos) file = file.substr(p + 1);
      if (!out.empty()) out += " <- "; out += file + ":" + std::to_string(d.getLine()) + " (" + dem(f.f).substr(0, 100) + ")"; ++n;
    }
  }
  return out;
}
static string libLoc(const State& s) {
  for (int i = (int)s.st.size() - 1; i >= 0; --i) {
    const Frame& f = s.st[i]; if (!f.f || f.it == f.bb->end()) continue;
    if (const DebugLoc& d = f.it->getDebugLoc()) {
      string file = d->getFilename().str();
      if (file.find("option.hpp") != string::npos) return "option.hpp:" + std::to_string(d.getLine());
    }
  }
  return "";
}
static void fault(State& s, const string& m) {
  string k = m; if (!s.seenFaults.insert(k).second) return;
  s.faults.push_back((s.post ? "[observing] " : "") + m + " @ " + where(s));
}
static void event(State& s, json::Object o) {
  if (s.post) o["post"] = true; o["loc"] = libLoc(s); s.ev.push_back(std::make_shared<json::Value>(std::move(o)));
}

// ---------------------------------------------------------------- intervals
static Ranges symRange(const State& s, int sym) { auto it = s.ref.find(sym); return it != s.ref.end() ? it->second : syms[sym].r; }
static Ranges norm(Ranges r) {
  std::sort(r.begin(), r.end()); Ranges o;
  for (auto& p : r) { if (!o.empty() && (o.back().second == ~0ull || p.first <= o.back().second + 1)) o.back().second = std::max(o.back().second, p.second); else o.push_back(p); }
  return o;
}
// image of base ranges under x -> (x+add) mod 2^w
static Ranges affRange(const State& s, const Val& v) {
  if (syms[v.sym].w > 64 || v.w > 64) return {{0, ~0ull}};
  Ranges o; u128 mod = (u128)1 << v.w;
  for (auto& p : symRange(s, v.sym)) {
    u128 lo = (u128)p.first + v.add, hi = (u128)p.second + v.add;
    if (hi - lo + 1 >= mod) return {{0, maskw(v.w)}};
    uint64_t a = (uint64_t)(lo % mod), b = (uint64_t)(hi % mod);
    if (a <= b) o.push_back({a, b}); else { o.push_back({a, maskw(v.w)}); o.push_back({0, b}); }
  }
  return norm(o);
}
static Ranges valRange(const State& s, const Val& v) {
  if (v.k == VInt) { if (v.w > 64) return {{0, ~0ull}}; return {{v.i.getZExtValue(), v.i.getZExtValue()}}; }
  if (v.k == VSym) return affRange(s, v);
  return {{0, maskw(v.w)}};
}
static Ranges inter(const Ranges& a, const Ranges& b) {
  Ranges o; for (auto& x : a) for (auto& y : b) { uint64_t l = std::max(x.first, y.first), h = std::min(x.second, y.second); if (l <= h) o.push_back({l, h}); } return norm(o);
}
static Ranges compl_(const Ranges& a, unsigned w) {
  Ranges o; uint64_t cur = 0; bool done = false;
  for (auto& x : a) { if (x.first > cur) o.push_back({cur, x.first - 1}); if (x.second == maskw(w)) { done = true; break; } cur = x.second + 1; }
  if (!done) o.push_back({cur, maskw(w)}); return o;
}
// base values x with (x+add) mod 2^w in target
static Ranges preimage(const State& s, const Val& v, const Ranges& target) {
  Ranges o; u128 mod = (u128)1 << v.w;
  for (auto& p : symRange(s, v.sym)) {
    u128 lo = (u128)p.first + v.add, hi = (u128)p.second + v.add;
    u128 q0 = lo / mod, q1 = hi / mod; if (q1 - q0 > 64) { o.push_back(p); continue; }
    for (u128 q = q0; q <= q1; ++q) for (auto& t : target) {
      u128 a = q * mod + t.first, b = q * mod + t.second; if (a < lo) a = lo; if (b > hi) b = hi;
      if (a <= b) o.push_back({(uint64_t)(a - v.add), (uint64_t)(b - v.add)});
    }
  }
  return norm(o);
}
static bool singleton(const Ranges& r, uint64_t& x) { if (r.size() == 1 && r[0].first == r[0].second) { x = r[0].first; return true; } return false; }
static int settle(const State& s, int h) { // a block of mixed contents used as one number
  const Val& v = pool[h]; if (v.k != VBytes) return h;
  for (auto& b : v.by) if (b.first < 0 || pool[b.first].k == VUndef) return mkUndef(v.w);
  string n = render(s, h); return mkSym(getSym((n.find("?") != string::npos ? "?" : "") + n, v.w), v.w);
}
static int simp0(const State& s, int h);
static int simplify(const State& s, int h) { return simp0(s, settle(s, h)); }
static int simp0(const State& s, int h) {
  const Val& v = pool[h];
  if (v.k == VPtr && v.sym >= 0) { auto it = geps.find(v.sym); if (it != geps.end()) { int ix = simp0(s, it->second.idx); if (pool[ix].k == VInt) { Val q = v; q.off += pool[ix].i.getSExtValue() * (int64_t)it->second.scale; q.sym = it->second.prev; return simp0(s, mk(q)); } } return h; }
  if (v.k == VSym && v.w <= 64 && syms[v.sym].w <= 64) { uint64_t x; if (singleton(affRange(s, v), x)) return mkInt(v.w, x); }
  return h;
}

// ---------------------------------------------------------------- constants / globals
static int constVal(State& s, const Constant* c);
static void storeVal(State& s, int reg, int64_t off, int h, uint64_t size);
static int globalRegion(State& s, const GlobalVariable* g) {
  auto it = s.gl.find(g); if (it != s.gl.end()) return it->second;
  uint64_t sz = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()) : 8; if (!sz) sz = 1;
  int r = newRegion(s, "global:" + demangle(g->getName().str()), (int64_t)sz); s.gl[g] = r;
  Region& R = wr(s, r); R.isGlobal = true;
  if (g->hasInitializer()) {
    const Constant* in = g->getInitializer();
    // recursive initialisation
    struct Rec { static void go(State& s, int r, int64_t off, const Constant* c) {
      Type* t = c->getType();
      if (isa<ConstantAggregateZero>(c)) { for (uint64_t i = 0, n = DL->getTypeAllocSize(t); i < n; ++i) storeVal(s, r, off + i, mkInt(8, 0), 1); return; }
      if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) if (auto* e = c->getAggregateElement(i)) go(s, r, off + (int64_t)sl->getElementOffset(i), e); return; }
      if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); ++i) if (auto* e = c->getAggregateElement((unsigned)i)) go(s, r, off + (int64_t)(i * es), e); return; }
      if (isa<UndefValue>(c)) return;
      storeVal(s, r, off, constVal(s, c), DL->getTypeStoreSize(t));
    } };
    bool cst = g->isConstant(); Rec::go(s, r, 0, in); wr(s, r).cst = cst; 
  } else wr(s, r).lazy = true;
  return r;
}
static int constVal(State& s, const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) return mkInt(ci->getValue());
  if (auto* cf = dyn_cast<ConstantFP>(c)) return mkInt(cf->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return mkInt(PTRW, 0);
  if (isa<UndefValue>(c)) { // poison too
    if (c->getType()->isAggregateType()) { Val v; v.k = VAgg; unsigned n = c->getType()->getStructNumElements(); for (unsigned i = 0; i < n; ++i) v.el.push_back(constVal(s, UndefValue::get(c->getType()->getStructElementType(i)))); return mk(v); }
    return mkUndef((unsigned)DL->getTypeSizeInBits(c->getType()));
  }
  if (auto* g = dyn_cast<GlobalVariable>(c)) return mkPtr(globalRegion(s, g), 0);
  if (auto* f = dyn_cast<Function>(c)) {
    auto it = s.fnreg.find(f); if (it == s.fnreg.end()) { int r = newRegion(s, "fn:" + dem(f), 1); wr(s, r).fn = f; wr(s, r).cst = true; it = s.fnreg.insert({f, r}).first; }
    return mkPtr(it->second, 0);
  }
  if (auto* al = dyn_cast<GlobalAlias>(c)) return constVal(s, al->getAliasee());
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) {
      int b = constVal(s, cast<Constant>(gep->getPointerOperand())); APInt o(64, 0);
      if (!gep->accumulateConstantOffset(*DL, o)) die("constant GEP");
      Val v = pool[b]; if (v.k == VPtr) { v.off += o.getSExtValue(); return mk(v); }
      if (v.k == VInt) return mkInt(PTRW, v.i.getZExtValue() + o.getZExtValue());
    }
    if (ce->getOpcode() == Instruction::IntToPtr) { int b = constVal(s, ce->getOperand(0)); if (pool[b].k == VInt) return mkInt(pool[b].i.zextOrTrunc(PTRW)); return b; }
    if (ce->getOpcode() == Instruction::PtrToInt) { int b = constVal(s, ce->getOperand(0)); return b; }
    if (ce->getOpcode() == Instruction::BitCast) return constVal(s, ce->getOperand(0));
  }
  if (c->getType()->isStructTy() || c->getType()->isArrayTy()) {
    Val v; v.k = VAgg; uint64_t n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
    for (uint64_t i = 0; i < n; ++i) v.el.push_back(constVal(s, c->getAggregateElement((unsigned)i))); return mk(v);
  }
  string t; raw_string_ostream os(t); c->print(os); die("unsupported constant " + t);
}

// ---------------------------------------------------------------- load / store
static void killTypestate(State& s, int, int64_t, uint64_t) {}
static void noteWrite(State& s, int reg) {
  const Region& R = *s.rg[reg]; if (s.post) return;
  if (R.isParam || R.isGlobal) s.writes.insert(R.name);
}
static void storeVal(State& s, int reg, int64_t off, int h, uint64_t size) {
  Region& R = wr(s, reg);
  if (off < 0 || off + (int64_t)size > R.size) { if (!R.lazy) { fault(s, "out-of-bounds write of " + std::to_string(size) + " bytes at " + R.name + "+" + std::to_string(off) + " (size " + std::to_string(R.size) + ")"); return; }
    if (off < 0) { fault(s, "negative offset write"); return; } R.size = off + (int64_t)size; R.b.resize(R.size); }
  const Val& v = pool[h];
  if (v.k == VBytes) { for (uint64_t i = 0; i < size; ++i) R.b[off + i] = i < v.by.size() ? B{v.by[i].first, v.by[i].second} : B{-1, 0}; return; }
  if (v.k == VInt && v.w > 8) { // split concrete ints into bytes: canonical
    APInt a = v.i.zext(std::max<unsigned>(v.w, (unsigned)size * 8));
    for (uint64_t i = 0; i < size; ++i) R.b[off + i] = {mkInt(8, a.extractBits(8, (unsigned)i * 8).getZExtValue()), 0};
    return;
  }
  if (v.k == VSym && v.w > syms[v.sym].w && syms[v.sym].w % 8 == 0 && v.w == size * 8) { // a zero-extended value: its own bytes, then zeroes
    unsigned sw = syms[v.sym].w; u128 hi = 0; for (auto& p : symRange(s, v.sym)) hi = std::max<u128>(hi, (u128)p.second + v.add);
    if (hi <= maskw(sw)) { int lo = mkSym(v.sym, sw, v.add), z = mkInt(8, 0); for (uint64_t i = 0; i < size; ++i) R.b[off + i] = i < sw / 8 ? B{lo, (uint16_t)i} : B{z, 0}; return; }
  }
  for (uint64_t i = 0; i < size; ++i) R.b[off + i] = {v.k == VUndef ? -1 : h, (uint16_t)i};
}
static int loadVal(State& s, int reg, int64_t off, unsigned w, uint64_t size, bool isPtr) {
  if (off < 0 || off + (int64_t)size > s.rg[reg]->size) {
    if (!s.rg[reg]->lazy || off < 0) { fault(s, "out-of-bounds read of " + std::to_string(size) + " bytes at " + s.rg[reg]->name + "+" + std::to_string(off)); return mkUndef(w); }
    Region& R = wr(s, reg); R.size = off + (int64_t)size; R.b.resize(R.size);
  }
  const Region& R0 = *s.rg[reg];
  bool allUninit = true, anyUninit = false;
  for (uint64_t i = 0; i < size; ++i) { if (R0.b[off + i].v < 0) anyUninit = true; else allUninit = false; }
  if (allUninit && R0.lazy) {
    int h = mkSym(getSym("init(" + R0.name + "+" + std::to_string(off) + ")", (unsigned)size * 8), (unsigned)size * 8); storeVal(s, reg, off, h, size);
    Val v = pool[h]; v.w = w; if (w != size * 8) v.add = 0; return w == size * 8 ? h : mk(v);
  }
  if (allUninit || (anyUninit && w != size * 8)) return mkUndef(w);
  auto block = [&]() { Val v; v.k = VBytes; v.w = w; for (uint64_t i = 0; i < size; ++i) { const B& x = s.rg[reg]->b[off + i]; v.by.push_back({x.v, x.idx}); } return mk(v); };
  if (anyUninit) return block();
  const vector<B>& b = s.rg[reg]->b;
  const Val& v0 = pool[b[off].v];
  bool same = true; for (uint64_t i = 0; i < size; ++i) if (b[off + i].v != b[off].v || b[off + i].idx != b[off].idx + i) same = false;
  bool conc = true; for (uint64_t i = 0; i < size; ++i) if (pool[b[off + i].v].k != VInt) conc = false;
  if (conc) {
    APInt a((unsigned)size * 8, 0);
    for (uint64_t i = 0; i < size; ++i) { const Val& x = pool[b[off + i].v]; uint64_t byte = x.i.lshr((unsigned)b[off + i].idx * 8 < x.w ? b[off + i].idx * 8 : 0).zextOrTrunc(8).getZExtValue(); a.insertBits(byte, (unsigned)i * 8, 8); }
    return mkInt(a.zextOrTrunc(w));
  }
  if (same && b[off].idx == 0) {
    unsigned vw = v0.w;
    if (vw == w) return b[off].v;
    if (vw > w && v0.k == VSym) { Val v = v0; v.w = w; v.add &= maskw(w); return mk(v); } // low bytes
    if (vw < w && (vw + 7) / 8 == (w + 7) / 8 && v0.k == VSym) { Val v = v0; return b[off].v; }
    if (v0.k == VPtr && w < 64) return mkSym(getSym("trunc(" + render(s, b[off].v) + ")", w), w);
  }
  // zero-extended symbol in the low bytes
  { uint64_t n = 0; while (n < size && b[off + n].v == b[off].v && b[off + n].idx == n) ++n;
    bool z = true; for (uint64_t i = n; i < size; ++i) { const Val& x = pool[b[off + i].v]; if (!(x.k == VInt && x.i == 0)) z = false; }
    if (z && v0.k == VSym && v0.w <= 64 && n * 8 == v0.w) { // value range fits
      u128 hi = 0; for (auto& p : symRange(s, v0.sym)) hi = std::max<u128>(hi, (u128)p.second + v0.add);
      if (hi <= maskw(v0.w)) { Val v = v0; v.w = w; return mk(v); } }
  }
  if (w == size * 8) return block();
  string n = "bytes("; for (uint64_t i = 0; i < size; ++i) n += render(s, b[off + i].v) + "." + std::to_string(b[off + i].idx) + ",";
  int sy = getSym((n.find("?") != string::npos ? "?" : "") + n + ")", w); return mkSym(sy, w);
}

static bool derefp(State& s, int h, int& reg, int64_t& off, const char* what) {
  h = simplify(s, h);
  const Val& v = pool[h];
  if (v.k == VPtr && v.sym < 0) { reg = v.reg; off = v.off; if (s.rg[reg]->dead) { fault(s, string(what) + " through pointer to dead storage " + s.rg[reg]->name); } return true; }
  if (v.k == VInt) { fault(s, string(what) + " through " + (v.i == 0 ? "null pointer" : "invalid pointer " + render(s, h))); return false; }
  if (v.k == VUndef) { fault(s, string(what) + " through uninitialised pointer"); return false; }
  fault(s, string(what) + " through unknown pointer " + render(s, h)); return false;
}
static int loadTyped(State& s, int ptr, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    Val a; a.k = VAgg; auto* sl = DL->getStructLayout(st); const Val p = pool[ptr];
    for (unsigned i = 0; i < st->getNumElements(); ++i) { Val q = p; q.off += (int64_t)sl->getElementOffset(i); a.el.push_back(loadTyped(s, mk(q), st->getElementType(i))); }
    return mk(a);
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    Val a; a.k = VAgg; uint64_t es = DL->getTypeAllocSize(at->getElementType()); const Val p = pool[ptr];
    for (uint64_t i = 0; i < at->getNumElements(); ++i) { Val q = p; q.off += (int64_t)(i * es); a.el.push_back(loadTyped(s, mk(q), at->getElementType())); }
    return mk(a);
  }
  unsigned w = (unsigned)DL->getTypeSizeInBits(t); int r; int64_t o;
  if (!derefp(s, ptr, r, o, "read")) return mkUndef(w);
  return loadVal(s, r, o, w, DL->getTypeStoreSize(t), t->isPointerTy());
}
static void storeTyped(State& s, int ptr, int h, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); Val p = pool[ptr]; Val a = pool[h];
    for (unsigned i = 0; i < st->getNumElements(); ++i) { Val q = p; q.off += (int64_t)sl->getElementOffset(i); storeTyped(s, mk(q), a.k == VAgg ? a.el[i] : mkUndef(8), st->getElementType(i)); } return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); Val p = pool[ptr]; Val a = pool[h];
    for (uint64_t i = 0; i < at->getNumElements(); ++i) { Val q = p; q.off += (int64_t)(i * es); storeTyped(s, mk(q), a.k == VAgg ? a.el[i] : mkUndef(8), at->getElementType()); } return; }
  int r; int64_t o; if (!derefp(s, ptr, r, o, "write")) return;
  noteWrite(s, r); if (s.rg[r]->cst && s.rg[r]->isGlobal) fault(s, "write to constant " + s.rg[r]->name);
  unsigned w = (unsigned)DL->getTypeSizeInBits(t);
  int hv = h; if (pool[h].k == VInt && pool[h].w < DL->getTypeStoreSize(t) * 8) hv = mkInt(pool[h].i.zext((unsigned)DL->getTypeStoreSize(t) * 8));
  (void)w; storeVal(s, r, o, hv, DL->getTypeStoreSize(t));
}

// token of the object at an address (8-byte payload probes, or fewer bytes)
static string tokenAt(State& s, int reg, int64_t off, uint64_t size = 8) {
  const Region& R = *s.rg[reg]; if (off < 0) return "oob";
  if (off + (int64_t)size > R.size) { if (R.size - off > 0 && !R.lazy) size = (uint64_t)(R.size - off); else if (!R.lazy) return "oob"; }
  State tmp; bool un = false; for (uint64_t i = 0; i < size && off + (int64_t)i < R.size; ++i) if (R.b[off + i].v < 0) un = true;
  if (R.lazy && off + (int64_t)size > R.size) return "init(" + R.name + ")";
  if (un) return R.lazy ? "init(" + R.name + "+" + std::to_string(off) + ")" : "uninit";
  int f0 = (int)s.faults.size(); int h = loadVal(s, reg, off, (unsigned)size * 8, size, false); s.faults.resize(f0);
  return render(s, simplify(s, h));
}
static string addrName(const State& s, int h) { return render(s, h); }

// ---------------------------------------------------------------- operand evaluation
static int opv(State& s, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constVal(s, c);
  auto& e = s.st.back().env; auto it = e.find(v);
  if (it == e.end()) { string t; raw_string_ostream os(t); v->print(os); die("value without definition: " + t); }
  return it->second;
}
static int opaqueTerm(State& s, const string& op, vector<int> a, unsigned w) {
  for (int& h : a) h = settle(s, h);
  string n = op + "("; bool ind = false, und = false;
  for (int h : a) { n += render(s, h) + ","; if (pool[h].k == VUndef) und = true; if (pool[h].k == VSym && syms[pool[h].sym].indet) ind = true; }
  if (und) return mkUndef(w);
  n.back() = ')'; return mkSym(getSym((ind ? "?" : "") + n, w), w);
}
static int ptrAsInt(State& s, int h) { // address of region as symbol
  h = simplify(s, h); const Val v = pool[h]; if (v.k != VPtr || v.sym >= 0) return h;
  const Region& R = *s.rg[v.reg];
  int sy = getSym("addr(" + R.name + "#" + std::to_string(v.reg) + ")", 64);
  if (syms[sy].addrOf < 0) { syms[sy].addrOf = v.reg; syms[sy].r = {{0x10000, 0x7fffffff0000ull}}; }
  return mkSym(sy, 64, (uint64_t)v.off);
}

typedef vector<State> Out;
// widening x + c is affine on each part of x's range in which x + c neither wraps nor changes sign: split into those parts
static bool splitExt(const State& s, const Val& v, bool sign, Out& out) {
  if (v.k != VSym || v.w > 32 || syms[v.sym].w > 64 || syms[v.sym].indet) return false;
  u128 mod = (u128)1 << v.w, half = mod / 2; vector<Ranges> parts; map<pair<uint64_t, int>, size_t> at;
  for (auto& p : symRange(s, v.sym)) {
    u128 lo = (u128)p.first + v.add, hi = (u128)p.second + v.add; if ((hi - lo) / half > 6) return false;
    while (lo <= hi) { u128 q = lo / half, e = std::min<u128>(hi, (q + 1) * half - 1); auto key = std::make_pair((uint64_t)(q / 2), sign ? (int)(q % 2) : 0);
      auto it = at.find(key); if (it == at.end()) { at[key] = parts.size(); parts.push_back({}); it = at.find(key); }
      parts[it->second].push_back({(uint64_t)(lo - v.add), (uint64_t)(e - v.add)}); lo = e + 1; }
  }
  if (parts.size() < 2) return false;
  for (auto& r : parts) { State t = s; t.ref[v.sym] = norm(r); out.push_back(std::move(t)); }
  return true;
}
static const char* predName(CmpInst::Predicate p) { return CmpInst::getPredicateName(p).data(); }

// decide integer comparison; returns list of (state,bool) via callback
template <class F> static void decideCmp(State s, CmpInst::Predicate p, int a, int b, F k) {
  a = simplify(s, a); b = simplify(s, b);
  Val A = pool[a], Bv = pool[b];
  if (A.k == VUndef || Bv.k == VUndef) { k(std::move(s), -1); return; }
  if (A.k == VPtr && Bv.k == VPtr) {
    if (A.reg == Bv.reg && A.sym == Bv.sym) {
      int64_t x = A.off, y = Bv.off; bool r;
      switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: r = x < y; break; case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: r = x <= y; break; case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = x > y; break; default: r = x >= y; }
      k(std::move(s), r); return;
    }
    if (A.reg != Bv.reg && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { k(std::move(s), p == CmpInst::ICMP_NE); return; }
  }
  if (A.k == VPtr && A.sym >= 0 && Bv.k == VInt && Bv.i == 0 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { k(std::move(s), p == CmpInst::ICMP_NE); return; }
  if (Bv.k == VPtr && Bv.sym >= 0 && A.k == VInt && A.i == 0 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { k(std::move(s), p == CmpInst::ICMP_NE); return; }
  if (A.k == VPtr && A.sym < 0) { a = ptrAsInt(s, a); A = pool[a]; }
  if (Bv.k == VPtr && Bv.sym < 0) { b = ptrAsInt(s, b); Bv = pool[b]; }
  if (A.k == VInt && Bv.k == VInt) { unsigned w = std::max(A.w, Bv.w); k(std::move(s), ICmpInst::compare(A.i.zextOrTrunc(w), Bv.i.zextOrTrunc(w), p)); return; }
  if (A.k == VSym && Bv.k == VSym && A.sym == Bv.sym && A.w == Bv.w) {
    if (p == CmpInst::ICMP_EQ) { k(std::move(s), A.add == Bv.add); return; }
    if (p == CmpInst::ICMP_NE) { k(std::move(s), A.add != Bv.add); return; }
    if (A.add == Bv.add) { k(std::move(s), CmpInst::isTrueWhenEqual(p)); return; }
  }
  if (A.k == VInt && Bv.k == VSym) { std::swap(a, b); std::swap(A, Bv); p = CmpInst::getSwappedPredicate(p); }
  if (A.k == VSym && Bv.k == VInt && A.w <= 64 && syms[A.sym].w <= 64) {
    uint64_t c = Bv.i.getZExtValue(), mx = maskw(A.w); Ranges T; uint64_t sb = 1ull << (A.w - 1);
    auto sle = [&](uint64_t lim) { // x <=s lim
      Ranges r; if (lim & sb) r = {{sb, lim}}; else { r = {{0, lim}, {sb, mx}}; } return norm(r); };
    switch (p) {
      case CmpInst::ICMP_EQ: T = {{c, c}}; break; case CmpInst::ICMP_NE: T = compl_({{c, c}}, A.w); break;
      case CmpInst::ICMP_ULT: if (c) T = {{0, c - 1}}; break; case CmpInst::ICMP_ULE: T = {{0, c}}; break;
      case CmpInst::ICMP_UGT: if (c < mx) T = {{c + 1, mx}}; break; case CmpInst::ICMP_UGE: T = {{c, mx}}; break;
      case CmpInst::ICMP_SLE: T = sle(c); break; case CmpInst::ICMP_SGT: T = compl_(sle(c), A.w); break;
      case CmpInst::ICMP_SLT: if (c != sb) T = sle((c - 1) & mx); break; case CmpInst::ICMP_SGE: T = c == sb ? Ranges{{0, mx}} : compl_(sle((c - 1) & mx), A.w); break;
      default: break;
    }
    Ranges R = affRange(s, A), yes = inter(R, T), no = inter(R, compl_(T, A.w));
    if (no.empty()) { k(std::move(s), true); return; } if (yes.empty()) { k(std::move(s), false); return; }
    bool ind = syms[A.sym].indet; string key = "cmp " + render(s, a) + " " + predName(p) + " " + render(s, b);
    auto f = s.facts.find(key); if (f != s.facts.end()) { bool r = f->second; k(std::move(s), r); return; }
    State n = s; s.ref[A.sym] = preimage(s, A, yes); n.ref[A.sym] = preimage(n, A, no); s.facts[key] = true; n.facts[key] = false;
    if (ind) { fault(s, "decision depends on indeterminate storage"); fault(n, "decision depends on indeterminate storage"); }
    k(std::move(s), true); k(std::move(n), false); return;
  }
  bool ind = (A.k == VSym && syms[A.sym].indet) || (Bv.k == VSym && syms[Bv.sym].indet);
  // disjoint ranges
  if (A.k == VSym && Bv.k == VSym && A.w == Bv.w && A.w <= 64) {
    Ranges ra = affRange(s, A), rb = affRange(s, Bv);
    if (inter(ra, rb).empty() && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { k(std::move(s), p == CmpInst::ICMP_NE); return; }
    if (!ra.empty() && !rb.empty()) {
      if (ra.back().second < rb.front().first) { if (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE) { k(std::move(s), true); return; } if (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE) { k(std::move(s), false); return; } }
      if (rb.back().second < ra.front().first) { if (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE) { k(std::move(s), true); return; } if (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE) { k(std::move(s), false); return; } }
    }
  }
  // canonical key: use only EQ, ULT, SLT with operand order
  string ra = render(s, a), rb = render(s, b); bool neg = false; CmpInst::Predicate q = p;
  if (q == CmpInst::ICMP_NE) { q = CmpInst::ICMP_EQ; neg = true; }
  if (q == CmpInst::ICMP_UGT || q == CmpInst::ICMP_SGT) { std::swap(ra, rb); q = CmpInst::getSwappedPredicate(q); }
  if (q == CmpInst::ICMP_UGE || q == CmpInst::ICMP_SGE) { q = CmpInst::getInversePredicate(q); neg = !neg; }
  if (q == CmpInst::ICMP_ULE || q == CmpInst::ICMP_SLE) { q = CmpInst::getSwappedPredicate(CmpInst::getInversePredicate(q)); q = q == CmpInst::ICMP_ULT || q == CmpInst::ICMP_UGT ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT; std::swap(ra, rb); neg = !neg; }
  if (q == CmpInst::ICMP_EQ && rb < ra) std::swap(ra, rb);
  string key = string("cmp ") + ra + " " + predName(q) + " " + rb;
  auto f = s.facts.find(key); if (f != s.facts.end()) { bool r = f->second != neg; k(std::move(s), r); return; }
  if (ind) fault(s, "decision depends on indeterminate storage");
  State n = s; s.facts[key] = true; n.facts[key] = false;
  json::Object e{{"k", "fork"}, {"cond", key}}; json::Object e1 = e, e2 = e; e1["is"] = true; e2["is"] = false; event(s, std::move(e1)); event(n, std::move(e2));
  k(std::move(s), !neg); k(std::move(n), neg);
}

// signed addition / subtraction of a constant that can leave the type's range
static void checkNsw(State& s, const Instruction* I, int a, int b, unsigned w) {
  auto* o = dyn_cast<OverflowingBinaryOperator>(I); if (!o || !o->hasNoSignedWrap() || w > 64) return;
  bool sub = I->getOpcode() == Instruction::Sub; if (!sub && I->getOpcode() != Instruction::Add) return;
  a = simplify(s, a); b = simplify(s, b); const Val A = pool[a], C = pool[b];
  if ((A.k != VInt && A.k != VSym) || (C.k != VInt && C.k != VSym) || (A.k == VSym && C.k == VSym)) return;
  if ((A.k == VSym && syms[A.sym].indet) || (C.k == VSym && syms[C.sym].indet)) return;
  typedef __int128 i128; uint64_t sb = 1ull << (w - 1); i128 mx = (i128)(sb - 1), mn = -(i128)sb;
  auto parts = [&](const Val& v) { vector<pair<i128, i128>> r; for (auto& p : valRange(s, v)) { if (p.first < sb) r.push_back({(i128)p.first, (i128)std::min(p.second, sb - 1)}); if (p.second >= sb) r.push_back({(i128)std::max(p.first, sb) - ((i128)1 << w), (i128)p.second - ((i128)1 << w)}); } return r; };
  for (auto& x : parts(A)) for (auto& y : parts(C)) { i128 lo = sub ? x.first - y.second : x.first + y.first, hi = sub ? x.second - y.first : x.second + y.second; if (lo < mn || hi > mx) { const DebugLoc& d = I->getDebugLoc(); if (d && d->getFilename().contains("opt/option")) fault(s, "signed overflow"); return; } }
}
static int binop(State& s, unsigned opc, int a, int b, unsigned w) {
  a = simplify(s, a); b = simplify(s, b); const Val A = pool[a], Bv = pool[b];
  if (A.k == VPtr || Bv.k == VPtr) return binop(s, opc, ptrAsInt(s, a), ptrAsInt(s, b), w);
  if (A.k == VInt && Bv.k == VInt) {
    const APInt &x = A.i, &y = Bv.i;
    switch (opc) {
      case Instruction::Add: return mkInt(x + y); case Instruction::Sub: return mkInt(x - y); case Instruction::Mul: return mkInt(x * y);
      case Instruction::And: return mkInt(x & y); case Instruction::Or: return mkInt(x | y); case Instruction::Xor: return mkInt(x ^ y);
      case Instruction::Shl: return mkInt(x.shl(y)); case Instruction::LShr: return mkInt(x.lshr(y)); case Instruction::AShr: return mkInt(x.ashr(y));
      case Instruction::UDiv: if (y != 0) return mkInt(x.udiv(y)); break; case Instruction::SDiv: if (y != 0) return mkInt(x.sdiv(y)); break;
      case Instruction::URem: if (y != 0) return mkInt(x.urem(y)); break; case Instruction::SRem: if (y != 0) return mkInt(x.srem(y)); break;
    }
  }
  if (w <= 64) {
    if (A.k == VSym && Bv.k == VInt) {
      uint64_t c = Bv.i.getZExtValue();
      if (opc == Instruction::Add) return mkSym(A.sym, w, A.add + c);
      if (opc == Instruction::Sub) return mkSym(A.sym, w, A.add - c);
      if (opc == Instruction::And && c <= 1 && syms[A.sym].addrOf >= 0 && s.rg[syms[A.sym].addrOf]->fn) return mkInt(w, A.add & c); // functions have even addresses
      if (opc == Instruction::And || opc == Instruction::Or || opc == Instruction::Xor) {
        Ranges r = affRange(s, A);
        if (!r.empty()) {
          uint64_t lo = r.front().first, hi = r.back().second; uint64_t diff = lo ^ hi; uint64_t low = 0; while (low < diff) low = (low << 1) | 1;
          uint64_t cl = c & low, high = lo & ~low & maskw(w);
          auto f = [&](uint64_t x) { return opc == Instruction::And ? (x & c) : opc == Instruction::Or ? (x | c) : (x ^ c); };
          uint64_t nh = f(high) & ~low & maskw(w);
          bool ident = opc == Instruction::And ? cl == low : cl == 0;
          if (ident) return mkSym(A.sym, w, A.add + (nh - high));
          if (opc == Instruction::And && cl == 0) return mkInt(w, nh);
        }
      }
      if ((opc == Instruction::Shl || opc == Instruction::LShr || opc == Instruction::AShr) && c == 0) return a;
      if ((opc == Instruction::SDiv || opc == Instruction::UDiv || opc == Instruction::Mul) && c == 1) return a;
    }
    if (Bv.k == VSym && A.k == VInt && (opc == Instruction::Add || opc == Instruction::And || opc == Instruction::Or || opc == Instruction::Xor)) return binop(s, opc, b, a, w);
    if (A.k == VSym && Bv.k == VSym && A.sym == Bv.sym && opc == Instruction::Sub && A.w == Bv.w) return mkInt(w, A.add - Bv.add);
    if (A.k == VSym && Bv.k == VSym && A.sym == Bv.sym && A.add == Bv.add && opc == Instruction::Xor) return mkInt(w, 0);
  }
  static const map<unsigned, string> nm = {{Instruction::Add, "add"}, {Instruction::Sub, "sub"}, {Instruction::Mul, "mul"}, {Instruction::And, "and"}, {Instruction::Or, "or"}, {Instruction::Xor, "xor"}, {Instruction::Shl, "shl"}, {Instruction::LShr, "lshr"}, {Instruction::AShr, "ashr"}};
  auto it = nm.find(opc); return opaqueTerm(s, it != nm.end() ? it->second : "op" + std::to_string(opc), {a, b}, w);
}

// ---------------------------------------------------------------- opaque (user) functions
static string scopeOf(const string& d, string& last, string& args) {
  // split "A::B(args)" at top level
  int depth = 0; size_t p = string::npos;
  for (size_t i = 0; i < d.size(); ++i) {
    if (d.compare(i, 8, "operator") == 0 && (i == 0 || !(isalnum((unsigned char)d[i - 1]) || d[i - 1] == '_')) && i + 8 < d.size() && strchr("<>=!-+*/|&^()[]", d[i + 8])) { // skip the operator's own punctuation
      i += 8; if (d[i] == '(' || d[i] == '[') { i += 1; continue; } while (i + 1 < d.size() && strchr("<>=-|&", d[i + 1]) && !(d[i] == '-' && d[i + 1] != '>')) ++i; continue; }
    char c = d[i]; if (c == '<') ++depth; else if (c == '>' && (i == 0 || d[i - 1] != '-')) --depth;
    if (c == '(' && depth == 0) { if (i >= 8 && d.compare(i - 8, 8, "operator") == 0) { i += 1; continue; } p = i; break; } }
  string head = d.substr(0, p); args = p == string::npos ? "" : d.substr(p + 1, d.rfind(')') - p - 1);
  depth = 0; size_t q = string::npos;
  for (size_t i = 0; i + 1 < head.size(); ++i) { if (head[i] == '<') ++depth; else if (head[i] == '>') --depth; else if (head[i] == ':' && head[i + 1] == ':' && depth == 0) q = i; }
  if (head.find("operator") != string::npos && q != string::npos && head.rfind("operator") < q) q = string::npos;
  last = q == string::npos ? head : head.substr(q + 2); return q == string::npos ? "" : head.substr(0, q);
}
static void popFrame(State& s) {
  Frame& f = s.st.back();
  for (int r : f.locals) {
    for (auto it = s.live.begin(); it != s.live.end();) { if (it->first.first == r) { if (clsFlag(it->second, "dtor")) fault(s, "object of " + it->second + " in local storage of " + dem(f.f).substr(0, 80) + " never destroyed"); it = s.live.erase(it); } else ++it; }
    wr(s, r).dead = true;
  }
  s.st.pop_back();
}
static void pushCall(State& s, const Function* f, const vector<int>& args, const CallBase* cs) {
  if (s.st.size() > 300) die("call depth exceeded in " + dem(f));
  Frame fr; fr.f = f; fr.bb = &f->getEntryBlock(); fr.it = fr.bb->begin(); fr.cs = cs;
  for (auto& a : f->args()) { unsigned n = a.getArgNo(); if (n >= args.size()) die("missing argument for " + dem(f));
    int h = args[n];
    if (a.hasByValAttr()) { // callee owns a copy
      Type* t = a.getParamByValType(); uint64_t sz = DL->getTypeAllocSize(t); int r = newRegion(s, "byval", (int64_t)sz); wr(s, r).isLocal = true; int sr; int64_t so;
      if (derefp(s, h, sr, so, "read")) for (uint64_t i = 0; i < sz && so + (int64_t)i < s.rg[sr]->size; ++i) { B x = s.rg[sr]->b[so + i]; wr(s, r).b[i] = x; }
      fr.locals.push_back(r); h = mkPtr(r, 0);
    }
    fr.env[&a] = h; }
  s.st.push_back(std::move(fr));
}
static void finishInstr(State& s, int h) { Frame& f = s.st.back(); const Instruction* I = &*f.it; if (!I->getType()->isVoidTy() && h >= 0) f.env[I] = h;
  if (auto* inv = dyn_cast<InvokeInst>(I)) { f.prev = f.bb; f.bb = inv->getNormalDest(); f.it = f.bb->begin(); } else ++f.it; }
// start unwinding from the current instruction of the top frame
static void unwind(State& s) {
  while (true) {
    if (s.st.empty()) { s.exitKind = "unwind"; return; }
    Frame& f = s.st.back(); const Instruction* I = f.it == f.bb->end() ? nullptr : &*f.it;
    if (auto* inv = dyn_cast_or_null<InvokeInst>(I)) { f.prev = f.bb; f.bb = inv->getUnwindDest(); f.it = f.bb->begin(); return; }
    if (f.f->doesNotThrow()) { json::Object e{{"k", "terminate"}, {"fn", dem(f.f)}}; event(s, std::move(e)); s.exitKind = "terminate"; return; }
    popFrame(s);
  }
}
static string fresh(State& s, const string& base) { int n = ++s.cnt[base]; return base + (n > 1 ? "#" + std::to_string(n) : ""); }

static Ranges payloadRange; // values an opaque object's leading bytes can have (e.g. a table pointer)
static void setPayload(State& s, int reg, int64_t off, const string& tok, unsigned w = 64) {
  int sy = getSym(tok, w); if (!payloadRange.empty() && w == 64 && tok[0] != '?') syms[sy].r = payloadRange;
  storeVal(s, reg, off, mkSym(sy, w), w / 8); }
static unsigned clsBytes(const string& cls) { auto it = classes.find(cls); if (it != classes.end()) if (auto v = it->second.getInteger("payload")) return (unsigned)*v; return 8; }

// source object readable?
static string readObj(State& s, int reg, int64_t off, const string& cls, const char* what) {
  string t = tokenAt(s, reg, off, clsBytes(cls));
  if (clsFlag(cls, "dtor") && !s.live.count({reg, off})) fault(s, string(what) + " of an object of " + cls + " that is not alive (" + s.rg[reg]->name + "+" + std::to_string(off) + ")");
  else if (t.find("uninit") != string::npos || (t.size() && t[0] == '?') || t.rfind("LVL(", 0) == 0) fault(s, string(what) + " of storage that holds no object of " + cls + " (" + s.rg[reg]->name + "+" + std::to_string(off) + " is " + t + ")");
  return t;
}
static string stripRef(string t, bool& lref, bool& rref, bool& cst) {
  lref = rref = cst = false; while (!t.empty() && t.back() == ' ') t.pop_back();
  if (t.size() > 2 && t.substr(t.size() - 2) == "&&") { rref = true; t.resize(t.size() - 2); } else if (!t.empty() && t.back() == '&') { lref = true; t.pop_back(); }
  while (!t.empty() && t.back() == ' ') t.pop_back();
  if (t.size() > 6 && t.substr(t.size() - 6) == " const") { cst = true; t.resize(t.size() - 6); }
  return t;
}
static vector<string> splitArgs(const string& a) { vector<string> o; int d = 0; string c; for (char x : a) { if (x == '<' || x == '(') ++d; if (x == '>' || x == ')') --d; if (x == ',' && d == 0) { o.push_back(c); c.clear(); continue; } if (c.empty() && x == ' ') continue; c += x; } if (!c.empty()) o.push_back(c); return o; }

static void applyTransfer(State& s, int dr, int64_t doff, int h, const vector<string>& argT, const vector<int>& argv, const string& cls, const char* what, string& tok, json::Object& e) {
  // computes token produced for the destination from single-object arguments
  json::Array as;
  string last; int idx = 0; tok = "";
  for (size_t i = 0; i < argv.size(); ++i) {
    bool l = false, r = false, c = false; string t = i < argT.size() ? stripRef(argT[i], l, r, c) : "";
    json::Object ao; ao["type"] = i < argT.size() ? argT[i] : ""; ao["v"] = render(s, argv[i]);
    if ((l || r) && pool[argv[i]].k == VPtr && pool[argv[i]].sym < 0) {
      int sr = pool[argv[i]].reg; int64_t so = pool[argv[i]].off;
      string ot = classes.count(t) ? readObj(s, sr, so, t, what) : tokenAt(s, sr, so, clsBytes(t)); ao["tok"] = ot;
      ++idx;
      string part = (t == cls ? ot : (r ? "from_rvalue:" : "from_lvalue:") + t + "(" + ot + ")"); tok += (tok.empty() ? "" : ",") + part;
      if (r && !c) { noteWrite(s, sr); setPayload(s, sr, so, "moved(" + ot + ")", clsBytes(t) * 8); }
    } else { if (pool[argv[i]].k == VPtr && pool[argv[i]].reg >= 0 && (l || r)) {} tok += (tok.empty() ? "" : ",") + string("arg:") + render(s, argv[i]); }
    as.push_back(std::move(ao));
  }
  e["args"] = std::move(as); (void)idx;
}

static void callOpaque(State s, const CallBase* cb, const Function* f, vector<int> args, Out& out) {
  const string name = f->getName().str(); const string& d = dem(f); string last, at; string scope = scopeOf(d, last, at);
  bool canThrow = !cb->doesNotThrow() && !f->doesNotThrow();
  auto done = [&](State&& st, int h) { finishInstr(st, h); out.push_back(std::move(st)); };
  auto exitWith = [&](State&& st, const char* k) { st.exitKind = k; out.push_back(std::move(st)); };
  auto throwFrom = [&](State&& st, const string& by) {
    string en = fresh(st, "exc:" + by); int r = newRegion(st, en, 8); st.exc = r; st.excType = ""; json::Object e{{"k", "throw"}, {"by", by}, {"exc", en}}; event(st, std::move(e)); unwind(st); out.push_back(std::move(st)); };
  // --- runtime functions
  if (name == "opq_verify_fail") { event(s, json::Object{{"k", "verify_fail"}}); exitWith(std::move(s), "verify"); return; }
  if (name == "_ZSt9terminatev" || name == "__clang_call_terminate" || name == "abort" || name == "exit" || name == "_ZSt25__throw_bad_function_callv") { event(s, json::Object{{"k", "terminate"}, {"fn", name}}); exitWith(std::move(s), "terminate"); return; }
  if (name == "__cxa_allocate_exception") { string en = fresh(s, "exc"); int r = newRegion(s, en, (int64_t)pool[args[0]].i.getZExtValue()); done(std::move(s), mkPtr(r, 0)); return; }
  if (name == "fprintf" || name == "fflush" || name == "fputs" || name == "fwrite") { done(std::move(s), cb->getType()->isVoidTy() ? -1 : mkInt(cb->getType()->getIntegerBitWidth(), 0)); return; } // diagnostics of the default precondition check
  if (name == "__cxa_free_exception") { done(std::move(s), -1); return; }
  if (name == "__cxa_throw") { s.exc = pool[args[0]].reg; s.excType = render(s, args[1]); event(s, json::Object{{"k", "lib_throw"}, {"type", s.excType}}); unwind(s); out.push_back(std::move(s)); return; }
  if (name == "__cxa_begin_catch") { event(s, json::Object{{"k", "catch"}}); done(std::move(s), args[0]); return; }
  if (name == "__cxa_end_catch") { event(s, json::Object{{"k", "end_catch"}}); done(std::move(s), -1); return; }
  if (name == "__cxa_rethrow") { event(s, json::Object{{"k", "rethrow"}}); unwind(s); out.push_back(std::move(s)); return; }
  if (name == "_Znwm" || name == "_Znam" || name == "malloc" || name == "_ZnwmSt11align_val_t") { event(s, json::Object{{"k", "alloc"}, {"fn", name}}); int r = newRegion(s, fresh(s, "heap"), pool[args[0]].k == VInt ? (int64_t)pool[args[0]].i.getZExtValue() : 64); wr(s, r).isHeap = true; done(std::move(s), mkPtr(r, 0)); return; }
  if (name == "_ZdlPv" || name == "_ZdlPvm" || name == "_ZdaPv" || name == "free" || name == "_ZdaPvm") { event(s, json::Object{{"k", "dealloc"}, {"p", render(s, args[0])}}); done(std::move(s), -1); return; }
  if (name == "memcpy" || name == "memmove") { // handled like intrinsic by caller
  }
  if (name == "strlen") { if (pool[args[0]].k == VPtr) { auto& R = *s.rg[pool[args[0]].reg]; int64_t n = 0, o = pool[args[0]].off; while (o + n < R.size && R.b[o + n].v >= 0 && pool[R.b[o + n].v].k == VInt && pool[R.b[o + n].v].i != 0) ++n; if (o + n < R.size) { done(std::move(s), mkInt(64, (uint64_t)n)); return; } } }
  if (name == "obs_state") { // (int id, bool engaged, const void* p, int size)
    json::Object e{{"k", "obs"}}; e["id"] = render(s, args[0]); e["engaged"] = render(s, args[1]); e["p"] = render(s, args[2]);
    const Val p = pool[args[2]];
    if (p.k == VPtr && p.sym < 0) { uint64_t sz = pool[args[3]].i.getZExtValue(); e["tok"] = tokenAt(s, p.reg, p.off, sz); e["live"] = s.live.count({p.reg, p.off}) != 0; if (s.live.count({p.reg, p.off})) e["cls"] = s.live[{p.reg, p.off}]; }
    event(s, std::move(e)); done(std::move(s), -1); return; }
  if (name == "obs_val") { json::Object e{{"k", "val"}}; json::Array a; for (int h : args) { json::Object o; o["v"] = render(s, h); if (pool[h].k == VPtr && pool[h].sym < 0) { o["tok"] = tokenAt(s, pool[h].reg, pool[h].off, 8); o["live"] = s.live.count({pool[h].reg, pool[h].off}) != 0; } a.push_back(std::move(o)); } e["args"] = std::move(a); event(s, std::move(e)); done(std::move(s), -1); return; }
  if (name == "obs_mark") { json::Object e{{"k", "mark"}}; e["n"] = render(s, args[0]); event(s, std::move(e)); done(std::move(s), -1); return; }
  // --- trait level accessors of user supplied traits
  if (last == "get_level" && args.size() == 1) {
    int r; int64_t o; if (!derefp(s, args[0], r, o, "get_level")) { exitWith(std::move(s), "fault"); return; }
    vector<string> ats = splitArgs(at); string cls = ats.empty() ? "" : ats[0]; size_t p = cls.find(" const*"); if (p != string::npos) cls.resize(p);
    string t = tokenAt(s, r, o, clsBytes(cls)); json::Object e{{"k", "get_level"}, {"cls", cls}, {"at", render(s, args[0])}, {"tok", t}};
    int f0 = (int)s.faults.size(); unsigned pb = clsBytes(cls); int h = loadVal(s, r, o, pb * 8, pb, false); s.faults.resize(f0);
    const Val v = pool[h];
    if (v.k == VSym && syms[v.sym].level >= 0) { int lv = syms[v.sym].level; e["ret"] = render(s, lv); event(s, std::move(e)); done(std::move(s), lv); return; }
    uint64_t ml = 1; auto it = classes.find(cls); if (it != classes.end()) if (auto m = it->second.getInteger("max_level")) ml = (uint64_t)*m;
    if (v.k == VUndef || (v.k == VSym && syms[v.sym].indet)) {
      // indeterminate storage: the accessor may answer anything, but consistently while the storage is unchanged
      int hh = h; if (v.k == VUndef) { hh = mkSym(getSym(fresh(s, "?indet"), pb * 8), pb * 8); storeVal(s, r, o, hh, pb); }
      string key = "lvl:" + render(s, hh); e["indet"] = true; auto known = s.facts.find(key);
      if (known == s.facts.end() || !known->second) { State z = s; z.facts[key] = false; json::Object e0 = e; e0["ret"] = "0"; event(z, std::move(e0)); done(std::move(z), mkInt(64, 0)); }
      if (known == s.facts.end() || known->second) { s.facts[key] = true; e["ret"] = "engaged"; event(s, std::move(e)); done(std::move(s), mkInt(64, ~0ull)); }
      return;
    }
    int sy = getSym("lvl_of(" + t + ")", 64); syms[sy].r = {{ml, ~0ull}}; e["ret"] = "engaged"; event(s, std::move(e)); done(std::move(s), mkSym(sy, 64)); return;
  }
  if (last == "set_level" && args.size() == 2) {
    int r; int64_t o; if (!derefp(s, args[0], r, o, "set_level")) { exitWith(std::move(s), "fault"); return; }
    vector<string> ats = splitArgs(at); string cls = ats.empty() ? "" : ats[0]; size_t p = cls.find("*"); if (p != string::npos) cls.resize(p);
    if (clsFlag(cls, "dtor") && s.live.count({r, o})) fault(s, "emptiness level written over a live object of " + cls);
    s.live.erase({r, o});
    uint64_t ml = 1; auto it = classes.find(cls); if (it != classes.end()) if (auto m = it->second.getInteger("max_level")) ml = (uint64_t)*m;
    for (auto& q : valRange(s, pool[args[1]])) if (q.second >= ml) fault(s, "set_level called with a level that is not below max_level");
    int sy = getSym("LVL(" + render(s, args[1]) + ")", clsBytes(cls) * 8); syms[sy].level = args[1]; noteWrite(s, r);
    storeVal(s, r, o, mkSym(sy, clsBytes(cls) * 8), clsBytes(cls)); json::Object e{{"k", "set_level"}, {"cls", cls}, {"at", render(s, args[0])}, {"level", render(s, args[1])}}; event(s, std::move(e)); done(std::move(s), -1); return;
  }
  // --- special members of opaque classes
  string simple = scope; { size_t q = scope.rfind("::"); if (q != string::npos && scope.find('<') == string::npos) simple = scope.substr(q + 2); size_t lt = simple.find('<'); if (lt != string::npos) simple.resize(lt); }
  bool isDtor = !last.empty() && last[0] == '~'; bool isCtor = !scope.empty() && last == simple;
  if (isDtor) {
    int r; int64_t o; if (!derefp(s, args[0], r, o, "destroy")) { exitWith(std::move(s), "fault"); return; }
    string t = tokenAt(s, r, o, clsBytes(scope));
    if (!s.live.count({r, o})) fault(s, "destruction of an object of " + scope + " that is not alive (" + s.rg[r]->name + "+" + std::to_string(o) + " is " + t + ")");
    s.live.erase({r, o}); noteWrite(s, r); json::Object e{{"k", "dtor"}, {"cls", scope}, {"at", render(s, args[0])}, {"tok", t}}; event(s, std::move(e));
    setPayload(s, r, o, fresh(s, "?dead"), clsBytes(scope) * 8); done(std::move(s), -1); return;
  }
  if (isCtor || last == "operator=") {
    int r; int64_t o; if (!derefp(s, args[0], r, o, isCtor ? "construct" : "assign")) { exitWith(std::move(s), "fault"); return; }
    vector<string> ats = splitArgs(at); vector<int> rest(args.begin() + 1, args.end());
    json::Object e; e["cls"] = scope; e["at"] = render(s, args[0]); string kind;
    if (ats.size() == 1) { bool l, rr, c; string t = stripRef(ats[0], l, rr, c); kind = t == scope ? (rr ? "move" : "copy") : (rr ? "convmove" : (l ? "convcopy" : "value")); if (t == scope && l && !c) kind = "copy_nonconst"; if (t == scope && rr && c) kind = "move_const"; } else kind = ats.empty() ? "default" : "args";
    e["k"] = isCtor ? "ctor" : "assign"; e["kind"] = kind;
    string tok;
    if (isCtor) { if (s.live.count({r, o}) && clsFlag(scope, "dtor")) fault(s, "construction of " + scope + " over a live object (" + s.rg[r]->name + "+" + std::to_string(o) + ")"); }
    else { e["old"] = readObj(s, r, o, scope, "assignment to"); }
    State before = s;
    if (canThrow) {
      State t = s; string tk; json::Object e2 = e; { State probe = t; applyTransfer(probe, r, o, 0, ats, rest, scope, isCtor ? "construction from" : "assignment from", tk, e2); }
      e2["threw"] = true; event(t, std::move(e2)); noteWrite(t, r);
      if (isCtor) { setPayload(t, r, o, fresh(t, "?partial"), clsBytes(scope) * 8); t.live.erase({r, o}); } else setPayload(t, r, o, fresh(t, "half_assigned"), clsBytes(scope) * 8);
      throwFrom(std::move(t), isCtor ? scope + "::" + last : scope + "::operator=");
    }
    bool selfMove = false;
    applyTransfer(s, r, o, 0, ats, rest, scope, isCtor ? "construction from" : "assignment from", tok, e); (void)selfMove;
    if (ats.empty()) tok = "default"; else if (ats.size() > 1 || kind == "value") tok = scope + "(" + tok + ")";
    e["new"] = tok; event(s, std::move(e)); noteWrite(s, r);
    setPayload(s, r, o, tok.empty() ? fresh(s, "new") : tok, clsBytes(scope) * 8); if (isCtor) s.live[{r, o}] = scope;
    done(std::move(s), cb->getType()->isVoidTy() ? -1 : args[0]); return;
  }
  // --- generic user function / callback
  {
    json::Object e{{"k", "call"}}; e["fn"] = d; json::Array as; vector<string> ats = splitArgs(at);
    bool sret = cb->arg_size() && cb->paramHasAttr(0, Attribute::StructRet);
    bool member = !scope.empty() && ats.size() + 1 + (sret ? 1 : 0) == args.size();
    for (size_t i = sret ? 1 : 0; i < args.size(); ++i) {
      json::Object o; o["v"] = render(s, args[i]); const Val v = pool[args[i]]; string ty; size_t ai = i - (sret ? 1 : 0); if (member) ty = ai == 0 ? scope : (ai - 1 < ats.size() ? ats[ai - 1] : ""); else ty = ai < ats.size() ? ats[ai] : "";
      o["type"] = ty;
      if (v.k == VPtr && v.sym < 0 && !s.rg[v.reg]->fn) { bool l, rr, c; string bt = stripRef(ty, l, rr, c); bool isThis = member && ai == 0; if (!isThis && classes.count(bt)) o["tok"] = readObj(s, v.reg, v.off, bt, "use"); else o["tok"] = tokenAt(s, v.reg, v.off, clsBytes(bt)); o["live"] = s.live.count({v.reg, v.off}) != 0; if (isThis) o["this"] = true; }
      as.push_back(std::move(o));
    }
    e["args"] = std::move(as); string rn = fresh(s, "ret:" + (scope.empty() ? last : scope + "::" + last));
    if (canThrow) { State t = s; json::Object e2 = e; e2["threw"] = true; event(t, std::move(e2)); throwFrom(std::move(t), scope.empty() ? last : scope + "::" + last); }
    // callbacks may modify objects passed by non-const reference
    for (size_t i = sret ? 1 : 0; i < args.size(); ++i) { size_t ai = i - (sret ? 1 : 0); string ty = member ? (ai == 0 ? "" : (ai - 1 < ats.size() ? ats[ai - 1] : "")) : (ai < ats.size() ? ats[ai] : ""); bool l, rr, c; string bt = stripRef(ty, l, rr, c); const Val v = pool[args[i]];
      if ((l || rr) && !c && classes.count(bt) && v.k == VPtr && v.sym < 0) { string ot = tokenAt(s, v.reg, v.off, clsBytes(bt)); setPayload(s, v.reg, v.off, (rr ? "consumed(" : "modified(") + ot + ")", clsBytes(bt) * 8); noteWrite(s, v.reg); } }
    Type* rt = cb->getType();
    if (sret) {
      int r; int64_t o; if (!derefp(s, args[0], r, o, "return slot")) { exitWith(std::move(s), "fault"); return; }
      Type* t = cb->getParamStructRetType(0); string cn = isa<StructType>(t) && !cast<StructType>(t)->isLiteral() ? cast<StructType>(t)->getName().str() : ""; size_t p = cn.find('.'); if (p != string::npos) cn = cn.substr(p + 1);
      if (!classes.count(cn)) die("user function returns unmodelled class " + cn + " in " + d);
      setPayload(s, r, o, rn, clsBytes(cn) * 8); s.live[{r, o}] = cn; e["ret"] = rn; event(s, std::move(e)); noteWrite(s, r); done(std::move(s), -1); return;
    }
    if (rt->isVoidTy()) { event(s, std::move(e)); done(std::move(s), -1); return; }
    if (rt->isIntegerTy(1)) { State n = s; json::Object e2 = e; e["ret"] = "1"; e2["ret"] = "0"; event(s, std::move(e)); event(n, std::move(e2)); done(std::move(s), mkInt(1, 1)); done(std::move(n), mkInt(1, 0)); return; }
    if (rt->isPointerTy()) { e["ret"] = "&" + rn; event(s, std::move(e)); int r = newRegion(s, rn, 8); wr(s, r).lazy = true; setPayload(s, r, 0, "V(" + rn + ")"); done(std::move(s), mkPtr(r, 0)); return; }
    if (rt->isStructTy()) { Val a; a.k = VAgg; e["ret"] = rn; event(s, std::move(e)); for (unsigned i = 0; i < rt->getStructNumElements(); ++i) { unsigned w = (unsigned)DL->getTypeSizeInBits(rt->getStructElementType(i)); a.el.push_back(mkSym(getSym(rn + "." + std::to_string(i), w), w)); } done(std::move(s), mk(a)); return; }
    unsigned w = (unsigned)DL->getTypeSizeInBits(rt); e["ret"] = rn; event(s, std::move(e)); done(std::move(s), mkSym(getSym(rn, w), w)); return;
  }
}

static void doMemcpy(State& s, int dst, int src, uint64_t n) {
  if (!n) return; int dr, sr; int64_t dO, so; if (!derefp(s, dst, dr, dO, "write") || !derefp(s, src, sr, so, "read")) return;
  if (s.rg[sr]->lazy && so + (int64_t)n > s.rg[sr]->size) { Region& R = wr(s, sr); R.size = so + (int64_t)n; R.b.resize(R.size); }
  if (so < 0 || so + (int64_t)n > s.rg[sr]->size) { fault(s, "out-of-bounds read in block copy from " + s.rg[sr]->name); return; }
  if (s.rg[dr]->lazy && dO + (int64_t)n > s.rg[dr]->size) { Region& R = wr(s, dr); R.size = dO + (int64_t)n; R.b.resize(R.size); }
  if (dO < 0 || dO + (int64_t)n > s.rg[dr]->size) { fault(s, "out-of-bounds write in block copy to " + s.rg[dr]->name); return; }
  if (s.rg[sr]->lazy) { // materialise uninitialised lazy words
    for (uint64_t i = 0; i + 8 <= n && (so + i) % 8 == 0; i += 8) { bool un = true; for (int j = 0; j < 8; ++j) if (s.rg[sr]->b[so + i + j].v >= 0) un = false; if (un) loadVal(s, sr, so + (int64_t)i, 64, 8, false); }
  }
  if (dr == sr && dO == so) return;
  noteWrite(s, dr);
  vector<B> tmp(s.rg[sr]->b.begin() + so, s.rg[sr]->b.begin() + so + (int64_t)n); Region& D = wr(s, dr); std::copy(tmp.begin(), tmp.end(), D.b.begin() + dO);
  // typestate: a bitwise copy creates objects only of classes with trivial copy or move construction
  vector<pair<int64_t, string>> add;
  for (auto& l : s.live) if (l.first.first == sr && l.first.second >= so && l.first.second < so + (int64_t)n && clsFlag(l.second, "trivconstruct")) add.push_back({l.first.second - so + dO, l.second});
  for (auto& a : add) s.live[{dr, a.first}] = a.second;
}

// ---------------------------------------------------------------- one step
static void step(State s, Out& out) {
  if (++s.steps > 60000) { fault(s, "loop without a bound on its number of iterations"); s.exitKind = "fault"; out.push_back(std::move(s)); return; }
  Frame& f = s.st.back(); const Instruction* I = &*f.it;
  auto set = [&](int h) { s.st.back().env[I] = h; ++s.st.back().it; };
  switch (I->getOpcode()) {
    case Instruction::Alloca: { auto* a = cast<AllocaInst>(I); uint64_t n = DL->getTypeAllocSize(a->getAllocatedType()); if (a->isArrayAllocation()) { int c = opv(s, a->getArraySize()); if (pool[c].k != VInt) die("dynamic alloca"); n *= pool[c].i.getZExtValue(); }
      int r = newRegion(s, "local:" + (a->hasName() ? a->getName().str() : "tmp") + "@" + std::to_string(s.rg.size()), (int64_t)std::max<uint64_t>(n, 1)); wr(s, r).isLocal = true; s.st.back().locals.push_back(r); set(mkPtr(r, 0)); break; }
    case Instruction::Load: { int p = opv(s, I->getOperand(0)); set(simp0(s, loadTyped(s, p, I->getType()))); break; }
    case Instruction::Store: { int h = opv(s, I->getOperand(0)), p = opv(s, I->getOperand(1)); storeTyped(s, p, h, I->getOperand(0)->getType()); ++s.st.back().it; break; }
    case Instruction::GetElementPtr: { auto* g = cast<GetElementPtrInst>(I); int b = opv(s, g->getPointerOperand()); Val v = pool[b];
      int64_t off = 0; int symIdx = -1; uint64_t scale = 0; Type* cur = g->getSourceElementType(); bool bad = false;
      for (unsigned i = 1; i < g->getNumOperands(); ++i) { int ix = simplify(s, opv(s, g->getOperand(i))); const Val iv = pool[ix]; uint64_t es;
        if (i == 1) es = DL->getTypeAllocSize(cur); else if (auto* st = dyn_cast<StructType>(cur)) { unsigned k = (unsigned)iv.i.getZExtValue(); off += (int64_t)DL->getStructLayout(st)->getElementOffset(k); cur = st->getElementType(k); continue; } else { cur = cur->isArrayTy() ? cur->getArrayElementType() : cast<VectorType>(cur)->getElementType(); es = DL->getTypeAllocSize(cur); }
        if (iv.k == VInt) off += iv.i.getSExtValue() * (int64_t)es; else if (iv.k == VUndef) { bad = true; } else { if (symIdx >= 0) bad = true; symIdx = ix; scale = es; } }
      if (bad) { set(mkUndef(64)); break; }
      if (v.k == VPtr) { v.off += off; if (symIdx >= 0) { string n = render(s, symIdx) + "*" + std::to_string(scale); if (v.sym >= 0) n = syms[v.sym].name + "+" + n; int pv = v.sym; v.sym = getSym(n, 64); geps[v.sym] = {symIdx, scale, pv}; } set(mk(v)); }
      else if (v.k == VInt) { if (symIdx >= 0) set(opaqueTerm(s, "gep", {b, symIdx}, 64)); else set(mkInt(v.i + APInt(v.w, (uint64_t)off, true))); }
      else if (v.k == VSym) { if (symIdx >= 0) set(opaqueTerm(s, "gep", {b, symIdx}, 64)); else set(mkSym(v.sym, v.w, v.add + (uint64_t)off)); }
      else set(mkUndef(64));
      break; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: set(opv(s, I->getOperand(0))); break;
    case Instruction::PtrToInt: { int h = settle(s, opv(s, I->getOperand(0))); h = ptrAsInt(s, h); unsigned w = I->getType()->getIntegerBitWidth(); Val v = pool[h]; if (v.w != w) { if (v.k == VInt) h = mkInt(v.i.zextOrTrunc(w)); else if (v.k == VSym) { v.w = w; v.add &= maskw(w); h = mk(v); } } set(h); break; }
    case Instruction::IntToPtr: { int h = settle(s, opv(s, I->getOperand(0))); Val v = pool[h]; if (v.k == VSym && syms[v.sym].addrOf >= 0 && v.w == 64) h = mkPtr(syms[v.sym].addrOf, (int64_t)v.add); else if (v.k == VInt) h = mkInt(v.i.zextOrTrunc(PTRW)); set(h); break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
      int h = simplify(s, opv(s, I->getOperand(0))); Val v = pool[h]; if (!I->getType()->isIntegerTy()) die("vector cast"); unsigned w = I->getType()->getIntegerBitWidth();
      if (v.k == VPtr) { h = ptrAsInt(s, h); v = pool[h]; }
      if (v.k == VUndef) { set(mkUndef(w)); break; }
      if (v.k == VInt) { set(mkInt(I->getOpcode() == Instruction::Trunc ? v.i.trunc(w) : I->getOpcode() == Instruction::ZExt ? v.i.zext(w) : v.i.sext(w))); break; }
      if (I->getOpcode() == Instruction::Trunc) {
        if (w == 1) { // boolean from a byte
          Ranges r = affRange(s, v);
          if (v.w <= 64 && r.size() && r.back().second <= 1) { decideCmp(s, CmpInst::ICMP_NE, h, mkInt(v.w, 0), [&](State t, int b) { if (b < 0) { fault(t, "branch on uninitialised value"); b = 0; } t.st.back().env[I] = mkInt(1, (uint64_t)b); ++t.st.back().it; out.push_back(std::move(t)); }); return; }
          // general: low bit unknown
          if (syms[v.sym].indet) fault(s, "decision depends on indeterminate storage");
          State t = s; s.st.back().env[I] = mkInt(1, 1); ++s.st.back().it; t.st.back().env[I] = mkInt(1, 0); ++t.st.back().it; out.push_back(std::move(s)); out.push_back(std::move(t)); return;
        }
        if (w <= 64 && v.w <= 64) { v.w = w; v.add &= maskw(w); set(mk(v)); } else set(opaqueTerm(s, "trunc" + std::to_string(w), {h}, w)); break;
      }
      if (w <= 64 && syms[v.sym].w <= 64) {
        u128 mod = (u128)1 << v.w; bool ok = true; bool wrapAll = true; for (auto& p : symRange(s, v.sym)) { u128 lo = (u128)p.first + v.add, hi = (u128)p.second + v.add; if (hi >= mod) ok = false; if (lo < mod || hi >= 2 * mod) wrapAll = false; }
        uint64_t nadd = v.add; if (!ok && wrapAll) { ok = true; nadd = v.add - (uint64_t)mod; }
        if (ok) { bool neg = false; if (I->getOpcode() == Instruction::SExt) { Ranges r = affRange(s, v); uint64_t sb = 1ull << (v.w - 1); bool allp = true, alln = true; for (auto& p : r) { if (p.second >= sb) allp = false; if (p.first < sb) alln = false; } if (!allp && !alln) { if (splitExt(s, v, true, out)) return; set(opaqueTerm(s, "sext" + std::to_string(w), {h}, w)); break; } neg = alln; }
          if (neg) nadd += (uint64_t)(maskw(w) - maskw(v.w));
          set(mkSym(v.sym, w, nadd)); break; }
      }
      if (splitExt(s, v, I->getOpcode() == Instruction::SExt, out)) return;
      { string nm = string(I->getOpcode() == Instruction::ZExt ? "zext" : "sext") + std::to_string(w); int o = opaqueTerm(s, nm, {h}, w); if (v.w <= 64 && w <= 64 && I->getOpcode() == Instruction::ZExt && pool[o].k == VSym) { Ranges r = affRange(s, v); syms[pool[o].sym].r = r; } set(o); }
      break; }
    case Instruction::ICmp: { auto* c = cast<ICmpInst>(I); int a = opv(s, c->getOperand(0)), b = opv(s, c->getOperand(1));
      if (c->getOperand(0)->getType()->isVectorTy()) die("vector compare");
      decideCmp(std::move(s), c->getPredicate(), a, b, [&](State t, int r) { t.st.back().env[I] = r < 0 ? mkUndef(1) : mkInt(1, (uint64_t)r); ++t.st.back().it; out.push_back(std::move(t)); }); return; }
    case Instruction::FCmp: { int a = opv(s, I->getOperand(0)), b = opv(s, I->getOperand(1)); 
      const Val A = pool[a], Bv = pool[b]; string key = string("fcmp ") + predName(cast<FCmpInst>(I)->getPredicate()) + " " + render(s, a) + " " + render(s, b);
      if (A.k == VInt && Bv.k == VInt) { const fltSemantics& fs = I->getOperand(0)->getType()->getFltSemantics(); APFloat x(fs, A.i), y(fs, Bv.i); set(mkInt(1, FCmpInst::compare(x, y, cast<FCmpInst>(I)->getPredicate()))); break; }
      auto it = s.facts.find(key); if (it != s.facts.end()) { set(mkInt(1, it->second)); break; }
      State t = s; s.facts[key] = true; t.facts[key] = false; json::Object e1{{"k", "fork"}, {"cond", key}, {"is", true}}, e2{{"k", "fork"}, {"cond", key}, {"is", false}}; event(s, std::move(e1)); event(t, std::move(e2));
      s.st.back().env[I] = mkInt(1, 1); ++s.st.back().it; t.st.back().env[I] = mkInt(1, 0); ++t.st.back().it; out.push_back(std::move(s)); out.push_back(std::move(t)); return; }
    case Instruction::Br: { auto* b = cast<BranchInst>(I); if (b->isUnconditional()) { f.prev = f.bb; f.bb = b->getSuccessor(0); f.it = f.bb->begin(); break; }
      int c = opv(s, b->getCondition()); if (pool[c].k != VInt) { fault(s, "branch on uninitialised value"); s.exitKind = "fault"; break; }
      f.prev = f.bb; f.bb = b->getSuccessor(pool[c].i == 1 ? 0 : 1); f.it = f.bb->begin(); break; }
    case Instruction::Switch: { auto* sw = cast<SwitchInst>(I); int c = simplify(s, opv(s, sw->getCondition())); const Val v = pool[c];
      if (v.k == VUndef) { fault(s, "branch on uninitialised value"); s.exitKind = "fault"; break; }
      auto go = [&](State&& t, const BasicBlock* d) { Frame& g = t.st.back(); g.prev = g.bb; g.bb = d; g.it = d->begin(); out.push_back(std::move(t)); };
      if (v.k == VInt) { const BasicBlock* d = sw->getDefaultDest(); for (auto& cs : sw->cases()) if (cs.getCaseValue()->getValue() == v.i) d = cs.getCaseSuccessor(); go(std::move(s), d); return; }
      if (v.k == VSym && v.w <= 64) { Ranges rem = affRange(s, v); for (auto& cs : sw->cases()) { uint64_t x = cs.getCaseValue()->getZExtValue(); Ranges y = inter(rem, {{x, x}}); if (!y.empty()) { State t = s; t.ref[v.sym] = preimage(t, v, y); go(std::move(t), cs.getCaseSuccessor()); rem = inter(rem, compl_({{x, x}}, v.w)); } } if (!rem.empty()) { s.ref[v.sym] = preimage(s, v, rem); go(std::move(s), sw->getDefaultDest()); } return; }
      die("switch on pointer"); }
    case Instruction::PHI: { // evaluate all phis of the block at once
      vector<pair<const Instruction*, int>> vals; auto it = f.it; while (auto* p = dyn_cast<PHINode>(&*it)) { vals.push_back({p, opv(s, p->getIncomingValueForBlock(f.prev))}); ++it; } for (auto& v : vals) s.st.back().env[v.first] = v.second; s.st.back().it = it; break; }
    case Instruction::Select: { int c = opv(s, I->getOperand(0)); if (pool[c].k != VInt) { fault(s, "selection on uninitialised value"); set(mkUndef((unsigned)DL->getTypeSizeInBits(I->getType()))); break; } set(opv(s, I->getOperand(pool[c].i == 1 ? 1 : 2))); break; }
    case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(I); int h = opv(s, e->getOperand(0)); for (unsigned ix : e->indices()) { if (pool[h].k != VAgg) { h = mkUndef(64); break; } h = pool[h].el[ix]; } set(h); break; }
    case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(I); int h = opv(s, e->getOperand(0)), x = opv(s, e->getOperand(1)); Val v = pool[h]; if (v.k != VAgg) { v = Val(); v.k = VAgg; v.el.assign(I->getType()->isStructTy() ? I->getType()->getStructNumElements() : I->getType()->getArrayNumElements(), mkUndef(64)); }
      if (e->getNumIndices() != 1) die("nested insertvalue"); v.el[e->getIndices()[0]] = x; set(mk(v)); break; }
    case Instruction::LandingPad: { auto* lp = cast<LandingPadInst>(I); bool any = false; int selv = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); ++i) { if (lp->isCatch(i)) { const Constant* c = lp->getClause(i)->stripPointerCasts(); if (isa<ConstantPointerNull>(c)) { any = true; selv = 1; break; } if (!s.excType.empty() && render(s, constVal(s, c)) == s.excType) { any = true; selv = 100 + (int)i; break; } } else { any = true; selv = -1; break; } }
      if (!any && !lp->isCleanup()) { // not for us
        popFrame(s); unwind(s); break; }
      Val a; a.k = VAgg; a.el = {mkPtr(s.exc, 0), any ? (selv == 1 ? mkInt(32, 1) : mkSym(getSym("selector", 32), 32)) : mkInt(32, 0)}; set(mk(a)); break; }
    case Instruction::Resume: { f.it = f.bb->end(); popFrame(s); unwind(s); break; }
    case Instruction::Unreachable: fault(s, "control reaches a point assumed unreachable"); s.exitKind = "fault"; break;
    case Instruction::Ret: { auto* r = cast<ReturnInst>(I); int h = r->getReturnValue() ? opv(s, r->getReturnValue()) : -1; 
      if (s.st.size() == 1) { s.ret = h; popFrame(s); s.exitKind = "normal"; break; }
      popFrame(s); finishInstr(s, h); break; }
    case Instruction::FNeg: set(opaqueTerm(s, "fneg", {opv(s, I->getOperand(0))}, (unsigned)DL->getTypeSizeInBits(I->getType()))); break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: set(opaqueTerm(s, string("f") + I->getOpcodeName(), {opv(s, I->getOperand(0)), opv(s, I->getOperand(1))}, (unsigned)DL->getTypeSizeInBits(I->getType()))); break;
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: set(opaqueTerm(s, string(I->getOpcodeName()) + std::to_string(DL->getTypeSizeInBits(I->getType())), {opv(s, I->getOperand(0))}, (unsigned)DL->getTypeSizeInBits(I->getType()))); break;
    case Instruction::Call: case Instruction::Invoke: {
      auto* cb = cast<CallBase>(I); const Function* fn = cb->getCalledFunction();
      if (!fn) if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) fn = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
      if (!fn && !cb->isInlineAsm()) { int h = opv(s, cb->getCalledOperand()); if (pool[h].k == VPtr && s.rg[pool[h].reg]->fn) fn = s.rg[pool[h].reg]->fn; else { fault(s, "call through unknown pointer " + render(s, h)); s.exitKind = "fault"; break; } }
      if (!fn) die("inline assembly");
      if (auto id = fn->getIntrinsicID()) {
        switch (id) {
          case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { int n = simplify(s, opv(s, cb->getArgOperand(2))); if (pool[n].k != VInt) die("memcpy of unknown size"); doMemcpy(s, opv(s, cb->getArgOperand(0)), opv(s, cb->getArgOperand(1)), pool[n].i.getZExtValue()); finishInstr(s, -1); out.push_back(std::move(s)); return; }
          case Intrinsic::memset: { int n = simplify(s, opv(s, cb->getArgOperand(2))); int v = opv(s, cb->getArgOperand(1)); int r; int64_t o; if (pool[n].k != VInt) die("memset of unknown size"); uint64_t sz = pool[n].i.getZExtValue(); if (sz && derefp(s, opv(s, cb->getArgOperand(0)), r, o, "write")) { noteWrite(s, r); for (uint64_t i = 0; i < sz; ++i) storeVal(s, r, o + (int64_t)i, v, 1); } finishInstr(s, -1); out.push_back(std::move(s)); return; }
          case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: event(s, json::Object{{"k", "trap"}}); if (id == Intrinsic::debugtrap) { s.exitKind = "trap"; out.push_back(std::move(s)); return; } s.exitKind = "trap"; out.push_back(std::move(s)); return;
          case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect_with_probability: case Intrinsic::ptr_annotation: finishInstr(s, opv(s, cb->getArgOperand(0))); out.push_back(std::move(s)); return;
          case Intrinsic::assume: { int c = opv(s, cb->getArgOperand(0)); if (pool[c].k == VInt && pool[c].i == 0) fault(s, "assumption that does not hold"); finishInstr(s, -1); out.push_back(std::move(s)); return; }
          case Intrinsic::eh_typeid_for: { int h = opv(s, cb->getArgOperand(0)); bool m = !s.excType.empty() && render(s, h) == s.excType; finishInstr(s, m ? mkSym(getSym("selector", 32), 32) : mkInt(32, 77)); out.push_back(std::move(s)); return; }
          case Intrinsic::is_constant: finishInstr(s, mkInt(1, 0)); out.push_back(std::move(s)); return;
          case Intrinsic::objectsize: finishInstr(s, mkInt(64, ~0ull)); out.push_back(std::move(s)); return;
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: finishInstr(s, -1); out.push_back(std::move(s)); return;
          default: { vector<int> a; for (auto& x : cb->args()) a.push_back(opv(s, x)); if (cb->getType()->isVoidTy()) die("intrinsic " + fn->getName().str()); finishInstr(s, opaqueTerm(s, fn->getName().str(), a, (unsigned)DL->getTypeSizeInBits(cb->getType()))); out.push_back(std::move(s)); return; }
        }
      }
      vector<int> a; for (auto& x : cb->args()) a.push_back(simplify(s, opv(s, x)));
      string nm = fn->getName().str();
      if ((nm == "memcpy" || nm == "memmove") && fn->isDeclaration()) { if (pool[a[2]].k != VInt) die("memcpy size"); doMemcpy(s, a[0], a[1], pool[a[2]].i.getZExtValue()); finishInstr(s, a[0]); out.push_back(std::move(s)); return; }
      if (nm == "__clang_call_terminate") { callOpaque(std::move(s), cb, fn, a, out); return; }
      if (!fn->isDeclaration()) { pushCall(s, fn, a, cb); out.push_back(std::move(s)); return; }
      callOpaque(std::move(s), cb, fn, a, out); return; }
    default:
      if (I->isBinaryOp()) { int a = opv(s, I->getOperand(0)), b = opv(s, I->getOperand(1)); unsigned w = (unsigned)DL->getTypeSizeInBits(I->getType()); checkNsw(s, I, a, b, w); set(binop(s, I->getOpcode(), a, b, w)); break; }
      { string t; raw_string_ostream os(t); I->print(os); die("unsupported instruction " + t + " in " + dem(f.f)); }
  }
  out.push_back(std::move(s));
}

// ---------------------------------------------------------------- images (abstract object states)
struct Chunk { int64_t off, len; string kind; uint64_t val; Ranges r; };
struct Image { vector<Chunk> c; vector<pair<int64_t, string>> live; int64_t size; string key, origin; };
static map<string, vector<Image>> sets;
static Image makeImage(State& s, int reg) {
  Image im; const Region& R = *s.rg[reg]; im.size = R.size;
  for (int64_t i = 0; i < R.size;) {
    Chunk c; c.off = i; c.val = 0; int v = R.b[i].v;
    if (v < 0) { c.len = 1; c.kind = "undef"; im.c.push_back(c); ++i; continue; }
    int64_t n = 1; while (i + n < R.size && R.b[i + n].v == v && R.b[i + n].idx == R.b[i].idx + n) ++n;
    const Val x = pool[v]; c.len = n;
    if (x.k == VInt) { c.len = n = 1; c.kind = "int"; c.val = x.i.lshr(R.b[i].idx * 8 < x.w ? R.b[i].idx * 8 : 0).zextOrTrunc(8).getZExtValue(); }
    else if (x.k == VPtr) { c.kind = x.reg == reg ? "selfptr" : "ref"; c.val = x.reg == reg ? (uint64_t)x.off : 0; if (n != 8) c.kind = "indet"; if (c.kind == "ref" && x.sym < 0) { // null-like integers were handled above
      } }
    else if (x.k == VSym) {
      if (syms[x.sym].indet || R.b[i].idx != 0 || (uint64_t)n * 8 < x.w) c.kind = "indet";
      else if (syms[x.sym].level >= 0) { c.kind = "lvl"; const Val l = pool[syms[x.sym].level]; if (l.k != VInt) c.kind = "lvlsym"; else c.val = l.i.getZExtValue(); }
      else { c.kind = "content"; c.r = affRange(s, x); }
    } else c.kind = "indet";
    im.c.push_back(c); i += n;
  }
  for (auto& l : s.live) if (l.first.first == reg && clsFlag(l.second, "dtor")) im.live.push_back({l.first.second, l.second});
  string k; for (auto& c : im.c) { k += std::to_string(c.off) + ":" + c.kind + "/" + std::to_string(c.len) + "=" + std::to_string(c.val); for (auto& p : c.r) k += "[" + hex(p.first) + "," + hex(p.second) + "]"; k += ";"; }
  for (auto& l : im.live) k += "live " + l.second + "@" + std::to_string(l.first) + ";"; im.key = k; return im;
}
static void instImage(State& s, int reg, const Image& im, const string& name) {
  for (auto& c : im.c) {
    if (c.kind == "undef") continue;
    if (c.kind == "int") storeVal(s, reg, c.off, mkInt(8, c.val), 1);
    else if (c.kind == "selfptr") storeVal(s, reg, c.off, mkPtr(reg, (int64_t)c.val), 8);
    else if (c.kind == "ref") { int r = newRegion(s, name + ".ref", 8); wr(s, r).isParam = true; wr(s, r).lazy = true; setPayload(s, r, 0, "V(" + name + ".ref)"); s.live[{r, 0}] = "P"; storeVal(s, reg, c.off, mkPtr(r, 0), 8); }
    else if (c.kind == "lvl" || c.kind == "lvlsym") { int lv = c.kind == "lvl" ? mkInt(64, c.val) : mkSym(getSym("anylevel", 64), 64); int sy = getSym("LVL(" + render(s, lv) + ")", (unsigned)c.len * 8); syms[sy].level = lv; storeVal(s, reg, c.off, mkSym(sy, (unsigned)c.len * 8), (uint64_t)c.len); }
    else if (c.kind == "indet") storeVal(s, reg, c.off, mkSym(getSym("?indet(" + name + "+" + std::to_string(c.off) + ")", (unsigned)c.len * 8), (unsigned)c.len * 8), (uint64_t)c.len);
    else { int sy = getSym("V(" + name + (c.off ? "+" + std::to_string(c.off) : "") + ")", (unsigned)c.len * 8); s.ref[sy] = c.r; storeVal(s, reg, c.off, mkSym(sy, (unsigned)c.len * 8), (uint64_t)c.len); }
  }
  for (auto& l : im.live) s.live[{reg, l.first}] = l.second;
}

// ---------------------------------------------------------------- scenarios
static Ranges parseRanges(const json::Array* a, unsigned w) { // bounds are read modulo 2^w: a range of signed values that contains -1 and 0 wraps around
  Ranges r; if (a) for (auto& x : *a) { auto* p = x.getAsArray(); uint64_t lo = std::stoull((*p)[0].getAsString()->str(), nullptr, 0), hi = std::stoull((*p)[1].getAsString()->str(), nullptr, 0); lo &= maskw(w); hi &= maskw(w); if (lo <= hi) r.push_back({lo, hi}); else { r.push_back({0, hi}); r.push_back({lo, maskw(w)}); } }
  return norm(r); }
static long totalStates = 0, totalOutcomes = 0, totalFns = 0; static std::set<const Function*> visited;
static bool addImage(const string& set, Image im, const string& origin) { auto& v = sets[set]; for (auto& x : v) if (x.key == im.key) return false; im.origin = origin; if (v.size() > 200) die("image set " + set + " does not converge"); v.push_back(im); return true; }

static void explore(State init, vector<State>& finals) {
  vector<State> work; work.push_back(std::move(init)); long n = 0;
  while (!work.empty()) {
    State s = std::move(work.back()); work.pop_back();
    if (!s.exitKind.empty()) { finals.push_back(std::move(s)); continue; }
    visited.insert(s.st.back().f);
    Out o; step(std::move(s), o); ++n; if (o.size() > 1) totalStates += (long)o.size();
    if (n > 30000000 || work.size() > 100000) die("state explosion");
    for (auto& x : o) work.push_back(std::move(x));
  }
}

static json::Value runScenario(const json::Object& sc, const vector<int>& pick, bool& changed, const string& scName) {
  const string fn = sc.getString("fn")->str(); const Function* F = M->getFunction(fn); if (!F || F->isDeclaration()) die("entry function missing: " + fn);
  State s0; const json::Array* ps = sc.getArray("params"); vector<int> args; map<string, int> regOf; size_t pi = 0; json::Object pre;
  auto symv = [&](const string& n, unsigned w, const json::Array* r) { int sy = getSym(n, w); if (r && !r->empty()) s0.ref[sy] = parseRanges(r, w); return mkSym(sy, w); };
  for (auto& pv : *ps) {
    const json::Object& p = *pv.getAsObject(); string name = p.getString("name")->str(), kind = p.getString("kind")->str();
    bool cst = p.getBoolean("const").value_or(false);
    if (kind == "image") { const Image& im = sets[p.getString("set")->str()][pick[pi]]; int r = newRegion(s0, name, im.size); wr(s0, r).isParam = true; wr(s0, r).cst = cst; instImage(s0, r, im, name); regOf[name] = r; args.push_back(mkPtr(r, 0)); pre[name] = pick[pi]; ++pi; }
    else if (kind == "obj") { string cls = p.getString("cls")->str(); unsigned sz = clsBytes(cls); int64_t full = sz;
      if (auto g = p.getString("sizesym")) if (auto* gv = M->getNamedGlobal(*g)) if (gv->hasInitializer()) full = std::max<int64_t>(full, (int64_t)cast<ConstantInt>(gv->getInitializer())->getZExtValue());
      int r = newRegion(s0, name, full); wr(s0, r).isParam = true; setPayload(s0, r, 0, "V(" + name + ")", sz * 8); s0.live[{r, 0}] = cls; regOf[name] = r; args.push_back(mkPtr(r, 0)); }
    else if (kind == "raw") { int64_t rsz = 0; if (auto g = p.getString("sizesym")) { auto* gv = M->getNamedGlobal(*g); if (!gv || !gv->hasInitializer()) die("size symbol missing: " + g->str()); rsz = (int64_t)cast<ConstantInt>(gv->getInitializer())->getZExtValue(); } else rsz = *p.getInteger("size"); int r = newRegion(s0, name, rsz); wr(s0, r).isParam = true; regOf[name] = r; args.push_back(mkPtr(r, 0)); }
    else if (kind == "lazy") { int r = newRegion(s0, name, 8); wr(s0, r).isParam = true; wr(s0, r).lazy = true; regOf[name] = r; args.push_back(mkPtr(r, 0)); }
    else if (kind == "alias") { string of = p.getString("of")->str(); int64_t o = p.getInteger("off").value_or(0); args.push_back(mkPtr(regOf[of], o)); }
    else if (kind == "null") args.push_back(mkInt(PTRW, 0));
    else if (kind == "int") { unsigned w = (unsigned)*p.getInteger("width"); if (auto v = p.getString("value")) args.push_back(mkInt(w, std::stoull(v->str(), nullptr, 0))); else args.push_back(symv(name, w, p.getArray("ranges"))); }
    else if (kind == "bytes") { int r = newRegion(s0, name, *p.getInteger("size")); wr(s0, r).isParam = true; regOf[name] = r;
      if (auto* in = p.getArray("init")) for (auto& iv : *in) { const json::Object& o = *iv.getAsObject(); int64_t off = *o.getInteger("off"); int64_t sz = *o.getInteger("size"); if (auto v = o.getString("value")) storeVal(s0, r, off, mkInt((unsigned)sz * 8, std::stoull(v->str(), nullptr, 0)), (uint64_t)sz); else if (auto t = o.getString("addr")) { int x; if (*t == "self") x = mkPtr(r, o.getInteger("addroff").value_or(0)); else { int rr = newRegion(s0, t->str(), 64); wr(s0, rr).lazy = true; wr(s0, rr).isParam = true; x = mkPtr(rr, 0); } storeVal(s0, r, off, x, 8); } else storeVal(s0, r, off, symv(o.getString("sym")->str(), (unsigned)sz * 8, o.getArray("ranges")), (uint64_t)sz); }
      args.push_back(mkPtr(r, 0)); }
    else die("param kind " + kind);
  }
  if (args.size() != F->arg_size()) die("arity mismatch for " + fn + ": config " + std::to_string(args.size()) + " function " + std::to_string(F->arg_size()));
  // sub-scenario functions: main then observers
  vector<State> fin; { State s = s0; Frame fr; pushCall(s, F, args, nullptr); explore(std::move(s), fin); }
  json::Array outs; std::set<string> seen;
  const json::Array* obs = sc.getArray("observe");
  for (auto& f : fin) {
    ++totalOutcomes;
    f.mainExit = f.exitKind; f.mainRet = f.ret;
    vector<State> cur; cur.push_back(f);
    if (obs && (f.mainExit == "normal" || f.mainExit == "unwind")) for (auto& ov : *obs) {
      const json::Object& o = *ov.getAsObject(); if (o.getBoolean("normal_only").value_or(false) && f.mainExit != "normal") continue;
      const Function* OF = M->getFunction(*o.getString("fn")); if (!OF) die("observer missing " + o.getString("fn")->str());
      vector<State> nx; for (auto& c : cur) { if (c.exitKind == "fault") { nx.push_back(c); continue; } State t = c; t.exitKind = ""; t.post = true; t.st.clear(); t.exc = -1; vector<int> oa{mkPtr(regOf[o.getString("param")->str()], 0)}; if (OF->arg_size() == 2) oa.push_back(mkInt(32, (uint64_t)o.getInteger("id").value_or(0))); pushCall(t, OF, oa, nullptr); explore(std::move(t), nx); }
      cur = std::move(nx);
    }
    for (auto& c : cur) {
      json::Object o; o["exit"] = f.mainExit; if (f.mainRet >= 0) { o["ret"] = render(c, f.mainRet); const Val rv = pool[f.mainRet]; if (rv.k == VPtr && rv.sym < 0) { o["ret_live"] = c.live.count({rv.reg, rv.off}) != 0; o["ret_tok"] = tokenAt(c, rv.reg, rv.off, 8); } if (rv.k == VSym && rv.w <= 64) { json::Array ra; for (auto& p : affRange(c, rv)) ra.push_back(json::Array{hex(p.first), hex(p.second)}); o["ret_range"] = std::move(ra); o["ret_base"] = syms[rv.sym].name; o["ret_add"] = hex(rv.add); } }
      if (c.post && c.exitKind != "normal") o["observer_exit"] = c.exitKind;
      if (f.mainExit == "unwind") { o["exc"] = f.exc >= 0 ? c.rg[f.exc]->name : ""; o["exc_type"] = f.excType; }
      json::Array ev; for (auto& e : c.ev) ev.push_back(*e); o["ev"] = std::move(ev); json::Array fa; for (auto& x : c.faults) fa.push_back(x); o["faults"] = std::move(fa);
      json::Array w; for (auto& x : c.writes) w.push_back(x); o["writes"] = std::move(w);
      json::Object mem; for (auto& r : regOf) { json::Object ro; json::Array lv; for (auto& l : c.live) if (l.first.first == r.second) lv.push_back(json::Array{l.first.second, l.second}); ro["live"] = std::move(lv);
        json::Array by; const Region& R = *c.rg[r.second]; for (int64_t i = 0; i < R.size && i < 256;) { int v = R.b[i].v; if (v < 0) { ++i; continue; } int64_t n = 1; while (i + n < R.size && R.b[i + n].v == v && R.b[i + n].idx == R.b[i].idx + n) ++n; 
          if (pool[v].k == VInt) { // merge concrete bytes
            int64_t m = 0; string hx; while (i + m < R.size && m < 16 && R.b[i + m].v >= 0 && pool[R.b[i + m].v].k == VInt) { const Val& x = pool[R.b[i + m].v]; char bf[4]; snprintf(bf, 4, "%02x", (unsigned)x.i.lshr(R.b[i + m].idx * 8 < x.w ? R.b[i + m].idx * 8 : 0).zextOrTrunc(8).getZExtValue()); hx = bf + hx; ++m; } by.push_back(json::Array{i, m, "0x" + hx}); i += m; continue; }
          json::Array ent{i, n, render(c, v)}; if (pool[v].k == VSym && pool[v].w <= 64) { json::Array ra; for (auto& p : affRange(c, pool[v])) ra.push_back(json::Array{hex(p.first), hex(p.second)}); ent.push_back(std::move(ra)); } by.push_back(std::move(ent)); i += n; }
        ro["bytes"] = std::move(by); mem[r.first] = std::move(ro); }
      o["mem"] = std::move(mem);
      json::Object rr; for (auto& x : c.ref) { json::Array ra; for (auto& p : x.second) ra.push_back(json::Array{hex(p.first), hex(p.second)}); rr[syms[x.first].name] = std::move(ra); } o["refined"] = std::move(rr);
      string key; { raw_string_ostream os(key); os << json::Value(json::Object(o)); } if (!seen.insert(key).second) continue;
      outs.push_back(std::move(o));
    }
    // collect images
    for (auto& pv : *ps) { const json::Object& p = *pv.getAsObject(); string kind = p.getString("kind")->str(); string name = p.getString("name")->str(); auto col = p.getString("collect"); if (!col) continue; if (kind == "raw" && f.mainExit != "normal") continue; if (f.mainExit != "normal" && f.mainExit != "unwind") continue; State t = f; changed |= addImage(col->str(), makeImage(t, regOf[name]), scName + "/" + f.mainExit); }
  }
  json::Object res; res["scenario"] = scName; res["pre"] = std::move(pre); res["outcomes"] = std::move(outs); return res;
}

int main(int argc, char** argv) {
  if (argc != 3) { errs() << "usage: irflow module.bc config.json\n"; return 2; }
  SMDiagnostic err; M = parseIRFile(argv[1], err, Ctx); if (!M) { err.print("irflow", errs()); return 3; } DL = &M->getDataLayout(); PTRW = DL->getPointerSizeInBits();
  auto buf = MemoryBuffer::getFile(argv[2]); if (!buf) die("config"); auto jv = json::parse((*buf)->getBuffer()); if (!jv) die("config parse " + toString(jv.takeError()));
  conf = *jv->getAsObject();
  if (auto* c = conf.getObject("classes")) for (auto& x : *c) classes[x.first.str()] = *x.second.getAsObject();
  if (auto* c = conf.getArray("payload_range")) payloadRange = {{(uint64_t)*(*c)[0].getAsInteger(), (uint64_t)*(*c)[1].getAsInteger()}};
  const json::Array* scs = conf.getArray("scenarios"); json::Array results; std::set<string> done; bool changed = true; int rounds = 0;
  while (changed) {
    changed = false; if (++rounds > 60) die("fixpoint does not converge");
    for (auto& sv : *scs) {
      const json::Object& sc = *sv.getAsObject(); string name = sc.getString("name")->str(); vector<string> isets; for (auto& pv : *sc.getArray("params")) { auto& p = *pv.getAsObject(); if (*p.getString("kind") == "image") isets.push_back(p.getString("set")->str()); }
      vector<int> pick(isets.size(), 0); bool any = true; for (auto& st : isets) if (sets[st].empty()) any = false; if (!any) continue;
      while (true) {
        string key = name; for (int x : pick) key += "," + std::to_string(x);
        if (done.insert(key).second) results.push_back(runScenario(sc, pick, changed, name));
        size_t i = 0; for (; i < pick.size(); ++i) { if (++pick[i] < (int)sets[isets[i]].size()) break; pick[i] = 0; } if (i == pick.size()) break;
      }
    }
  }
  json::Object out; out["results"] = std::move(results); json::Object im; for (auto& st : sets) { json::Array a; for (auto& x : st.second) { json::Array lv; for (auto& l : x.live) lv.push_back(json::Array{l.first, l.second}); a.push_back(json::Object{{"key", x.key}, {"origin", x.origin}, {"size", x.size}, {"live", std::move(lv)}}); } im[st.first] = std::move(a); } out["images"] = std::move(im);
  json::Array fns; for (auto* f : visited) if (!f->isDeclaration()) fns.push_back(dem(f)); 
  json::Array pure; for (auto& f : *M) { if (f.isDeclaration()) continue; if (f.onlyReadsMemory()) pure.push_back(f.getName().str()); }
  out["stats"] = json::Object{{"rounds", rounds}, {"outcomes", totalOutcomes}, {"branching_states", totalStates}, {"functions", (int64_t)visited.size()}}; out["functions"] = std::move(fns);
  outs() << json::Value(std::move(out)) << "\n"; outs().flush(); (void)M.release(); _exit(0);
}
