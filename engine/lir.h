// LIR programs: emission through the public API, specification semantics, comparison against the generated code
#pragma once
#include "isa.h"
#include <memory>
struct Consts {
#define X(n) int c_##n = 0;
#include "consts.def"
#undef X
};
extern Consts K;
struct ArchInfo { std::string name, isa, variant; unsigned xl; bool be; bool sext32; int nReg, nSaved, nFreg, nFsaved, nVreg, nVsaved, wordShift; bool maskedShift, maskedShift32, unaligned, fpuUnaligned; int nScratch, nFscratch; int localsBase; bool f64pair = false; };
extern ArchInfo AI;
extern std::function<Machine*(Engine&)> mkMachine;

enum { ON, OREG, OIMM, OMEM0, OMEM1, OMEM2 };
struct Opnd { int k = ON; int r1 = 0, r2 = 0; V w; };
Opnd R(int i);             // scratch register i
Opnd S(int i);             // saved register i
Opnd REG(int lirno); Opnd FREG(int lirno);
Opnd IMM(V v); Opnd IMM(i64 v); Opnd MEM0(V a); Opnd MEM1(int r, V d); Opnd MEM1(int r, i64 d); Opnd MEM2(int r, int x, int sh);
int rR(int i); int rS(int i); int rFR(int i); int rFS(int i); int rSP();

enum LK { L_OP0, L_OP1, L_OP2, L_OP2U, L_OP2R, L_SHINTO, L_OPFLAGS, L_SELECT, L_CMP, L_JUMP, L_LABEL, L_OP2CMPZ, L_MEM, L_MEMUPD, L_FMEM, L_FMEMUPD,
  L_FOP1, L_FOP2, L_FOP2R, L_FCMP, L_FSET32, L_FSET64, L_FCOPY, L_FSELECT, L_OPSRC, L_LOCALBASE, L_CONST, L_OPADDR, L_ATOMIC_LD, L_ATOMIC_ST, L_IJUMP, L_OPDST, L_FILL, L_CURFL, L_ROBUF, L_SMOV, L_SREPL, L_SLANE, L_SLREPL, L_SEXT, L_SSIGN, L_SOP2 };
struct LI { int k; int op = 0; Opnd d, a, b, c; int type = 0; int lab = -1; int r2 = 0; };
typedef std::vector<LI> Prog;
std::string progStr(const Prog& p);

struct Loc { int kind; int idx; i64 ofs; }; // kind 0 register, 1 stack slot relative to sp
struct Obl { V cond; std::string desc; };
struct Viol { std::string task, desc, replay; bool hasReplay; };
struct TaskStat { std::string id; u64 paths = 0, obl = 0, oblTrivial = 0, machSteps = 0, irInst = 0; bool complete = true; std::string note; u64 infeasible = 0; };

struct SpecState {
  std::vector<V> reg; std::vector<u8> is32;
  std::vector<V> freg; std::vector<u8> f32;
  std::unordered_map<u64,V> stk; UMem um; std::vector<Acc> acc; std::vector<u64> stkW; std::vector<u64> stkR;
  V z; bool zv = false; int vtype = -1; V vc; bool vv = false; 
  unsigned atomSz = 0; std::set<int> undefR; std::map<int, std::vector<V>> vec; // 32 bytes of each vector register, width 0: undefined
};
struct ApiCall { std::string fn; std::vector<V> args; int ret; }; // handles encoded with width 0: c = handle number

struct Ctx {
  Engine& E; std::string taskId; TaskStat st; std::vector<Viol> viols; bool reported = false;
  std::vector<Obl> obls; std::vector<ApiCall> log; std::vector<V> handles; 
  // compile state
  V comp; V code; u64 codeLo = 0, codeSize = 0; std::vector<V> extraReplay;
  std::unique_ptr<Machine> M; SpecState sp;
  std::map<int,Loc> loc; 
  // options for the segment
  int nScr, nSav, nFscr, nFsav, localSize; int enterOpts = 0, nVscr = 0, nVsav = 0; std::vector<u8> reg32, freg32; // initial register types (by LIR number)
  std::map<int,V> initReg, initFreg; // overrides
  std::vector<std::string> replayExtra; u64 labA = 0, labB = 0; V spA; 
  std::map<int,V> init0, finit0; std::vector<int> cmpRegs;
  bool checkFrame = true, checkValues = true; std::vector<V> footprint;
  Ctx(Engine& e) : E(e) {}
  void resetPath();
  V api(const std::string& fn, const std::vector<V>& args);   // logs the call, checks the error code of emit functions
  V apiH(const std::string& fn, const std::vector<V>& args);  // same, returns a handle value
  V HV(V handle);
  void createCompiler(); void enter(int opts, int argTypes, int scr, int sav, int fscr, int fsav, int local);
  void emit(const LI& i); void emitProg(const Prog& p);
  std::map<int,V> labels; std::vector<std::pair<V,int>> pendingJumps; std::map<int,V> labelHandles;
  struct RoB { V lab; int align; int size; }; std::vector<std::pair<V,int>> alignedLabels; std::vector<RoB> roBufs; std::pair<V,V> roFirst; void bindLabel(int n, V l); void checkLayout();
  bool generate();
  u64 labelAddr(V h);
  void setupLocs();
  void machineEntry(u64 ret); void mirror();
  void runSegment(const Prog& p);
  // specification
  void specInit(); void specRun(const Prog& p); 
  V spRd(const Opnd& o, unsigned w, bool sgnRegs = false); V spMemRd(V a, unsigned n); void spMemWr(V a, V v, unsigned n); V spAddr(const Opnd& o); void spWr(const Opnd& o, V v, unsigned w);
  V spRegRaw(int r); bool align = true; unsigned alignOverride = 0;
  bool takeJump = false; i64 localsOff = 0; V spFRd(const Opnd& o, bool d); void spFWr(const Opnd& o, bool d, V v); V fcond(int t, V a, V b); void specOpF(const LI& i); void specOpV(const LI& i); std::vector<V>& spVec(int r); std::vector<V> spVecMem(V a, unsigned n, unsigned al); void spVecSet(int r, std::vector<V> b); 
  void specOp(const LI& i); V cond(int type); void setFlags(int op, V res, V a, V b, V cin, unsigned w);
  void assumeAddr(V a, unsigned n, unsigned al);
  void check(V c, const std::string& d) { obls.push_back({c, d}); }
  void compareStates(const Prog& p);
  void discharge();
  void violation(const std::string& d, V cond); V samplePref();
  std::string replayText(Model& m, bool expect);
  Prog curProg; bool inSpec = false; int phase = 0; std::string replayKind = "segment";
  std::function<std::string(Model&)> customReplay;
  struct { bool fired = false, user = false, dead = false; i64 err = 0; int calls = 0, allocs = 0; u64 size0 = 0; std::string how; int cut = -1, trunc = -1, tail = -1; } gm; V gmApi(const std::string& fn, const std::vector<V>& args); void gmFinish(); void gmUnsupported(); bool gmDead() { return gm.fired; } std::string gmReplay(Model& m);
  struct AV { u64 addr; V handle; bool abs; V mem; int reg; }; std::vector<AV> addrVals; // label addresses taken by the code
  std::shared_ptr<void> keep;
};
typedef std::function<void(Ctx&)> TaskFn;
struct Task { std::string id; TaskFn fn; unsigned maxPaths = 400; };
extern int GMODE; // 0 execute the generated code; 1 code size, bounds and leaks; 2 allocation failures; 3 serialization
struct RunOpts { double deadline; std::string verb; int maxViol = 3; u64 seed = 1; std::string* sample = nullptr; };
void exploreTask(Engine& E, const Task& t, const RunOpts& o, TaskStat& st, std::vector<Viol>& viols);
V cw(i64 v); V c32(i64 v);
