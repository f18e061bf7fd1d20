// Whole functions: generated code run from its entry to its return, against an expected effect on memory and the platform's calling convention
#pragma once
#include "tasks.h"
struct ALoc { char k; int idx; i64 ofs; int type; }; // 'r' integer register, 'f' float register, 's' stack word at (sp at the call instruction) + ofs
std::vector<ALoc> abiLocs(int argTypes);
static const u64 INB = 0x60001000, OUTB = 0x60002000, RETADDR = 0x44000000;
struct WStub { u64 addr; int at; bool regArg = false; std::vector<V> args; V ret; bool tail = false; std::string name; std::function<void()> hook; V sym; };
struct WF {
  Ctx& c; Engine& E; std::map<u64,V> exp; std::vector<WStub> stubs; size_t nextStub = 0; bool tailed = false; u64 maxSteps = 4000; 
  V entR[40], entF[40]; u64 spEntry = 0; bool ended = false; std::vector<u64> localA; std::vector<std::string> rl; struct Dyn { std::string s; std::vector<V> v; }; std::vector<Dyn> dyn; int retType = 0; V retV; bool regArgFn = false; int keep = 0; std::map<u64,V> preset; std::vector<std::string> pre; V codePtr; std::set<int> destroyed; bool checkAbi = true;
  WF(Ctx& cc) : c(cc), E(cc.E) {}
  V memInit(u64 a, unsigned n);
  V inW(int k) { return memInit(INB + 16 * k, AI.xl / 8); } V in(int k, unsigned n) { return memInit(INB + 16 * k, n); }
  void out(int k, V v, unsigned n) { expect(OUTB + 16 * k, v, n); }
  void expect(u64 a, V v, unsigned n);
  Opnd IN(int k) { return MEM0(cw(INB + 16 * k)); } Opnd OUT(int k) { return MEM0(cw(OUTB + 16 * k)); }
  void ld(int reg, int k) { c.emit({L_OP1, K.c_MOV, REG(reg), IN(k)}); } void ldf(int fr, int k, bool d = true) { c.emit({L_FOP1, d ? K.c_MOV_F64 : K.c_MOV_F32, REG(fr), IN(k)}); }
  void st(int k, Opnd o, V e) { c.emit({L_OP1, K.c_MOV, OUT(k), o}); out(k, e, AI.xl / 8); }
  void st32(int k, Opnd o, V e) { c.emit({L_OP1, K.c_MOV32, OUT(k), o}); out(k, vtrunc(e, 32), 4); }
  void stf(int k, int fr, bool d, V e) { c.emit({L_FOP1, d ? K.c_MOV_F64 : K.c_MOV_F32, OUT(k), REG(fr)}); out(k, e, d ? 8 : 4); }
  V argIn(const ALoc& l);              // value of an argument at the entry
  void start(int argTypes, u64 ret = RETADDR);   // machine at the entry, calling convention
  void run(); void finish(); void addReplay();
  void code(u64 lo) { c.codeLo = lo; }
};
u64 jumpAddrOf(Ctx& c, V h); u64 constAddrOf(Ctx& c, V h);
