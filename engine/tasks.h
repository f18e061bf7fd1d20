#pragma once
#include "lir.h"
typedef std::vector<Task> Tasks;
struct Env { int scr = 6, sav = 5, fscr = 0, fsav = 0, local = 64, opts = 0, vscr = 0; };
typedef std::function<Prog(Ctx&)> ProgFn;
void autoTypes(Ctx& c, const Prog& p);
Task segTask(const std::string& id, ProgFn f, Env e = Env(), unsigned maxPaths = 400);
V sw(const std::string& n);        // symbolic word
V si32(const std::string& n);      // symbolic word that is a sign-extended 32-bit value
Opnd SPM(i64 k); Opnd IMMS(const std::string& n = "imm", int bits = 0); // bits: sign-extended width in the quick tier, 0 = full word
extern bool THOROUGH; V ssx(const std::string& n, int bits);
typedef std::map<std::string, std::function<void(Tasks&)>> Registry;
Registry& registry();
struct Reg_ { Reg_(const char* p, std::function<void(Tasks&)> f) { registry()[p] = f; } };
// feature query through the library itself
bool feature(Engine& E, int what);
extern Engine* EP;
