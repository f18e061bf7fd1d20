// Hash-consed bit-vector terms (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <functional>
#include <stdexcept>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;
typedef u32 T;

enum Op : u8 { O_NONE, O_VAR, O_CONST, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_UF };

struct Node { u8 op, w; u16 aux; T a, b, c; u64 val; u64 kz, ko; }; // val: const / extract lo / var id / uf id

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct V { u64 c; T t; u8 w;
  V() : c(0), t(0), w(0) {}
  V(u64 c_, unsigned w_) : c(c_ & maskw(w_)), t(0), w(w_) {}
  bool conc() const { return t == 0; }
  bool is(u64 x) const { return t == 0 && c == x; } };

struct UFInfo { std::string name; bool commut; std::function<u64(u64,u64,u64)> ev; std::function<u64(u64,u64,u64)> ev2; }; // ev2: concrete meaning used only for replay

// UF identifiers with a fixed concrete meaning are registered through getUF
struct Terms {
  std::vector<Node> n;
  std::vector<std::string> varNames; std::vector<T> varTerm; std::unordered_map<std::string,T> varByName;
  std::vector<UFInfo> ufs; std::map<std::string,u32> ufByName;
  std::vector<u32> tab; u32 tabMask;
  Terms();
  T mk(u8 op, u8 w, u16 aux, T a, T b, T c, u64 val);
  void reset();
  void grow();
  V cnst(u64 v, unsigned w) { return V(v, w); }
  T asT(const V& v) { return v.t ? v.t : mk(O_CONST, v.w, 0, 0, 0, 0, v.c); }
  V fromT(T t) { const Node& x = n[t]; V v; v.w = x.w; if (x.op == O_CONST) { v.c = x.val; v.t = 0; } else { v.t = t; v.c = 0; } return v; }
  u32 uf(const std::string& name, bool commut, std::function<u64(u64,u64,u64)> ev = nullptr);
};
extern Terms TM;

V var(const std::string& name, unsigned w);
V vadd(V a, V b); V vsub(V a, V b); V vmul(V a, V b);
V vudiv(V a, V b); V vsdiv(V a, V b); V vurem(V a, V b); V vsrem(V a, V b);
V vand(V a, V b); V vor(V a, V b); V vxor(V a, V b); V vnot(V a); V vneg(V a);
V vshl(V a, V b); V vlshr(V a, V b); V vashr(V a, V b);
extern std::function<bool(V, V, V&)> veqHook;
V veq(V a, V b); V vult(V a, V b); V vule(V a, V b); V vslt(V a, V b); V vsle(V a, V b);
V vite(V c, V a, V b);
V vconcat(V hi, V lo); V vext(V a, unsigned lo, unsigned w); V vzext(V a, unsigned w); V vsext(V a, unsigned w);
V vuf(u32 id, unsigned w, V a, V b = V(), V c = V());
static inline V vne(V a, V b) { return vnot(veq(a, b)); }
static inline V vbit(V a, unsigned i) { return vext(a, i, 1); }
static inline V vtrunc(V a, unsigned w) { return a.w == w ? a : vext(a, 0, w); }
static inline V vzx(V a, unsigned w) { return a.w == w ? a : a.w > w ? vext(a, 0, w) : vzext(a, w); }
static inline V vsxt(V a, unsigned w) { return a.w == w ? a : a.w > w ? vext(a, 0, w) : vsext(a, w); }
V vrotl(V a, V cnt); // cnt of the same width, any value (taken modulo w)
V vclz(V a); V vctz(V a); V vbswap(V a); V vbitrev(V a); V vpopcnt(V a);
V vmulhu(V a, V b); V vmulhs(V a, V b);
V vrebuild(T t, std::unordered_map<T,V>& memo); // rebuild with replacements already in memo
std::string tstr(T t, int depth = 6);
std::string vstr(const V& v, int depth = 6);
static inline void kbits(const V& v, u64& kz, u64& ko) { if (v.t) { kz = TM.n[v.t].kz; ko = TM.n[v.t].ko; } else { ko = v.c; kz = ~v.c & maskw(v.w); } }

// A model: values of variables and uninterpreted function applications
struct Model {
  std::unordered_map<T,u64> vals;             // var term -> value
  std::map<std::vector<u64>,u64> ufs;         // uf id,args -> value
  std::map<u64,u64> ufElse;                   // uf id -> default value
  std::unordered_map<T,u64> memo;
  bool exact = false; u64 defval = 0; bool randomize = false; u64 rng = 88172645463325252ULL;
  bool shaped = false; u64 rnd() { auto nx = [&] { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }; u64 k = nx(); if (!shaped) return k; u64 r = nx(); switch ((k >> 20) % 9) { case 6: return 1ULL << (r % 64) | 1ULL << (r >> 8) % 64 | (r >> 20 & 3); case 7: return (r & 1) << 63 | (0x3f0ULL + (r >> 1) % 0x60) << 52 | (r & 2 ? r >> 12 : r >> 60 << 48); case 8: return r % 3 ? 0x3f800000ULL + (r >> 2 & 0x87ffffff) : 0x7ff0000000000000ULL | r & 1ULL << 63 | (r >> 5 & 3) << 51; case 0: return r % 4; case 1: return 0 - (r % 4); case 2: return 1ULL << (r % 64); case 3: return r >> (r % 61); case 4: return 0 - (r >> (r % 61)); default: return r; } }
  u64 eval(T t);
  u64 eval(const V& v) { return v.t ? eval(v.t) : v.c; }
};
