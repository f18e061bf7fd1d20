#pragma once
#include "machine.h"
// IEEE comparison as exact bit-vector formulas (signalling behaviour not modelled)
V fIsNaN(V a); V fcmpEq(V a, V b); V fcmpLt(V a, V b);
// conversions: uninterpreted (shared by specification and machine); w = integer width
V fcvtToInt(V a, unsigned w, bool sgn); V fcvtFromInt(V a, unsigned fw, bool sgn);
V fInRange(V a, unsigned iw); // value truncates to a signed iw-bit integer
Machine* mkRiscV(Engine& e); Machine* mkX86(Engine& e); Machine* mkA64(Engine& e); Machine* mkArm(Engine& e); Machine* mkThumb(Engine& e);
Machine* mkMips(Engine& e); Machine* mkPpc(Engine& e); Machine* mkS390(Engine& e); Machine* mkLoong(Engine& e);
