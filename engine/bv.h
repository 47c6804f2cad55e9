#pragma once
#include "vcx.h"
enum class BO { Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr };
enum class CMP { EQ, NE, ULT, ULE, SLT, SLE };
expr toBool(const Bv& b);
Bv fromBool(const expr& b);
expr bnot(const expr& b);
expr band(const expr& a, const expr& b);
expr bor(const expr& a, const expr& b);
Bv bvAdd(const Bv& a, const Bv& b);
Bv bvSub(const Bv& a, const Bv& b);
Bv bvBin(BO op, const Bv& a, const Bv& b);
expr bvCmp(CMP op, const Bv& a, const Bv& b);
Bv bvExtract(const Bv& a, unsigned hi, unsigned lo);
Bv bvZext(const Bv& a, unsigned w);
Bv bvSext(const Bv& a, unsigned w);
Bv bvConcat(const Bv& hi, const Bv& lo);
Bv bvIte(const expr& c, const Bv& a, const Bv& b);
