#pragma once
enum Op : unsigned {
  OP_CONST, OP_VAR,
  OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR,
  OP_AND, OP_OR, OP_XOR,
  OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE,
  OP_ZEXT, OP_SEXT, OP_EXTRACT, OP_CONCAT, OP_ITE,
  // floating point (IEEE double or real, by mode)
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM, OP_FNEG, OP_FABS, OP_FSQRT,
  OP_FFLOOR, OP_FCEIL, OP_FTRUNC, OP_FROUND, OP_FRINT,
  OP_FOEQ, OP_FOLT, OP_FOLE, OP_FUNO,
  OP_SITOFP, OP_UITOFP, OP_FPTOSI, OP_FPTOUI, OP_BITS, OP_FROMBITS, OP_FPCLASS,
  OP_FMAX, OP_FMIN, OP_COPYSIGN,
  OP_SIN, OP_COS, OP_TAN, OP_EXP, OP_LOG, OP_ASIN, OP_ACOS, OP_ATAN, OP_ATAN2, OP_POW, OP_HYPOT, OP_LOG2,
  OP_LAST
};
enum Intr : unsigned {
  IN_UMAX, IN_UMIN, IN_SMAX, IN_SMIN, IN_ABS, IN_UADDSAT, IN_USUBSAT, IN_CTPOP, IN_BSWAP, IN_CTLZ, IN_CTTZ,
  IN_FSHL, IN_FSHR, IN_UADDO, IN_USUBO, IN_UMULO, IN_SADDO, IN_SSUBO, IN_SMULO
};
