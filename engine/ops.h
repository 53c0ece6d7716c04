#pragma once
enum { OP_CONST=1, OP_VAR, OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_AND, OP_OR, OP_XOR,
  OP_SHL, OP_LSHR, OP_ASHR, OP_EQ, OP_NE, OP_ULT, OP_ULE, OP_SLT, OP_SLE, OP_ZEXT, OP_SEXT, OP_TRUNC,
  OP_EXTRACT /* byte at offset k */, OP_CONCAT, OP_ITE, OP_LUT,
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FNEG, OP_SITOFP, OP_UITOFP, OP_FPTOSI, OP_FPTOUI,
  OP_FCMP=64 /* + llvm FCmp predicate 0..15 */ };
