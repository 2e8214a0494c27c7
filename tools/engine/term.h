// Hash-consed 64-bit bit-vector / boolean terms with simplification, intervals,
// concrete evaluation under a model, and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <vector>
#include <string>
#include <unordered_map>
#include <z3.h>
typedef int64_t i64; typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;
typedef __int128 i128;

enum TOp : u8 { T_CONST, T_VAR, T_ADD, T_SUB, T_MUL, T_UDIV, T_UREM, T_SDIV, T_SREM,
  T_AND, T_OR, T_XOR, T_SHL, T_LSHR, T_ASHR, T_ITE, T_SEXT, T_ZEXT,
  // booleans
  B_CONST, B_EQ, B_ULT, B_ULE, B_SLT, B_SLE, B_AND, B_OR, B_NOT, B_ITE, B_MULO,
  // floating point (binary64 held as raw bits)
  T_FADD, T_FSUB, T_FMUL, T_FDIV, T_FSQRT, T_I2F, B_FLT, B_FLE, B_FEQ, T_F2I };

struct Term {
  TOp op; bool ct; u32 id; u32 ctn;      // ct: ITE tree with constant leaves
  u64 k;                                 // constant value / var id / width
  Term *a, *b, *c;
  i64 lo, hi;                            // signed interval (bit-vectors)
  u64 vars;                              // bloom of variables
  Z3_ast z;
  u32 ev; u64 evv;                       // evaluation memo
  bool isBool() const { return (op >= B_CONST && op <= B_MULO) || (op>=B_FLT && op<=B_FEQ); }
  bool isConst() const { return op == T_CONST || op == B_CONST; }
};

struct VarInfo { int width; std::string name; i64 base; Z3_ast z; u64 maxv; int kind; };

extern Z3_context Z;
extern std::vector<VarInfo> gVars;
extern u64 gTermCount;

static const i64 IMIN = INT64_MIN, IMAX = INT64_MAX;

Term* tConst(u64 v);
Term* bConst(bool v);
Term* mk(TOp op, Term* a, Term* b = nullptr, Term* c = nullptr, u64 k = 0);
Term* mkVar(int idx, i64 lo, i64 hi);
Term* tNot(Term* a);
Term* tIte(Term* c, Term* a, Term* b);
Term* tSext(int n, Term* a);
Term* tZext(int n, Term* a);
Z3_ast toZ3(Term* t);
u64 evalTerm(Term* t, const std::vector<u64>& model);  // raw var values
void newEvalEpoch();
std::string showTerm(Term* t, int depth = 6);
