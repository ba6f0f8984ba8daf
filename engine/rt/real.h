#pragma once
#include "expr.h"
#include <z3.h>
extern Z3_context Z;
Z3_ast tr(u32 e);
Z3_ast zbv(unsigned w, u128 v);
Z3_ast b2bv(Z3_ast b);
void realInit();
Z3_ast realAst(u32 e);
Z3_ast realCmp(unsigned op, u32 a, u32 b);
Z3_ast realToInt(u32 a, unsigned w);
Z3_ast realIntIs(u32 a, int64_t v, bool margin = false); // truncating a gives v
Z3_ast realEqConst(u32 e, u64 bits);
void realRange(Z3_solver s, size_t var);
void realFlush(Z3_solver s); // assert pending side constraints
u64 realModel(Z3_model m, size_t var);
void realNotePath(u32 cond, bool taken);
int realNear(u32 a, u32 b, double tol);
Z3_ast realNearNeg(u32 a, u32 b, double tol);
void realPush();
void realPop();
Z3_ast realMargin(u32 cond); // |lhs-rhs| >= margin for a comparison, or null
