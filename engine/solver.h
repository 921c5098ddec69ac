#pragma once
#include "expr.h"
#include <z3.h>
// model: value per variable id
typedef std::vector<uint64_t> Model;
struct SolverStats { uint64_t queries = 0, z3calls = 0, cachehits = 0, sat = 0, unsat = 0, unknown = 0; double time = 0; };
extern SolverStats g_ss;
extern unsigned g_query_timeout_ms;
uint64_t evalExpr(Expr* e, const Model& m);
// Is (pc && cond) satisfiable? 1 sat (model updated from hint), 0 unsat, -1 unknown
int solveSat(const std::vector<Expr*>& pc, Expr* cond, Model& hint);
