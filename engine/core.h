// Core of the solver-based checker: AIG of guards, bit-vector / floating-point terms,
// guarded value sets, and the solver back ends (MiniSat for Boolean cones, Z3 for
// cones that contain bit-vector or floating-point atoms).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <chrono>
#include <random>
#include <functional>

typedef uint32_t Lit;       // AIG literal: node*2+sign
typedef uint32_t TermId;
typedef uint32_t ValId;
typedef uint64_t u64;
static const Lit F = 0, T = 1;

[[noreturn]] void engine_fail(const std::string& why);
double now_s();

static const int W = 16;            // simulation words (64 patterns each)
static const int NPAT = W * 64;
static const int MODEL_BASE = 12 * 64; // patterns >= MODEL_BASE are reused for solver models

enum AKind : uint8_t { A_CONST, A_INPUT, A_AND, A_ATOM };
struct ANode { Lit a, b; AKind kind; uint8_t status; /*0 unknown 1 feasible 2 false*/ bool theory; uint32_t seq; };

enum TOp : uint8_t {
	T_VAR, T_CONST, T_ADD, T_SUB, T_MUL, T_UDIV, T_UREM, T_SDIV, T_SREM, T_AND, T_OR, T_XOR, T_SHL, T_LSHR, T_ASHR,
	T_ZEXT, T_SEXT, T_TRUNC, T_ITE,
	T_FADD, T_FSUB, T_FMUL, T_FDIV, T_FNEG, T_FABS, T_FSQRT, T_SITOFP, T_UITOFP, T_FPTOUI, T_FPTOSI,
	T_MULHI, // high 64 bits of 64x64 unsigned product
	T_FCONV, // between float and double
	T_BITS,  // reinterpretation between integer and floating point of the same width
};
struct TNode { TOp op; uint8_t w; bool fp; TermId a, b; Lit c; u64 k; uint32_t seq; };

enum Pred : uint8_t { P_EQ, P_ULT, P_ULE, P_SLT, P_SLE, P_FOEQ, P_FOLT, P_FOLE, P_FUNO };
struct Atom { Pred p; TermId a, b; };

struct Stats {
	u64 insts = 0, sat_calls = 0, smt_calls = 0, sat_unsat = 0, sat_sat = 0, sat_unknown = 0, asserts = 0, assert_queries = 0, ub_checks = 0, merged = 0;
	double sat_time = 0, smt_time = 0;
	u64 max_iter = 0;
};
extern Stats stats;

struct Val {
	uint8_t w = 0;
	bool fp = false;   // floating-point typed value
	bool isTerm = false;
	Lit undef = F;
	TermId t = 0;
	std::vector<std::pair<u64, Lit>> alts; // mutually exclusive; exhaustive under the owning path guard
	std::vector<ValId> agg;                // first-class aggregates
};

// ---- AIG ----
Lit and_(Lit a, Lit b);
inline Lit not_(Lit a) { return a ^ 1; }
inline Lit or_(Lit a, Lit b) { return not_(and_(not_(a), not_(b))); }
Lit mux(Lit c, Lit a, Lit b);
Lit new_input(double p);
size_t aig_size();
bool sig_zero(Lit l);
int sig_first(Lit l);               // index of a pattern where l is true, or -1
bool sig_bit(Lit l, int pat);
bool feasible(Lit l, long confl_limit); // unknown counts as feasible
int decide(Lit l);                  // full-strength: 1 sat (pattern available), 0 unsat, -1 unknown
std::vector<ANode>& aig_nodes();
void v_fact(const std::vector<std::pair<u64, Lit>>& alts, Lit undef, Lit guard);

// ---- terms ----
TermId t_var(int w, bool fp, const std::string& name);
TermId t_const(u64 v, int w, bool fp);
TermId t_bin(TOp op, TermId a, TermId b);
TermId t_un(TOp op, TermId a, int w, bool fp);
TermId t_ite(Lit c, TermId a, TermId b);
Lit t_atom(Pred p, TermId a, TermId b);
const TNode& tnode(TermId t);
u64 t_eval(TermId t, int pat);

// ---- values ----
const Val& V(ValId v);
ValId v_intern(Val&& v);
ValId v_const(u64 k, int w, bool fp = false);
ValId v_undef(int w, bool fp = false);
ValId v_bool(Lit l, Lit undef = F);
ValId v_term(TermId t, Lit undef = F);
TermId v_to_term(ValId v);
ValId v_ite(Lit c, ValId a, ValId b);
ValId v_prune(ValId v, Lit G);
Lit v_lit(ValId v);                 // i1 -> literal
Lit v_eq_const(ValId v, u64 k);     // guard under which v == k
u64 v_eval(ValId v, int pat, bool* undef);
inline bool v_is_const(ValId v) { const Val& x = V(v); return !x.isTerm && x.undef == F && x.alts.size() == 1 && x.agg.empty(); }
inline u64 maskw(u64 x, int w) { return w >= 64 ? x : (x & ((1ULL << w) - 1)); }
inline int64_t sextw(u64 x, int w) { if (w >= 64) return (int64_t)x; u64 m = 1ULL << (w - 1); x = maskw(x, w); return (int64_t)((x ^ m) - m); }
inline double asd(u64 b) { double d; memcpy(&d, &b, 8); return d; }
inline u64 asu(double d) { u64 b; memcpy(&b, &d, 8); return b; }
// floating-point values of 32 or 64 bits (arithmetic of 32-bit values through double is correctly rounded)
inline double fval(u64 k, int w) { if (w == 32) { uint32_t x = (uint32_t)k; float f; memcpy(&f, &x, 4); return f; } return asd(k); }
inline u64 fbits(double d, int w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } return asu(d); }
extern size_t VS_MAX;
