// vse: merging symbolic executor for LLVM IR (the real code, compiled by clang at check time).
// Every control-flow join merges states, every scalar is a guarded value set (or a
// bit-vector/FP term); loops are unrolled until the solver shows no path stays inside.
#include "core.h"
#include <llvm-c/Core.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/DebugInfo.h>
#include <llvm-c/Target.h>
#include <signal.h>
#include <unistd.h>

using std::string;
using std::vector;

static u64 OPT_LOOP = 3000;
static u64 OPT_DEPTH = 64;
static double OPT_TIME = 0;
static int OPT_MAXVIOL = 4;
static bool OPT_TRACE = false;
static bool OPT_PROF = false;
static double T0;

// ---------------------------------------------------------------- IR
struct Inst {
	LLVMOpcode op;
	int dst = -1;
	uint8_t w = 0; bool fp = false; int bytes = 0;
	int pred = 0;
	vector<int> ops;                    // >=0 register, <0 constant ~ValId
	vector<std::pair<int, u64>> gep;    // (operand, scale)
	u64 k = 0;
	bool nsw = false;
	int fn = -1;                        // callee
	vector<int> succ;                   // branch targets
	vector<u64> cases;
	vector<unsigned> idx;
	string file; int line = 0;
	vector<u64> byval;                  // size per arg, 0 if none
	string name;                        // callee name
	LLVMTypeRef ty = nullptr;           // aggregate type of a load or store
};
struct Block { vector<Inst> insts; vector<int> succ, pred; vector<std::pair<int, vector<std::pair<int,int>>>> phis; /* per pred block: (dst,op) */
	int loop = -1; vector<uint64_t> live; int domGuard = -1; };
struct Loop { int header; int parent = -1; vector<bool> body; vector<int> items; };
struct Func {
	string name; bool decl = true; int nregs = 0; int nargs = 0;
	vector<Block> b; vector<Loop> loops; vector<int> topItems; // item: block >=0 or ~loop
	vector<u64> byval; bool retVoid = true; int retw = 0; bool retfp = false;
	u64 calls = 0; double time = 0; u64 icount = 0;
	LLVMValueRef ir = nullptr; bool built = false;
};
static vector<Func> FN;
static std::map<LLVMValueRef, int> FNID;
static std::map<LLVMValueRef, u64> GADDR;
static LLVMTargetDataRef TD;
static LLVMModuleRef MOD;

// ---------------------------------------------------------------- memory
struct Cell { int n; ValId v; };
struct Obj {
	ValId size; u64 cap; // cap: concrete upper bound of size
	uint8_t kind; // 0 global 1 stack 2 heap 3 function 4 const-global
	bool zero; Lit freed; string name;
	vector<std::pair<u64, Cell>> cells;
};
typedef std::shared_ptr<Obj> ObjP;
struct Mem { vector<ObjP> o; };
typedef std::shared_ptr<Mem> MemP;
static u64 NEXT_OBJ = 1;

static Obj* mem_w(MemP& m, u64 id)
{
	if (m.use_count() > 1) m = std::make_shared<Mem>(*m);
	ObjP& p = m->o[id];
	if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
	return p.get();
}
static u64 mem_alloc(MemP& m, ValId size, u64 cap, int kind, bool zero, const string& name)
{
	if (m.use_count() > 1) m = std::make_shared<Mem>(*m);
	u64 id = NEXT_OBJ++;
	if (m->o.size() <= id) m->o.resize(id + 1);
	auto p = std::make_shared<Obj>();
	p->size = size; p->cap = cap; p->kind = kind; p->zero = zero; p->freed = F; p->name = name;
	m->o[id] = p;
	return id;
}

struct State { Lit g; MemP mem; vector<ValId> env; };

// ---------------------------------------------------------------- reporting
struct InEvent { Lit g; ValId v; char kind; };
static vector<InEvent> INPUTS;
struct Violation { string kind, msg, file, func; int line; vector<string> inputs; };
static vector<Violation> VIOL;
static std::set<string> VIOLKEYS;
static vector<Lit> KILLS;
static std::map<string, int> COVER; // msg -> 0 seen,1 hit
static std::map<string, vector<string>> COVERIN;
static std::map<string, u64> ASSERTS;
struct Frame { Func* f; const Inst* at; };
static vector<Frame> STACK;
static string STATUS = "complete";
static std::set<string> FEXEC;

static string jstr(const string& s)
{
	string r = "\"";
	for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
	return r + "\"";
}
static string OUTFILE;
static void write_report()
{
	FILE* f = OUTFILE.empty() ? stdout : fopen(OUTFILE.c_str(), "w");
	if (!f) { perror("out"); exit(2); }
	fprintf(f, "{\"status\":%s,\n", jstr(STATUS).c_str());
	fprintf(f, "\"violations\":[");
	for (size_t i = 0; i < VIOL.size(); i++) {
		auto& v = VIOL[i];
		fprintf(f, "%s\n {\"kind\":%s,\"msg\":%s,\"file\":%s,\"line\":%d,\"func\":%s,\"inputs\":[", i ? "," : "", jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.file).c_str(), v.line, jstr(v.func).c_str());
		for (size_t j = 0; j < v.inputs.size(); j++) fprintf(f, "%s%s", j ? "," : "", jstr(v.inputs[j]).c_str());
		fprintf(f, "]}");
	}
	fprintf(f, "],\n\"covers\":{");
	bool first = true;
	for (auto& c : COVER) { fprintf(f, "%s%s:%s", first ? "" : ",", jstr(c.first).c_str(), c.second ? "true" : "false"); first = false; }
	fprintf(f, "},\n\"witnesses\":{");
	first = true;
	for (auto& c : COVERIN) {
		fprintf(f, "%s%s:[", first ? "" : ",", jstr(c.first).c_str()); first = false;
		for (size_t j = 0; j < c.second.size(); j++) fprintf(f, "%s%s", j ? "," : "", jstr(c.second[j]).c_str());
		fprintf(f, "]");
	}
	fprintf(f, "},\n\"asserts\":{");
	first = true;
	for (auto& c : ASSERTS) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(c.first).c_str(), (unsigned long long)c.second); first = false; }
	fprintf(f, "},\n\"functions\":[");
	first = true;
	for (auto& c : FEXEC) { fprintf(f, "%s%s", first ? "" : ",", jstr(c).c_str()); first = false; }
	fprintf(f, "],\n\"stats\":{\"instructions\":%llu,\"aig_nodes\":%zu,\"input_events\":%zu,\"sat_calls\":%llu,\"smt_calls\":%llu,\"unsat\":%llu,\"sat\":%llu,\"unknown\":%llu,\"assert_checks\":%llu,\"memory_checks\":%llu,\"merged\":%llu,\"solver_time\":%.3f,\"total_time\":%.3f,\"max_loop_iterations\":%llu}}\n",
	        (unsigned long long)stats.insts, aig_size(), INPUTS.size(), (unsigned long long)stats.sat_calls, (unsigned long long)stats.smt_calls, (unsigned long long)stats.sat_unsat, (unsigned long long)stats.sat_sat, (unsigned long long)stats.sat_unknown, (unsigned long long)stats.asserts, (unsigned long long)stats.ub_checks, (unsigned long long)stats.merged, stats.sat_time + stats.smt_time, now_s() - T0, (unsigned long long)stats.max_iter);
	if (f != stdout) fclose(f);
	if (OPT_PROF) {
		vector<std::pair<double, string>> pf;
		for (auto& x : FN) if (x.calls) pf.push_back({x.time, x.name + " calls=" + std::to_string(x.calls) + " insts=" + std::to_string(x.icount)});
		std::sort(pf.rbegin(), pf.rend());
		for (auto& p : pf) fprintf(stderr, "%8.2fs %s\n", p.first, p.second.c_str());
	}
}
void engine_fail(const string& why)
{
	STATUS = "engine-error: " + why;
	for (int i = (int)STACK.size() - 1; i >= 0; i--) STATUS += string(" @") + STACK[i].f->name + (STACK[i].at ? ":" + std::to_string(STACK[i].at->line) : "");
	fprintf(stderr, "%s\n", STATUS.c_str());
	write_report();
	_exit(3);
}
static void finish_now(const string& st) { STATUS = st; write_report(); fflush(stdout); _exit(VIOL.empty() ? 0 : 1); }

static vector<string> extract_inputs(int pat)
{
	vector<string> r;
	for (auto& e : INPUTS) if (sig_bit(e.g, pat)) {
		bool un; u64 v = v_eval(e.v, pat, &un);
		char buf[64]; snprintf(buf, 64, "%c %llu", e.kind, (unsigned long long)v);
		r.push_back(buf);
	}
	return r;
}

// condition `bad` must not hold. Returns true if violated (recorded); kills the violating part of the path.
static bool check_bad(State& s, Lit bad, const string& kind, const string& msg)
{
	stats.ub_checks++;
	Lit v = and_(s.g, bad);
	if (v == F) return false;
	int r = decide(v);
	if (r == 0) return false;
	if (r < 0) engine_fail("solver returned unknown for " + kind);
	const Inst* at = nullptr; string fn = "?";
	for (int i = (int)STACK.size() - 1; i >= 0; i--) if (STACK[i].at) { at = STACK[i].at; fn = STACK[i].f->name; break; }
	string key = kind + "|" + msg + "|" + (at ? at->file + ":" + std::to_string(at->line) : "");
	if (VIOLKEYS.insert(key).second) {
		Violation x; x.kind = kind; x.msg = msg; x.file = at ? at->file : ""; x.line = at ? at->line : 0;
		x.func = fn;
		for (int i = (int)STACK.size() - 2; i >= 0 && i >= (int)STACK.size() - 6; i--) x.func += " < " + STACK[i].f->name + (STACK[i].at ? ":" + std::to_string(STACK[i].at->line) : "");
		x.inputs = extract_inputs(sig_first(v));
		VIOL.push_back(x);
		if ((int)VIOL.size() >= OPT_MAXVIOL) finish_now("stopped at violation limit");
	}
	KILLS.push_back(v);
	s.g = and_(s.g, not_(bad));
	return true;
}

// ---------------------------------------------------------------- value operations
struct AltAcc {
	std::vector<std::pair<u64, Lit>> v;
	void add(u64 k, Lit g) { v.push_back({k, g}); }
	void finish(Val& r)
	{
		std::stable_sort(v.begin(), v.end(), [](const std::pair<u64,Lit>& a, const std::pair<u64,Lit>& b) { return a.first < b.first; });
		for (size_t i = 0; i < v.size();) {
			// balanced OR of equal keys
			size_t j = i; vector<Lit> ls;
			while (j < v.size() && v[j].first == v[i].first) ls.push_back(v[j++].second);
			while (ls.size() > 1) { vector<Lit> n; for (size_t q = 0; q < ls.size(); q += 2) n.push_back(q + 1 < ls.size() ? or_(ls[q], ls[q + 1]) : ls[q]); ls.swap(n); }
			if (ls[0] != F) r.alts.push_back({v[i].first, ls[0]});
			i = j;
		}
		if (r.alts.size() == 1 && r.undef == F) r.alts[0].second = T;
	}
};

static Lit or_all(vector<Lit>& ls)
{
	if (ls.empty()) return F;
	while (ls.size() > 1) { vector<Lit> n; for (size_t q = 0; q < ls.size(); q += 2) n.push_back(q + 1 < ls.size() ? or_(ls[q], ls[q + 1]) : ls[q]); ls.swap(n); }
	return ls[0];
}

static u64 cbin(LLVMOpcode op, u64 a, u64 b, int w, bool& ub, bool nsw)
{
	switch (op) {
		case LLVMAdd: { u64 r = maskw(a + b, w); if (nsw) { __int128 x = (__int128)sextw(a, w) + sextw(b, w); if (x != (__int128)sextw(r, w)) ub = true; } return r; }
		case LLVMSub: { u64 r = maskw(a - b, w); if (nsw) { __int128 x = (__int128)sextw(a, w) - sextw(b, w); if (x != (__int128)sextw(r, w)) ub = true; } return r; }
		case LLVMMul: { u64 r = maskw(a * b, w); if (nsw) { __int128 x = (__int128)sextw(a, w) * sextw(b, w); if (x != (__int128)sextw(r, w)) ub = true; } return r; }
		case LLVMUDiv: if (!b) { ub = true; return 0; } return a / b;
		case LLVMURem: if (!b) { ub = true; return 0; } return a % b;
		case LLVMSDiv: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y || (y == -1 && maskw(a, w) == 1ULL << (w - 1))) { ub = true; return 0; } return maskw(x / y, w); }
		case LLVMSRem: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y || (y == -1 && maskw(a, w) == 1ULL << (w - 1))) { ub = true; return 0; } return maskw(x % y, w); }
		case LLVMAnd: return a & b;
		case LLVMOr: return a | b;
		case LLVMXor: return a ^ b;
		case LLVMShl: if (b >= (u64)w) { ub = true; return 0; } return maskw(a << b, w);
		case LLVMLShr: if (b >= (u64)w) { ub = true; return 0; } return a >> b;
		case LLVMAShr: if (b >= (u64)w) { ub = true; return 0; } return maskw((u64)(sextw(a, w) >> b), w);
		case LLVMFAdd: return fbits(fval(a, w) + fval(b, w), w);
		case LLVMFSub: return fbits(fval(a, w) - fval(b, w), w);
		case LLVMFMul: return fbits(fval(a, w) * fval(b, w), w);
		case LLVMFDiv: return fbits(fval(a, w) / fval(b, w), w);
		case LLVMFRem: return fbits(fmod(fval(a, w), fval(b, w)), w);
		default: engine_fail("cbin op");
	}
}
static TOp top_of(LLVMOpcode op)
{
	switch (op) {
		case LLVMAdd: return T_ADD; case LLVMSub: return T_SUB; case LLVMMul: return T_MUL; case LLVMUDiv: return T_UDIV; case LLVMURem: return T_UREM;
		case LLVMSDiv: return T_SDIV; case LLVMSRem: return T_SREM; case LLVMAnd: return T_AND; case LLVMOr: return T_OR; case LLVMXor: return T_XOR;
		case LLVMShl: return T_SHL; case LLVMLShr: return T_LSHR; case LLVMAShr: return T_ASHR;
		case LLVMFAdd: return T_FADD; case LLVMFSub: return T_FSUB; case LLVMFMul: return T_FMUL; case LLVMFDiv: return T_FDIV;
		default: engine_fail("term op");
	}
}

static ValId binop(State& s, LLVMOpcode op, ValId a0, ValId b0, int w, bool fp, bool nsw)
{
	ValId a = v_prune(a0, s.g), b = v_prune(b0, s.g);
	const Val& x = V(a); const Val& y = V(b);
	Lit un = or_(x.undef, y.undef);
	if (w == 1 && !x.isTerm && !y.isTerm) {
		Lit p = v_lit(a), q = v_lit(b), r;
		switch (op) {
			case LLVMAnd: r = and_(p, q); break;
			case LLVMOr: r = or_(p, q); break;
			case LLVMXor: case LLVMAdd: case LLVMSub: r = mux(p, not_(q), q); break;
			case LLVMMul: r = and_(p, q); break;
			default: engine_fail("i1 op");
		}
		return v_bool(r, un);
	}
	if (x.isTerm || y.isTerm || x.alts.size() * y.alts.size() > VS_MAX * 4) {
		if ((!x.isTerm && x.alts.empty()) || (!y.isTerm && y.alts.empty())) return v_undef(w, fp);
		TermId ta = v_to_term(a), tb = v_to_term(b);
		if (op == LLVMUDiv || op == LLVMURem || op == LLVMSDiv || op == LLVMSRem)
			check_bad(s, t_atom(P_EQ, tb, t_const(0, w, false)), "ub", "division by zero");
		if (op == LLVMShl || op == LLVMLShr || op == LLVMAShr)
			check_bad(s, t_atom(P_ULE, t_const(w, w, false), tb), "ub", "shift exponent too large");
		if (nsw && (op == LLVMAdd || op == LLVMSub) && w < 64) {
			TermId ea = t_un(T_SEXT, ta, w + 1, false), eb = t_un(T_SEXT, tb, w + 1, false);
			TermId r1 = t_bin(top_of(op), ea, eb), r2 = t_un(T_SEXT, t_bin(top_of(op), ta, tb), w + 1, false);
			check_bad(s, not_(t_atom(P_EQ, r1, r2)), "ub", "signed integer overflow");
		}
		return v_term(t_bin(top_of(op), ta, tb), un);
	}
	Val r; r.w = w; r.fp = fp; r.undef = un;
	AltAcc acc;
	vector<Lit> ubs;
	vector<std::pair<u64,Lit>> xa = x.alts, ya = y.alts;
	for (auto& p : xa) for (auto& q : ya) {
		Lit g = and_(p.second, q.second);
		if (g == F) continue;
		bool ub = false;
		u64 k = cbin(op, p.first, q.first, w, ub, nsw);
		if (ub) ubs.push_back(g);
		acc.add(k, g);
	}
	if (!ubs.empty()) check_bad(s, or_all(ubs), "ub", (op == LLVMAdd || op == LLVMSub || op == LLVMMul) ? "signed integer overflow" : (op == LLVMShl || op == LLVMLShr || op == LLVMAShr) ? "shift exponent too large" : "division by zero");
	acc.finish(r);
	ValId o = v_intern(std::move(r));
	if (V(o).alts.size() > 1) o = v_prune(o, s.g);
	if (V(o).alts.size() > VS_MAX) return v_term(v_to_term(o), V(o).undef);
	return o;
}

static bool cpred(int pred, u64 a, u64 b, int w)
{
	int64_t x = sextw(a, w), y = sextw(b, w);
	switch (pred) {
		case LLVMIntEQ: return a == b; case LLVMIntNE: return a != b;
		case LLVMIntUGT: return a > b; case LLVMIntUGE: return a >= b; case LLVMIntULT: return a < b; case LLVMIntULE: return a <= b;
		case LLVMIntSGT: return x > y; case LLVMIntSGE: return x >= y; case LLVMIntSLT: return x < y; case LLVMIntSLE: return x <= y;
	}
	engine_fail("icmp pred");
}
static bool cfpred(int pred, double a, double b)
{
	bool u = std::isnan(a) || std::isnan(b);
	switch (pred) {
		case LLVMRealPredicateFalse: return false; case LLVMRealPredicateTrue: return true;
		case LLVMRealOEQ: return a == b; case LLVMRealOGT: return a > b; case LLVMRealOGE: return a >= b; case LLVMRealOLT: return a < b; case LLVMRealOLE: return a <= b;
		case LLVMRealONE: return !u && a != b; case LLVMRealORD: return !u; case LLVMRealUNO: return u;
		case LLVMRealUEQ: return u || a == b; case LLVMRealUGT: return u || a > b; case LLVMRealUGE: return u || a >= b; case LLVMRealULT: return u || a < b; case LLVMRealULE: return u || a <= b; case LLVMRealUNE: return a != b;
	}
	engine_fail("fcmp pred");
}
static ValId icmp(State& s, int pred, ValId a0, ValId b0)
{
	ValId a = v_prune(a0, s.g), b = v_prune(b0, s.g);
	const Val& x = V(a); const Val& y = V(b);
	Lit un = or_(x.undef, y.undef);
	if (a == b && !x.isTerm && x.alts.size() > 0) {
		bool eq = pred == LLVMIntEQ || pred == LLVMIntUGE || pred == LLVMIntULE || pred == LLVMIntSGE || pred == LLVMIntSLE;
		return v_bool(eq ? T : F, un);
	}
	if (x.isTerm || y.isTerm) {
		if ((!x.isTerm && x.alts.empty()) || (!y.isTerm && y.alts.empty())) return v_undef(1);
		TermId p = v_to_term(a), q = v_to_term(b);
		switch (pred) {
			case LLVMIntEQ: return v_bool(t_atom(P_EQ, p, q), un);
			case LLVMIntNE: return v_bool(not_(t_atom(P_EQ, p, q)), un);
			case LLVMIntUGT: return v_bool(t_atom(P_ULT, q, p), un);
			case LLVMIntUGE: return v_bool(t_atom(P_ULE, q, p), un);
			case LLVMIntULT: return v_bool(t_atom(P_ULT, p, q), un);
			case LLVMIntULE: return v_bool(t_atom(P_ULE, p, q), un);
			case LLVMIntSGT: return v_bool(t_atom(P_SLT, q, p), un);
			case LLVMIntSGE: return v_bool(t_atom(P_SLE, q, p), un);
			case LLVMIntSLT: return v_bool(t_atom(P_SLT, p, q), un);
			case LLVMIntSLE: return v_bool(t_atom(P_SLE, p, q), un);
		}
	}
	vector<std::pair<u64,Lit>> xa = x.alts, ya = y.alts;
	int w = x.w;
	size_t nt = 0, nf = 0;
	for (auto& p : xa) for (auto& q : ya) (cpred(pred, p.first, q.first, w) ? nt : nf)++;
	if (nt == 0) return v_bool(F, un);
	if (nf == 0) return v_bool(T, un);
	bool useT = nt <= nf || un != F;
	vector<Lit> ls;
	for (auto& p : xa) {
		vector<Lit> in;
		for (auto& q : ya) if (cpred(pred, p.first, q.first, w) == useT) in.push_back(q.second);
		if (in.empty()) continue;
		Lit o = in.size() == ya.size() ? T : or_all(in);
		Lit g = and_(p.second, o);
		if (g != F) ls.push_back(g);
	}
	Lit r = or_all(ls);
	return v_bool(useT ? r : not_(r), un);
}
static ValId fcmp(State& s, int pred, ValId a0, ValId b0)
{
	ValId a = v_prune(a0, s.g), b = v_prune(b0, s.g);
	const Val& x = V(a); const Val& y = V(b);
	Lit un = or_(x.undef, y.undef);
	if (x.isTerm || y.isTerm) {
		if ((!x.isTerm && x.alts.empty()) || (!y.isTerm && y.alts.empty())) return v_undef(1);
		TermId p = v_to_term(a), q = v_to_term(b);
		auto lt = [&](TermId m, TermId n) { return t_atom(P_FOLT, m, n); };
		auto le = [&](TermId m, TermId n) { return t_atom(P_FOLE, m, n); };
		Lit eq = t_atom(P_FOEQ, p, q), u = t_atom(P_FUNO, p, q);
		switch (pred) {
			case LLVMRealOEQ: return v_bool(eq, un);
			case LLVMRealOGT: return v_bool(lt(q, p), un);
			case LLVMRealOGE: return v_bool(le(q, p), un);
			case LLVMRealOLT: return v_bool(lt(p, q), un);
			case LLVMRealOLE: return v_bool(le(p, q), un);
			case LLVMRealONE: return v_bool(and_(not_(eq), not_(u)), un);
			case LLVMRealORD: return v_bool(not_(u), un);
			case LLVMRealUNO: return v_bool(u, un);
			case LLVMRealUEQ: return v_bool(or_(u, eq), un);
			case LLVMRealUGT: return v_bool(not_(le(p, q)), un);
			case LLVMRealUGE: return v_bool(not_(lt(p, q)), un);
			case LLVMRealULT: return v_bool(not_(le(q, p)), un);
			case LLVMRealULE: return v_bool(not_(lt(q, p)), un);
			case LLVMRealUNE: return v_bool(not_(eq), un);
			case LLVMRealPredicateFalse: return v_bool(F, un);
			case LLVMRealPredicateTrue: return v_bool(T, un);
		}
	}
	vector<std::pair<u64,Lit>> xa = x.alts, ya = y.alts;
	vector<Lit> ls;
	int fw = x.w;
	for (auto& p : xa) {
		vector<Lit> in;
		for (auto& q : ya) if (cfpred(pred, fval(p.first, fw), fval(q.first, fw))) in.push_back(q.second);
		if (in.empty()) continue;
		Lit o = in.size() == ya.size() ? T : or_all(in);
		Lit g = and_(p.second, o);
		if (g != F) ls.push_back(g);
	}
	return v_bool(or_all(ls), un);
}
static u64 ccast(LLVMOpcode op, u64 k, int fw, int tw)
{
	switch (op) {
		case LLVMTrunc: return maskw(k, tw);
		case LLVMZExt: return k;
		case LLVMSExt: return maskw((u64)sextw(k, fw), tw);
		case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: return maskw(k, tw);
		case LLVMUIToFP: return tw == 32 ? fbits((float)k, 32) : asu((double)k);
		case LLVMSIToFP: return tw == 32 ? fbits((float)sextw(k, fw), 32) : asu((double)sextw(k, fw));
		case LLVMFPExt: case LLVMFPTrunc: return fbits(fval(k, fw), tw);
		case LLVMFPToUI: { double d = fval(k, fw); if (!(d > -1.0 && d < 18446744073709551616.0)) return 0; return maskw((u64)d, tw); }
		case LLVMFPToSI: { double d = fval(k, fw); if (!(d > -9.3e18 && d < 9.2e18)) return 0; return maskw((u64)(int64_t)d, tw); }
		default: engine_fail("cast op " + std::to_string(op));
	}
}
static ValId castv(State& s, LLVMOpcode op, ValId a0, int tw, bool tfp)
{
	ValId a = v_prune(a0, s.g);
	const Val& x = V(a);
	if (x.isTerm) {
		TOp o;
		switch (op) {
			case LLVMTrunc: if (tw == 1) { return v_bool(t_atom(P_EQ, t_un(T_TRUNC, x.t, 1, false), t_const(1, 1, false)), x.undef); } o = T_TRUNC; break;
			case LLVMZExt: o = T_ZEXT; break; case LLVMSExt: o = T_SEXT; break;
			case LLVMPtrToInt: case LLVMIntToPtr: o = tw > x.w ? T_ZEXT : T_TRUNC; break;
			case LLVMBitCast: if (x.fp == tfp) return a; o = T_BITS; break;
			case LLVMFPExt: case LLVMFPTrunc: if (tw == x.w) return a; o = T_FCONV; break;
			case LLVMUIToFP: o = T_UITOFP; break; case LLVMSIToFP: o = T_SITOFP; break;
			case LLVMFPToUI: o = T_FPTOUI; break; case LLVMFPToSI: o = T_FPTOSI; break;
			default: engine_fail("term cast");
		}
		return v_term(t_un(o, x.t, tw, tfp), x.undef);
	}
	if (tw == 64 && x.w == 64 && !tfp && !x.fp) return a;
	Val r; r.w = tw; r.fp = tfp; r.undef = x.undef;
	AltAcc acc;
	int fw = x.w;
	vector<std::pair<u64,Lit>> xa = x.alts;
	for (auto& p : xa) acc.add(ccast(op, p.first, fw, tw), p.second);
	acc.finish(r);
	return v_intern(std::move(r));
}

// ---------------------------------------------------------------- memory access
static ValId fix_fp(ValId v, bool fp)
{
	const Val& x = V(v);
	if (x.fp == fp) return v;
	if (x.isTerm) return v_term(t_un(T_BITS, x.t, x.w, fp), x.undef);
	Val y = x; y.fp = fp; return v_intern(std::move(y));
}
static ValId slice_val(State& s, ValId v, int offb, int nb)
{
	const Val& x = V(v);
	if (x.fp && (offb || nb * 8 != x.w)) v = fix_fp(v, false);
	int w = V(v).w;
	if (offb) v = binop(s, LLVMLShr, v, v_const(offb * 8, w), w, false, false);
	if (nb * 8 < w) v = castv(s, LLVMTrunc, v, nb * 8, false);
	return v;
}
static ValId def_val(const Obj* o, int nb) { return o->zero ? v_const(0, nb * 8) : v_undef(nb * 8); }
static size_t cell_lb(const Obj* o, u64 off)
{
	return std::lower_bound(o->cells.begin(), o->cells.end(), off, [](const std::pair<u64,Cell>& c, u64 k) { return c.first < k; }) - o->cells.begin();
}
static bool any_overlap(const Obj* o, u64 off, int n)
{
	size_t i = cell_lb(o, off);
	if (i < o->cells.size() && o->cells[i].first < off + n) return true;
	if (i > 0 && o->cells[i - 1].first + o->cells[i - 1].second.n > off) return true;
	return false;
}
static ValId cell_read(State& s, const Obj* o, u64 off, int n)
{
	size_t i = cell_lb(o, off);
	if (i < o->cells.size() && o->cells[i].first == off && o->cells[i].second.n == n) return o->cells[i].second.v;
	if (!any_overlap(o, off, n)) return def_val(o, n);
	// containing cell
	if (!(i < o->cells.size() && o->cells[i].first == off)) { if (i > 0 && o->cells[i - 1].first + o->cells[i - 1].second.n >= off + n) return slice_val(s, o->cells[i - 1].second.v, off - o->cells[i - 1].first, n); }
	else if (o->cells[i].second.n > n) return slice_val(s, o->cells[i].second.v, 0, n);
	// compose, segment by segment
	if (n > 8) engine_fail("wide composed load");
	vector<std::pair<u64,Cell>> cs = o->cells; // copy: binop may not change it, but keep it simple
	ValId r = 0; int have = 0;
	while (have < n) {
		u64 at = off + have;
		// find cell covering `at`
		int take = 1; ValId piece = 0;
		bool found = false;
		for (auto& c : cs) if (c.first <= at && at < c.first + c.second.n) {
			take = std::min<int>(c.first + c.second.n - at, n - have);
			piece = slice_val(s, c.second.v, at - c.first, take); found = true; break;
		}
		if (!found) piece = def_val(o, take);
		piece = fix_fp(piece, false);
		piece = castv(s, LLVMZExt, piece, n * 8, false);
		if (have) piece = binop(s, LLVMShl, piece, v_const(have * 8, n * 8), n * 8, false, false);
		r = have ? binop(s, LLVMOr, r, piece, n * 8, false, false) : piece;
		have += take;
	}
	return r;
}
// remove the byte range from the cell list, keeping remainders
static void cell_clear(State& s, Obj* o, u64 off, u64 n)
{
	vector<std::pair<u64,Cell>> out;
	for (auto& c : o->cells) {
		u64 a = c.first, e = a + c.second.n;
		if (e <= off || a >= off + n) { out.push_back(c); continue; }
		if (a < off) out.push_back({a, Cell{(int)(off - a), slice_val(s, c.second.v, 0, off - a)}});
		if (e > off + n) out.push_back({off + n, Cell{(int)(e - off - n), slice_val(s, c.second.v, off + n - a, e - off - n)}});
	}
	o->cells.swap(out);
}
static void cell_write(State& s, Obj* o, u64 off, int n, ValId v, Lit g)
{
	size_t i = cell_lb(o, off);
	if (i < o->cells.size() && o->cells[i].first == off && o->cells[i].second.n == n) {
		ValId old = o->cells[i].second.v;
		if (g != T && V(old).fp != V(v).fp) {
			if (V(old).isTerm || V(v).isTerm) old = fix_fp(old, V(v).fp);
		}
		o->cells[i].second.v = v_ite(g, v, old);
		return;
	}
	if (g != T) {
		ValId old = cell_read(s, o, off, n);
		old = fix_fp(old, V(v).fp);
		v = v_ite(g, v, old);
	}
	if (any_overlap(o, off, n)) cell_clear(s, o, off, n);
	i = cell_lb(o, off);
	o->cells.insert(o->cells.begin() + i, {off, Cell{n, v}});
}

struct Loc { u64 id, off; Lit g; };
static ValId concretize(State& s, ValId v, const char* what, size_t limit)
{
	// enumerate all feasible values of a term (solver-driven); complete or fail
	const Val x = V(v);
	Val r; r.w = x.w; r.fp = x.fp; r.undef = x.undef;
	Lit rest = s.g;
	std::map<u64, Lit> found;
	for (;;) {
		if (decide(rest) == 0) break;
		int p = sig_first(rest);
		u64 k = t_eval(x.t, p);
		Lit e = t_atom(P_EQ, x.t, t_const(k, x.w, x.fp));
		found[k] = e;
		if (found.size() > limit) engine_fail(string("too many values to concretize: ") + what);
		rest = and_(rest, not_(e));
	}
	for (auto& f : found) r.alts.push_back(f);
	if (r.alts.size() == 1 && r.undef == F) r.alts[0].second = T;
	return v_intern(std::move(r));
}

// Resolve an address for an access of n bytes; reports violations; returns valid locations.
static vector<Loc> resolve(State& s, ValId addr, u64 n, bool write, const char* what)
{
	addr = v_prune(addr, s.g);
	if (V(addr).undef != F) { check_bad(s, V(addr).undef, "uninit", string(what) + " through an uninitialised pointer"); if (s.g == F) return {}; addr = v_prune(addr, s.g); }
	if (V(addr).isTerm) addr = concretize(s, addr, "address", 512);
	vector<Loc> out;
	vector<std::pair<u64,Lit>> al = V(addr).alts;
	for (auto& p : al) {
		u64 id = p.first >> 32, off = p.first & 0xffffffffULL;
		Lit g = p.second;
		if (id == 0) { check_bad(s, g, "memory", string(what) + " through a null pointer"); continue; }
		if (id >= s.mem->o.size() || !s.mem->o[id]) { check_bad(s, g, "memory", string(what) + " outside any live object"); continue; }
		const Obj* o = s.mem->o[id].get();
		if (o->kind == 3) { check_bad(s, g, "memory", string(what) + " of a function"); continue; }
		if (write && o->kind == 4) { check_bad(s, g, "memory", "write to constant object"); continue; }
		if (o->freed != F) { check_bad(s, and_(g, o->freed), "memory", string(what) + " of freed object " + o->name); if (s.g == F) return {}; g = and_(g, not_(o->freed)); if (!feasible(and_(s.g, g), 300)) continue; }
		o = s.mem->o[id].get();
		const Val& sz = V(o->size);
		Lit oob = F;
		if (sz.isTerm) oob = t_atom(P_ULT, sz.t, t_const(off + n, 64, false));
		else { vector<Lit> ls; for (auto& q : sz.alts) if (off + n > q.first) ls.push_back(q.second); if (ls.size() == sz.alts.size()) oob = T; else oob = or_all(ls); }
		if (oob != F) {
			Lit bad = and_(g, oob);
			if (bad != F) { check_bad(s, bad, "memory", string(what) + " out of bounds of object " + o->name); if (s.g == F) return {}; }
			if (oob == T) continue;
			g = and_(g, not_(oob));
		}
		if (g == F) continue;
		out.push_back({id, off, g});
	}
	if (out.size() == 1) out[0].g = T;
	return out;
}

static ValId mem_load(State& s, ValId addr, int n, int w, bool fp)
{
	vector<Loc> ls = resolve(s, addr, n, false, "read");
	if (ls.empty()) return v_undef(w, fp);
	ValId r = 0;
	if (ls.size() == 1) {
		r = cell_read(s, s.mem->o[ls[0].id].get(), ls[0].off, n);
	} else {
		// n-way merge
		bool term = false; vector<std::pair<Lit, ValId>> vs;
		for (auto& l : ls) { ValId v = cell_read(s, s.mem->o[l.id].get(), l.off, n); v = fix_fp(v, fp); if (V(v).isTerm) term = true; vs.push_back({l.g, v}); }
		if (term) {
			r = vs.back().second;
			for (int i = (int)vs.size() - 2; i >= 0; i--) r = v_ite(vs[i].first, vs[i].second, r);
		} else {
			Val x; x.w = n * 8; x.fp = fp;
			AltAcc acc; vector<Lit> un;
			for (auto& p : vs) {
				for (auto& q : V(p.second).alts) { Lit g = and_(p.first, q.second); if (g != F) acc.add(q.first, g); }
				if (V(p.second).undef != F) un.push_back(and_(p.first, V(p.second).undef));
			}
			x.undef = or_all(un);
			acc.finish(x);
			r = v_intern(std::move(x));
		}
	}
	r = fix_fp(r, fp);
	if (w < n * 8 && w != 1) r = castv(s, LLVMTrunc, r, w, false);
	else if (w == 1 && n == 1) r = castv(s, LLVMTrunc, r, 1, false);
	return v_prune(r, s.g);
}
static void mem_store(State& s, ValId addr, ValId v, int n)
{
	vector<Loc> ls = resolve(s, addr, n, true, "write");
	if (V(v).w == 1) v = castv(s, LLVMZExt, v, 8, false);
	for (auto& l : ls) {
		Obj* o = mem_w(s.mem, l.id);
		cell_write(s, o, l.off, n, v, l.g);
	}
}

static void ty_info(LLVMTypeRef t, uint8_t& w, bool& fp);
static unsigned agg_count(LLVMTypeRef t) { return LLVMGetTypeKind(t) == LLVMStructTypeKind ? LLVMCountStructElementTypes(t) : LLVMGetArrayLength(t); }
static LLVMTypeRef agg_elem(LLVMTypeRef t, unsigned i, u64& off)
{
	if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { off = LLVMOffsetOfElement(TD, t, i); return LLVMStructGetTypeAtIndex(t, i); }
	LLVMTypeRef e = LLVMGetElementType(t); off = i * LLVMABISizeOfType(TD, e); return e;
}
static ValId agg_load(State& s, ValId addr, LLVMTypeRef t)
{
	uint8_t w; bool fp; ty_info(t, w, fp);
	if (w) return mem_load(s, addr, LLVMGetTypeKind(t) == LLVMX86_FP80TypeKind ? 8 : LLVMStoreSizeOfType(TD, t), w, fp);
	Val r;
	for (unsigned i = 0; i < agg_count(t); i++) { u64 off; LLVMTypeRef e = agg_elem(t, i, off); r.agg.push_back(agg_load(s, binop(s, LLVMAdd, addr, v_const(off, 64), 64, false, false), e)); }
	return v_intern(std::move(r));
}
static void agg_store(State& s, ValId addr, ValId v, LLVMTypeRef t)
{
	uint8_t w; bool fp; ty_info(t, w, fp);
	if (w) { mem_store(s, addr, v, LLVMGetTypeKind(t) == LLVMX86_FP80TypeKind ? 8 : LLVMStoreSizeOfType(TD, t)); return; }
	for (unsigned i = 0; i < agg_count(t); i++) { u64 off; LLVMTypeRef e = agg_elem(t, i, off); agg_store(s, binop(s, LLVMAdd, addr, v_const(off, 64), 64, false, false), V(v).agg.at(i), e); }
}
static ValId agg_insert(ValId a, const vector<unsigned>& idx, size_t at, ValId v)
{
	if (at == idx.size()) return v;
	Val x = V(a);
	x.agg.at(idx[at]) = agg_insert(x.agg.at(idx[at]), idx, at + 1, v);
	return v_intern(std::move(x));
}

static void merge_obj(State& s, ObjP& a, const ObjP& b, Lit c)
{
	// a := ite(c, a, b)
	auto r = std::make_shared<Obj>();
	r->size = v_ite(c, a->size, b->size); r->cap = std::max(a->cap, b->cap); r->kind = a->kind; r->zero = a->zero; r->name = a->name;
	r->freed = mux(c, a->freed, b->freed);
	size_t i = 0, j = 0;
	const Obj* x = a.get(); const Obj* y = b.get();
	Obj tx, ty;
	// normalise differing cell layouts
	bool clash = false;
	while (i < x->cells.size() && j < y->cells.size()) {
		auto& p = x->cells[i]; auto& q = y->cells[j];
		if (p.first == q.first) { if (p.second.n != q.second.n) { clash = true; break; } i++; j++; }
		else if (p.first < q.first) { if (p.first + p.second.n > q.first) { clash = true; break; } i++; }
		else { if (q.first + q.second.n > p.first) { clash = true; break; } j++; }
	}
	if (clash) {
		tx = *x; ty = *y;
		std::set<u64> cuts;
		for (auto& p : tx.cells) { cuts.insert(p.first); cuts.insert(p.first + p.second.n); }
		for (auto& p : ty.cells) { cuts.insert(p.first); cuts.insert(p.first + p.second.n); }
		for (Obj* t : {&tx, &ty}) {
			vector<std::pair<u64,Cell>> out;
			for (auto& p : t->cells) {
				u64 st = p.first, e = st + p.second.n;
				auto it = cuts.upper_bound(st);
				while (st < e) { u64 nx = *it < e ? *it : e; out.push_back({st, Cell{(int)(nx - st), slice_val(s, p.second.v, st - p.first, nx - st)}}); st = nx; ++it; }
			}
			t->cells.swap(out);
		}
		x = &tx; y = &ty;
	}
	i = j = 0;
	auto mrg = [&](ValId u, ValId v) {
		if (u == v) return u;
		if (V(u).fp != V(v).fp) { if (!V(u).isTerm) { Val z = V(u); z.fp = V(v).fp; u = v_intern(std::move(z)); } else if (!V(v).isTerm) { Val z = V(v); z.fp = V(u).fp; v = v_intern(std::move(z)); } else engine_fail("merge fp/int"); }
		return v_ite(c, u, v);
	};
	while (i < x->cells.size() || j < y->cells.size()) {
		if (j >= y->cells.size() || (i < x->cells.size() && x->cells[i].first < y->cells[j].first)) {
			auto& p = x->cells[i++]; r->cells.push_back({p.first, Cell{p.second.n, mrg(p.second.v, def_val(y, p.second.n))}});
		} else if (i >= x->cells.size() || y->cells[j].first < x->cells[i].first) {
			auto& q = y->cells[j++]; r->cells.push_back({q.first, Cell{q.second.n, mrg(def_val(x, q.second.n), q.second.v)}});
		} else {
			auto& p = x->cells[i++]; auto& q = y->cells[j++];
			r->cells.push_back({p.first, Cell{p.second.n, mrg(p.second.v, q.second.v)}});
		}
	}
	a = r;
}

static Lit merge_cond(Lit g1, Lit g2)
{
	auto& N = aig_nodes();
	if (!(g1 & 1) && !(g2 & 1) && N[g1 >> 1].kind == A_AND && N[g2 >> 1].kind == A_AND) {
		Lit a0 = N[g1 >> 1].a, a1 = N[g1 >> 1].b, b0 = N[g2 >> 1].a, b1 = N[g2 >> 1].b;
		if (a0 == not_(b0) && a1 == b1) return a0;
		if (a0 == not_(b1) && a1 == b0) return a0;
		if (a1 == not_(b0) && a0 == b1) return a1;
		if (a1 == not_(b1) && a0 == b0) return a1;
	}
	return g1;
}

static void merge_mem(State& ctx, MemP& a, const MemP& b, Lit c)
{
	if (a == b) return;
	auto m = std::make_shared<Mem>();
	size_t n = std::max(a->o.size(), b->o.size());
	m->o.resize(n);
	for (size_t i = 0; i < n; i++) {
		ObjP x = i < a->o.size() ? a->o[i] : nullptr, y = i < b->o.size() ? b->o[i] : nullptr;
		if (x == y) m->o[i] = x;
		else if (!x) m->o[i] = y;
		else if (!y) m->o[i] = x;
		else { merge_obj(ctx, x, y, c); m->o[i] = x; }
	}
	a = m;
}

// ---------------------------------------------------------------- execution
struct Act { // activation
	Func* f;
	vector<std::unique_ptr<State>> pend; vector<int> npend;
	vector<Lit> bguard; vector<size_t> bkill; vector<bool> bset;
	std::unique_ptr<State> ret; ValId retv = 0; bool anyret = false;
	vector<u64> allocas;
};

static inline ValId opv(State& s, int o) { return o >= 0 ? s.env[o] : (ValId)~o; }

static void exec_call(State& s, const Inst& I);
static bool exec_function(State& s, int fi, vector<ValId>& args, ValId& ret);

static void merge_state(State& a, State&& b, const vector<uint64_t>& live)
{
	Lit c = merge_cond(a.g, b.g);
	State ctx; ctx.g = or_(a.g, b.g);
	for (size_t i = 0; i < a.env.size(); i++) {
		if (!(live[i >> 6] >> (i & 63) & 1)) { a.env[i] = 0; continue; }
		if (a.env[i] == b.env[i]) continue;
		if (!a.env[i]) { a.env[i] = b.env[i]; continue; }
		if (!b.env[i]) continue;
		a.env[i] = v_ite(c, a.env[i], b.env[i]);
	}
	merge_mem(ctx, a.mem, b.mem, c);
	a.g = ctx.g;
}

static void edge(Act& A, State&& s, int from, int to)
{
	Block& B = A.f->b[to];
	if (!B.phis.empty()) {
		for (auto& pe : B.phis) if (pe.first == from) {
			vector<ValId> vals;
			for (auto& p : pe.second) vals.push_back(v_prune(opv(s, p.second), s.g));
			for (size_t i = 0; i < vals.size(); i++) s.env[pe.second[i].first] = vals[i];
			break;
		}
	}
	if (!A.pend[to]) { A.pend[to].reset(new State(std::move(s))); A.npend[to] = 1; }
	else { merge_state(*A.pend[to], std::move(s), B.live); A.npend[to]++; }
}

static void check_time()
{
	if (OPT_TIME > 0 && now_s() - T0 > OPT_TIME) finish_now("timeout");
}

static Lit branch_lit(State& s, ValId c, const char* what)
{
	c = v_prune(c, s.g);
	if (V(c).undef != F) { check_bad(s, V(c).undef, "uninit", string(what) + " depends on an uninitialised value"); c = v_prune(c, s.g); }
	return v_lit(c);
}

static void exec_block(Act& A, int bi)
{
	Func* f = A.f;
	Block& B = f->b[bi];
	std::unique_ptr<State> sp = std::move(A.pend[bi]);
	State& s = *sp;
	int np = A.npend[bi]; A.npend[bi] = 0;
	if (np > 1 && B.domGuard >= 0 && A.bset[B.domGuard]) {
		Lit g = A.bguard[B.domGuard];
		for (size_t i = A.bkill[B.domGuard]; i < KILLS.size(); i++) g = and_(g, not_(KILLS[i]));
		s.g = g;
	}
	if (s.g == F) return;
	for (size_t ii = 0; ii < B.insts.size(); ii++) {
		const Inst& I = B.insts[ii];
		STACK.back().at = &I;
		stats.insts++; f->icount++;
		if ((stats.insts & 255) == 0) check_time();
		switch (I.op) {
			case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem:
			case LLVMAnd: case LLVMOr: case LLVMXor: case LLVMShl: case LLVMLShr: case LLVMAShr:
			case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem:
				s.env[I.dst] = binop(s, I.op, opv(s, I.ops[0]), opv(s, I.ops[1]), I.w, I.fp, I.nsw); break;
			case LLVMFNeg: {
				ValId a = v_prune(opv(s, I.ops[0]), s.g);
				if (V(a).isTerm) s.env[I.dst] = v_term(t_un(T_FNEG, V(a).t, I.w, true), V(a).undef);
				else { Val r; r.w = I.w; r.fp = true; r.undef = V(a).undef; AltAcc acc; for (auto& p : V(a).alts) acc.add(p.first ^ (1ULL << (I.w - 1)), p.second); acc.finish(r); s.env[I.dst] = v_intern(std::move(r)); }
				break;
			}
			case LLVMICmp: s.env[I.dst] = icmp(s, I.pred, opv(s, I.ops[0]), opv(s, I.ops[1])); break;
			case LLVMFCmp: s.env[I.dst] = fcmp(s, I.pred, opv(s, I.ops[0]), opv(s, I.ops[1])); break;
			case LLVMTrunc: case LLVMZExt: case LLVMSExt: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast:
			case LLVMUIToFP: case LLVMSIToFP: case LLVMFPToUI: case LLVMFPToSI: case LLVMFPExt: case LLVMFPTrunc:
				s.env[I.dst] = castv(s, I.op, opv(s, I.ops[0]), I.w, I.fp); break;
			case LLVMFreeze: s.env[I.dst] = opv(s, I.ops[0]); break;
			case LLVMSelect: {
				ValId c = v_prune(opv(s, I.ops[0]), s.g);
				if (V(c).undef != F) { check_bad(s, V(c).undef, "uninit", "select depends on an uninitialised value"); c = v_prune(c, s.g); }
				s.env[I.dst] = v_prune(v_ite(v_lit(c), opv(s, I.ops[1]), opv(s, I.ops[2])), s.g); break;
			}
			case LLVMGetElementPtr: {
				ValId p = opv(s, I.ops[0]);
				if (I.k) p = binop(s, LLVMAdd, p, v_const(I.k, 64), 64, false, false);
				for (auto& g : I.gep) {
					ValId ix = opv(s, g.first);
					if (V(ix).w < 64) ix = castv(s, LLVMSExt, ix, 64, false);
					if (g.second != 1) ix = binop(s, LLVMMul, ix, v_const(g.second, 64), 64, false, false);
					p = binop(s, LLVMAdd, p, ix, 64, false, false);
				}
				s.env[I.dst] = p; break;
			}
			case LLVMAlloca: {
				ValId n = v_prune(opv(s, I.ops[0]), s.g);
				ValId sz; u64 cap;
				if (V(n).w < 64) n = castv(s, LLVMZExt, n, 64, false);
				sz = binop(s, LLVMMul, n, v_const(I.k, 64), 64, false, false);
				if (V(sz).isTerm) cap = 1u << 30; else cap = V(sz).alts.empty() ? 0 : V(sz).alts.back().first;
				u64 id = mem_alloc(s.mem, sz, cap, 1, false, "local of " + f->name + " (line " + std::to_string(I.line) + ")");
				A.allocas.push_back(id);
				s.env[I.dst] = v_const(id << 32, 64); break;
			}
			case LLVMLoad: s.env[I.dst] = I.ty ? agg_load(s, opv(s, I.ops[0]), I.ty) : mem_load(s, opv(s, I.ops[0]), I.bytes, I.w, I.fp); break;
			case LLVMStore: if (I.ty) { agg_store(s, opv(s, I.ops[1]), opv(s, I.ops[0]), I.ty); break; } mem_store(s, opv(s, I.ops[1]), opv(s, I.ops[0]), I.bytes); break;
			case LLVMExtractValue: {
				ValId a = opv(s, I.ops[0]);
				for (unsigned x : I.idx) a = V(a).agg.at(x);
				s.env[I.dst] = a; break;
			}
			case LLVMInsertValue: {
				s.env[I.dst] = agg_insert(opv(s, I.ops[0]), I.idx, 0, opv(s, I.ops[1])); break;
			}
			case LLVMCall: exec_call(s, I); break;
			case LLVMFence: break;
			case LLVMAtomicRMW: {
				ValId p = opv(s, I.ops[0]), v = opv(s, I.ops[1]), old = mem_load(s, p, I.bytes, I.w, false), n = v;
				switch (I.pred) {
					case LLVMAtomicRMWBinOpXchg: break;
					case LLVMAtomicRMWBinOpAdd: n = binop(s, LLVMAdd, old, v, I.w, false, false); break;
					case LLVMAtomicRMWBinOpSub: n = binop(s, LLVMSub, old, v, I.w, false, false); break;
					case LLVMAtomicRMWBinOpAnd: n = binop(s, LLVMAnd, old, v, I.w, false, false); break;
					case LLVMAtomicRMWBinOpOr: n = binop(s, LLVMOr, old, v, I.w, false, false); break;
					case LLVMAtomicRMWBinOpXor: n = binop(s, LLVMXor, old, v, I.w, false, false); break;
					default: engine_fail("atomic operation");
				}
				mem_store(s, p, n, I.bytes); s.env[I.dst] = old; break;
			}
			case LLVMAtomicCmpXchg: {
				ValId p = opv(s, I.ops[0]), e = opv(s, I.ops[1]), v = opv(s, I.ops[2]), old = mem_load(s, p, I.bytes, V(e).w, false);
				ValId c = icmp(s, LLVMIntEQ, old, e);
				mem_store(s, p, v_ite(v_lit(c), v, old), I.bytes);
				Val r; r.agg = {old, c}; s.env[I.dst] = v_intern(std::move(r)); break;
			}
			case LLVMUnreachable: check_bad(s, T, "ub", "unreachable code executed"); return;
			case LLVMRet: {
				ValId rv = I.ops.empty() ? 0 : v_prune(opv(s, I.ops[0]), s.g);
				s.env.clear();
				if (!A.ret) { A.ret = std::move(sp); A.retv = rv; }
				else {
					Lit c = merge_cond(A.ret->g, s.g);
					State ctx; ctx.g = or_(A.ret->g, s.g);
					if (rv) A.retv = v_ite(c, A.retv, rv);
					merge_mem(ctx, A.ret->mem, s.mem, c);
					A.ret->g = ctx.g;
				}
				return;
			}
			case LLVMBr: {
				A.bguard[bi] = s.g; A.bkill[bi] = KILLS.size(); A.bset[bi] = true;
				if (I.ops.empty()) { edge(A, std::move(s), bi, I.succ[0]); return; }
				Lit c = branch_lit(s, opv(s, I.ops[0]), "branch");
				A.bguard[bi] = s.g; A.bkill[bi] = KILLS.size();
				if (s.g == F) return;
				if (I.succ[0] == I.succ[1]) { edge(A, std::move(s), bi, I.succ[0]); return; }
				Lit gt = and_(s.g, c), gf = and_(s.g, not_(c));
				bool ft = feasible(gt, 2000), ff = feasible(gf, 2000);
				if (OPT_TRACE) fprintf(stderr, "%s:%d br %d %d insts=%llu aig=%zu\n", f->name.c_str(), I.line, ft, ff, (unsigned long long)stats.insts, aig_size());
				if (ft && ff) {
					State s2 = s; s2.g = gf;
					s.g = gt;
					edge(A, std::move(s), bi, I.succ[0]);
					edge(A, std::move(s2), bi, I.succ[1]);
				} else if (ft) edge(A, std::move(s), bi, I.succ[0]);
				else if (ff) edge(A, std::move(s), bi, I.succ[1]);
				return;
			}
			case LLVMSwitch: {
				ValId c = v_prune(opv(s, I.ops[0]), s.g);
				if (V(c).undef != F) { check_bad(s, V(c).undef, "uninit", "switch depends on an uninitialised value"); c = v_prune(c, s.g); }
				A.bguard[bi] = s.g; A.bkill[bi] = KILLS.size(); A.bset[bi] = true;
				if (s.g == F) return;
				Lit rest = s.g;
				std::map<int, Lit> tg;
				for (size_t k = 0; k < I.cases.size(); k++) {
					Lit e = v_eq_const(c, I.cases[k]);
					Lit g = and_(s.g, e);
					rest = and_(rest, not_(e));
					if (g != F) tg[I.succ[k + 1]] = tg.count(I.succ[k + 1]) ? or_(tg[I.succ[k + 1]], g) : g;
				}
				if (rest != F) tg[I.succ[0]] = tg.count(I.succ[0]) ? or_(tg[I.succ[0]], rest) : rest;
				vector<std::pair<int, Lit>> fe;
				for (auto& t : tg) if (feasible(t.second, 2000)) fe.push_back(t);
				for (size_t k = 0; k < fe.size(); k++) {
					State s2 = s;
					if (fe.size() > 1) s2.g = fe[k].second;
					edge(A, std::move(s2), bi, fe[k].first);
				}
				return;
			}
			default: engine_fail("unsupported opcode " + std::to_string(I.op));
		}
		if (s.g == F) return;
	}
}

static void run_items(Act& A, const vector<int>& items);
static void run_loop(Act& A, int li)
{
	Loop& L = A.f->loops[li];
	u64 it = 0;
	while (A.pend[L.header]) {
		State& h = *A.pend[L.header];
		if (it > 0 && !feasible(h.g, 20000)) { A.pend[L.header].reset(); break; }
		if (it > OPT_LOOP) {
			STACK.back().at = A.f->b[L.header].insts.empty() ? nullptr : &A.f->b[L.header].insts[0];
			check_bad(h, T, "loop-bound", "loop exceeds " + std::to_string(OPT_LOOP) + " iterations (non-termination?)");
			A.pend[L.header].reset(); break;
		}
		it++;
		stats.max_iter = std::max(stats.max_iter, it);
		run_items(A, L.items);
	}
}
static void run_items(Act& A, const vector<int>& items)
{
	for (int it : items) {
		if (it >= 0) { if (A.pend[it]) exec_block(A, it); }
		else run_loop(A, ~it);
	}
}

static void build_function(LLVMValueRef fv, Func& f);
static bool exec_function(State& s, int fi, vector<ValId>& args, ValId& ret)
{
	Func* f = &FN[fi];
	if (!f->built) { f->built = true; build_function(f->ir, *f); }
	if (STACK.size() > OPT_DEPTH) engine_fail("recursion depth");
	FEXEC.insert(f->name);
	f->calls++;
	double t0 = now_s();
	Act A; A.f = f;
	size_t nb = f->b.size();
	A.pend.resize(nb); A.npend.assign(nb, 0); A.bguard.assign(nb, F); A.bkill.assign(nb, 0); A.bset.assign(nb, false);
	Lit g0 = s.g; size_t k0 = KILLS.size();
	auto st = std::unique_ptr<State>(new State());
	st->g = s.g; st->mem = std::move(s.mem); st->env.assign(f->nregs, 0);
	for (int i = 0; i < f->nargs; i++) {
		ValId a = args[i];
		if (i < (int)f->byval.size() && f->byval[i]) {
			u64 n = f->byval[i];
			u64 id = mem_alloc(st->mem, v_const(n, 64), n, 1, false, "byval arg of " + f->name);
			A.allocas.push_back(id);
			vector<Loc> ls = resolve(*st, a, n, false, "read");
			if (ls.size() != 1) engine_fail("byval with several sources");
			Obj* d = mem_w(st->mem, id);
			const Obj* so = st->mem->o[ls[0].id].get();
			for (auto& c : so->cells) if (c.first >= ls[0].off && c.first + c.second.n <= ls[0].off + n) d->cells.push_back({c.first - ls[0].off, c.second});
			if (so->zero) d->zero = true;
			a = v_const(id << 32, 64);
		}
		st->env[i] = a;
	}
	STACK.push_back({f, nullptr});
	A.pend[0] = std::move(st); A.npend[0] = 1;
	run_items(A, f->topItems);
	STACK.pop_back();
	f->time += now_s() - t0;
	if (!A.ret || A.ret->g == F) { s.g = F; s.mem = std::make_shared<Mem>(); return false; }
	s.mem = std::move(A.ret->mem);
	Lit g = g0;
	for (size_t i = k0; i < KILLS.size(); i++) g = and_(g, not_(KILLS[i]));
	s.g = g;
	ret = A.retv;
	if (!A.allocas.empty()) {
		if (s.mem.use_count() > 1) s.mem = std::make_shared<Mem>(*s.mem);
		for (u64 id : A.allocas) if (id < s.mem->o.size()) s.mem->o[id].reset();
	}
	if (s.g == F) return false;
	return true;
}

// ---------------------------------------------------------------- builtins
static string read_cstr(State& s, ValId p)
{
	p = v_prune(p, s.g);
	if (!v_is_const(p)) return "?";
	u64 a = V(p).alts[0].first; string r;
	u64 id = a >> 32, off = a & 0xffffffff;
	if (id >= s.mem->o.size() || !s.mem->o[id]) return "?";
	const Obj* o = s.mem->o[id].get();
	for (;; off++) {
		ValId c = cell_read(s, o, off, 1);
		if (!v_is_const(c)) return r + "?";
		char ch = (char)V(c).alts[0].first;
		if (!ch) break;
		r += ch;
		if (r.size() > 500) break;
	}
	return r;
}
static void mem_copy(State& s, ValId dst, ValId src, ValId len)
{
	len = v_prune(len, s.g);
	if (V(len).undef != F) check_bad(s, V(len).undef, "uninit", "copy length uninitialised");
	if (V(len).isTerm) len = concretize(s, len, "copy length", 64);
	vector<std::pair<u64,Lit>> lens = V(len).alts;
	for (auto& lp : lens) {
		u64 n = lp.first; Lit gl = lens.size() == 1 ? T : lp.second;
		if (n == 0) continue;
		State t = s; t.g = and_(s.g, gl);
		if (!feasible(t.g, 500)) continue;
		size_t k0 = KILLS.size();
		vector<Loc> sl = resolve(t, src, n, false, "copy read");
		vector<Loc> dl = resolve(t, dst, n, true, "copy write");
		for (size_t i = k0; i < KILLS.size(); i++) s.g = and_(s.g, not_(KILLS[i]));
		// read the source image first
		struct Img { Lit g; vector<std::pair<u64,Cell>> c; };
		vector<Img> imgs;
		for (auto& q : sl) {
			Img im; im.g = q.g;
			ObjP so = s.mem->o[q.id];
			Obj tmp = *so;
			// cut at the borders
			vector<std::pair<u64,Cell>> cs;
			for (auto& c : tmp.cells) {
				u64 a = std::max<u64>(c.first, q.off), e = std::min<u64>(c.first + c.second.n, q.off + n);
				if (a >= e) continue;
				if (a == c.first && e == c.first + c.second.n) cs.push_back({a - q.off, c.second});
				else cs.push_back({a - q.off, Cell{(int)(e - a), slice_val(s, c.second.v, a - c.first, e - a)}});
			}
			// fill gaps with default
			vector<std::pair<u64,Cell>> full; u64 at = 0;
			for (auto& c : cs) {
				while (at < c.first) { int st = 1; if (at % 8 == 0 && at + 8 <= c.first) st = 8; else if (at % 4 == 0 && at + 4 <= c.first) st = 4; full.push_back({at, Cell{st, def_val(so.get(), st)}}); at += st; }
				full.push_back(c); at = c.first + c.second.n;
			}
			while (at < n) { int st = 1; if (at % 8 == 0 && at + 8 <= n) st = 8; else if (at % 4 == 0 && at + 4 <= n) st = 4; full.push_back({at, Cell{st, def_val(so.get(), st)}}); at += st; }
			im.c.swap(full);
			imgs.push_back(im);
		}
		for (auto& d : dl) {
			Obj* o = mem_w(s.mem, d.id);
			for (auto& im : imgs) {
				Lit g = and_(and_(d.g, im.g), gl);
				if (g == F) continue;
				for (auto& c : im.c) cell_write(s, o, d.off + c.first, c.second.n, c.second.v, g);
			}
		}
	}
}
static void mem_fill(State& s, ValId dst, ValId byte, ValId len)
{
	len = v_prune(len, s.g);
	if (V(len).isTerm) len = concretize(s, len, "memset length", 64);
	byte = v_prune(byte, s.g);
	vector<std::pair<u64,Lit>> lens = V(len).alts;
	for (auto& lp : lens) {
		u64 n = lp.first; Lit gl = lens.size() == 1 ? T : lp.second;
		if (n == 0) continue;
		State t = s; t.g = and_(s.g, gl);
		if (!feasible(t.g, 500)) continue;
		size_t k0 = KILLS.size();
		vector<Loc> dl = resolve(t, dst, n, true, "memset write");
		for (size_t i = k0; i < KILLS.size(); i++) s.g = and_(s.g, not_(KILLS[i]));
		for (auto& d : dl) {
			Obj* o = mem_w(s.mem, d.id);
			Lit g = and_(d.g, gl);
			if (v_is_const(byte) && g == T) {
				cell_clear(s, o, d.off, n);
				u64 bv = V(byte).alts[0].first & 0xff;
				if (bv == 0 && o->zero) continue;
				vector<std::pair<u64,Cell>> add;
				u64 at = d.off, e = d.off + n;
				u64 wd = bv * 0x0101010101010101ULL;
				while (at < e) { int st = 1; if (at % 4 == 0 && at + 4 <= e) st = 4; add.push_back({at, Cell{st, v_const(maskw(wd, st * 8), st * 8)}}); at += st; }
				size_t i = cell_lb(o, d.off);
				o->cells.insert(o->cells.begin() + i, add.begin(), add.end());
			} else for (u64 i = 0; i < n; i++) {
				// respect existing cells of matching layout when the fill byte is constant
				u64 at = d.off + i; size_t ci = cell_lb(o, at);
				if (v_is_const(byte) && ci < o->cells.size() && o->cells[ci].first == at && i + o->cells[ci].second.n <= n) {
					int cn = o->cells[ci].second.n; u64 wd = (V(byte).alts[0].first & 0xff) * 0x0101010101010101ULL;
					cell_write(s, o, at, cn, v_const(maskw(wd, cn * 8), cn * 8), g); i += cn - 1;
				} else cell_write(s, o, at, 1, byte, g);
			}
		}
	}
}
static void add_input(State& s, ValId v, char kind) { INPUTS.push_back({s.g, v, kind}); }

static ValId do_choice(State& s, ValId n)
{
	n = v_prune(n, s.g);
	if (V(n).isTerm) n = concretize(s, n, "choice bound", 64);
	if (V(n).undef != F) check_bad(s, V(n).undef, "uninit", "choice bound uninitialised");
	vector<std::pair<u64,Lit>> na = V(n).alts;
	u64 mx = 0;
	for (auto& p : na) mx = std::max(mx, p.first);
	if (mx == 0) engine_fail("choice of nothing");
	vector<Lit> b;
	for (u64 i = 0; i + 1 < mx; i++) b.push_back(new_input(1.0 / (mx - i)));
	Val r; r.w = 32; AltAcc acc;
	for (auto& p : na) {
		if (p.first == 0) engine_fail("choice of nothing (guarded)");
		Lit none = na.size() == 1 ? T : p.second;
		for (u64 j = 0; j < p.first; j++) {
			if (j + 1 == p.first) { acc.add(j, none); break; }
			acc.add(j, and_(none, b[j])); none = and_(none, not_(b[j]));
		}
	}
	acc.finish(r);
	ValId v = v_intern(std::move(r));
	add_input(s, v, 'c');
	return v;
}

static ValId alloc_val(State& s, ValId size, bool zero, const Inst& I)
{
	size = v_prune(size, s.g);
	if (V(size).undef != F) { check_bad(s, V(size).undef, "uninit", "allocation size uninitialised"); size = v_prune(size, s.g); }
	u64 cap = V(size).isTerm ? 1u << 31 : V(size).alts.back().first;
	string where = "heap block";
	for (int i = (int)STACK.size() - 1; i >= 0; i--) if (STACK[i].f->name.compare(0, 3, "vp_") != 0) { where = "heap block allocated in " + STACK[i].f->name; break; }
	u64 id = mem_alloc(s.mem, size, cap, 2, zero, where);
	return v_const(id << 32, 64);
}
static void do_free(State& s, ValId p)
{
	p = v_prune(p, s.g);
	if (V(p).undef != F) { check_bad(s, V(p).undef, "uninit", "free of an uninitialised pointer"); if (s.g == F) return; p = v_prune(p, s.g); }
	if (V(p).isTerm) engine_fail("free of term pointer");
	vector<std::pair<u64,Lit>> al = V(p).alts;
	for (auto& q : al) {
		u64 id = q.first >> 32, off = q.first & 0xffffffff;
		if (q.first == 0) continue;
		Lit g = q.second;
		if (id >= s.mem->o.size() || !s.mem->o[id] || s.mem->o[id]->kind != 2 || off) { check_bad(s, g, "memory", "free of a pointer that is not the start of a heap block"); if (s.g == F) return; continue; }
		const Obj* o = s.mem->o[id].get();
		if (o->freed != F) { check_bad(s, and_(g, o->freed), "memory", "double free of " + o->name); if (s.g == F) return; }
		Obj* ow = mem_w(s.mem, id);
		ow->freed = al.size() == 1 ? T : or_(ow->freed, g);
		if (ow->freed == T) ow->cells.clear();
	}
}

static std::map<string, int> BUILTIN;
enum { BI_CHOICE = 1, BI_U8, BI_U32, BI_U64, BI_DOUBLE, BI_ASSUME, BI_ASSERT, BI_COVER, BI_MALLOC, BI_CALLOC, BI_FREE, BI_MEMCPY, BI_MEMSET, BI_ABORT, BI_NOP, BI_FABS, BI_SQRT, BI_MEMCMP, BI_UMULO, BI_UADDO, BI_FMULADD, BI_OBJSIZE, BI_SYMBOLIC, BI_UMAX, BI_UMIN, BI_ISCONST, BI_PRINT, BI_PTRVALID, BI_REALLOC, BI_MATH, BI_SMAX, BI_SMIN, BI_EXPECT, BI_MATH2, BI_IABS, BI_BITS1, BI_SOV, BI_USUBO, BI_FRESH, BI_FSH, BI_FMIN, BI_FMAX };
typedef double (*math2)(double, double);
static math2 math2_fn(const string& n0)
{
	static std::map<string, math2> m = { {"pow", (math2)pow}, {"fmod", (math2)fmod}, {"hypot", (math2)hypot}, {"copysign", (math2)copysign}, {"fdim", (math2)fdim}, {"nextafter", (math2)nextafter}, {"atan2", (math2)atan2} };
	string n = n0;
	if (n.compare(0, 5, "llvm.") == 0 && n.size() > 9 && n[n.size() - 4] == '.' && n[n.size() - 3] == 'f') n = n.substr(5, n.size() - 9);
	if (n.size() > 3 && (n.back() == 'f' || n.back() == 'l') && m.count(n.substr(0, n.size() - 1))) n.pop_back();
	auto it = m.find(n);
	return it == m.end() ? nullptr : it->second;
}
typedef double (*math1)(double);
static math1 math_fn(const string& n0)
{
	static std::map<string, math1> m = {
		{"log2", (math1)log2}, {"log", (math1)log}, {"log10", (math1)log10}, {"floor", (math1)floor}, {"ceil", (math1)ceil}, {"exp", (math1)exp}, {"trunc", (math1)trunc}, {"round", (math1)round}, {"cbrt", (math1)cbrt}, {"rint", (math1)rint}, {"nearbyint", (math1)nearbyint}, {"exp2", (math1)exp2}, {"log1p", (math1)log1p}, {"expm1", (math1)expm1}, {"sin", (math1)sin}, {"cos", (math1)cos}, {"tan", (math1)tan}, {"atan", (math1)atan}, {"tanh", (math1)tanh},
	};
	string n = n0;
	if (n.compare(0, 5, "llvm.") == 0 && n.size() > 9 && (n.compare(n.size() - 4, 4, ".f64") == 0 || n.compare(n.size() - 4, 4, ".f32") == 0)) n = n.substr(5, n.size() - 9);
	if (n.size() > 3 && (n.back() == 'f' || n.back() == 'l') && m.count(n.substr(0, n.size() - 1))) n.pop_back();
	auto it = m.find(n);
	return it == m.end() ? nullptr : it->second;
}
static int builtin_of(const string& n)
{
	static std::map<string, int> m = {
		{"vp_choice", BI_CHOICE}, {"vp_any_u8", BI_U8}, {"vp_any_u32", BI_U32}, {"vp_any_u64", BI_U64}, {"vp_any_double", BI_DOUBLE},
		{"vp_assume", BI_ASSUME}, {"vp_assert_", BI_ASSERT}, {"vp_cover_", BI_COVER},
		{"malloc", BI_MALLOC}, {"vp_realloc_", BI_REALLOC}, {"calloc", BI_CALLOC}, {"free", BI_FREE}, {"memcpy", BI_MEMCPY}, {"memmove", BI_MEMCPY}, {"memset", BI_MEMSET},
		{"abort", BI_ABORT}, {"exit", BI_ABORT}, {"__assert_fail", BI_ABORT}, {"fabs", BI_FABS}, {"sqrt", BI_SQRT}, {"vp_symbolic", BI_SYMBOLIC}, {"vp_print", BI_PRINT}, {"fabsf", BI_FABS}, {"fabsl", BI_FABS}, {"sqrtf", BI_SQRT}, {"sqrtl", BI_SQRT}, {"_exit", BI_ABORT}, {"rand", BI_FRESH}, {"random", BI_FRESH}, {"time", BI_FRESH}, {"clock", BI_FRESH}, {"srand", BI_NOP}, {"srandom", BI_NOP},
		{"printf", BI_NOP}, {"fprintf", BI_NOP}, {"puts", BI_NOP}, {"fputs", BI_NOP}, {"putchar", BI_NOP}, {"fputc", BI_NOP}, {"fflush", BI_NOP}, {"perror", BI_NOP}, {"getenv", BI_NOP}, {"fmaf", BI_FMULADD}, {"fma", BI_FMULADD}, {"vp_valid_write", BI_PTRVALID},
	};
	auto it = m.find(n);
	if (it != m.end()) return it->second;
	if (math_fn(n)) return BI_MATH;
	if (math2_fn(n)) return BI_MATH2;
	auto pre = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
	if (pre("llvm.memcpy") || pre("llvm.memmove")) return BI_MEMCPY;
	if (pre("llvm.memset")) return BI_MEMSET;
	if (pre("llvm.lifetime") || pre("llvm.dbg") || pre("llvm.stack") || pre("llvm.assume") || pre("llvm.va_") || pre("llvm.experimental.noalias") || pre("llvm.donothing")) return BI_NOP;
	if (pre("llvm.fabs")) return BI_FABS;
	if (pre("llvm.threadlocal.address") || pre("llvm.ptr.annotation") || pre("llvm.annotation")) return BI_EXPECT;
	if (pre("llvm.abs")) return BI_IABS;
	if (pre("llvm.ctpop") || pre("llvm.ctlz") || pre("llvm.cttz") || pre("llvm.bswap") || pre("llvm.bitreverse")) return BI_BITS1;
	if (pre("llvm.usub.with.overflow")) return BI_USUBO;
	if (pre("llvm.sadd.with.overflow") || pre("llvm.ssub.with.overflow") || pre("llvm.smul.with.overflow")) return BI_SOV;
	if (pre("llvm.fshl") || pre("llvm.fshr")) return BI_FSH;
	if (pre("llvm.minnum")) return BI_FMIN;
	if (pre("llvm.maxnum")) return BI_FMAX;
	if (pre("llvm.trap") || pre("llvm.ubsantrap") || pre("llvm.debugtrap")) return BI_ABORT;
	if (pre("llvm.prefetch") || pre("llvm.invariant") || pre("llvm.var.annotation")) return BI_NOP;
	if (pre("llvm.fma.")) return BI_FMULADD;
	if (pre("llvm.sqrt")) return BI_SQRT;
	if (pre("llvm.umul.with.overflow")) return BI_UMULO;
	if (pre("llvm.uadd.with.overflow")) return BI_UADDO;
	if (pre("llvm.fmuladd")) return BI_FMULADD;
	if (pre("llvm.smax")) return BI_SMAX;
	if (pre("llvm.smin")) return BI_SMIN;
	if (pre("llvm.expect")) return BI_EXPECT;
	if (pre("llvm.umax")) return BI_UMAX;
	if (pre("llvm.umin")) return BI_UMIN;
	if (pre("llvm.is.constant")) return BI_ISCONST;
	return 0;
}
static ValId map_fp(State& s, ValId a, TOp op)
{
	a = v_prune(a, s.g);
	int w = V(a).w;
	if (V(a).isTerm) return v_term(t_un(op, V(a).t, w, true), V(a).undef);
	Val r; r.w = w; r.fp = true; r.undef = V(a).undef; AltAcc acc;
	for (auto& p : V(a).alts) acc.add(op == T_FABS ? fbits(fabs(fval(p.first, w)), w) : fbits(sqrt(fval(p.first, w)), w), p.second);
	acc.finish(r);
	return v_intern(std::move(r));
}

static void exec_builtin(State& s, const Inst& I, int bi, vector<ValId>& a)
{
	auto set = [&](ValId v) { if (I.dst >= 0) s.env[I.dst] = v; };
	switch (bi) {
		case BI_CHOICE: set(do_choice(s, a[0])); break;
		case BI_U8: { ValId v = v_term(t_var(8, false, "u8")); add_input(s, v, 'u'); set(v); break; }
		case BI_U32: { ValId v = v_term(t_var(32, false, "u32")); add_input(s, v, 'u'); set(v); break; }
		case BI_U64: { ValId v = v_term(t_var(64, false, "u64")); add_input(s, v, 'u'); set(v); break; }
		case BI_DOUBLE: { ValId v = v_term(t_var(64, true, "dbl")); add_input(s, v, 'd'); set(v); break; }
		case BI_SYMBOLIC: set(v_const(1, 32)); break;
		case BI_ASSUME: {
			ValId c = v_prune(a[0], s.g);
			Lit l = V(c).w == 1 ? v_lit(c) : not_(v_eq_const(c, 0));
			if (V(c).undef != F) { check_bad(s, V(c).undef, "uninit", "assumption depends on an uninitialised value"); }
			Lit k = and_(s.g, not_(l));
			if (k != F) { KILLS.push_back(k); s.g = and_(s.g, l); if (!feasible(s.g, 20000)) s.g = F; }
			break;
		}
		case BI_ASSERT: {
			string msg = read_cstr(s, a[1]);
			stats.asserts++; ASSERTS[msg]++;
			ValId c = v_prune(a[0], s.g);
			if (V(c).undef != F) { check_bad(s, V(c).undef, "uninit", "assertion '" + msg + "' reads an uninitialised value"); if (s.g == F) break; c = v_prune(c, s.g); }
			Lit l = V(c).w == 1 ? v_lit(c) : not_(v_eq_const(c, 0));
			check_bad(s, not_(l), "assert", msg);
			break;
		}
		case BI_COVER: {
			string msg = read_cstr(s, a[1]);
			ValId c = v_prune(a[0], s.g);
			Lit l = V(c).w == 1 ? v_lit(c) : not_(v_eq_const(c, 0));
			if (!COVER.count(msg)) COVER[msg] = 0;
			if (!COVER[msg] && decide(and_(s.g, l)) == 1) { COVER[msg] = 1; COVERIN[msg] = extract_inputs(sig_first(and_(s.g, l))); }
			break;
		}
		case BI_PRINT: {
			string msg = read_cstr(s, a[0]);
			fprintf(stderr, "[%s] ", msg.c_str());
			ValId c = v_prune(a[1], s.g);
			if (V(c).isTerm) fprintf(stderr, "term"); else for (auto& p : V(c).alts) fprintf(stderr, "%llx ", (unsigned long long)p.first);
			if (V(c).undef != F) fprintf(stderr, "undef");
			fprintf(stderr, " insts=%llu aig=%zu t=%.2f sat=%llu/%.2fs\n", (unsigned long long)stats.insts, aig_size(), now_s() - T0, (unsigned long long)stats.sat_calls, stats.sat_time);
			break;
		}
		case BI_PTRVALID: {
			// vp_valid_write(ptr, bytes): every byte of the range must be a writable part of a live object
			ValId n = v_prune(a[1], s.g), p = v_prune(a[0], s.g);
			if (V(p).isTerm) engine_fail("term pointer");
			vector<std::pair<u64,Lit>> al = V(p).alts;
			for (auto& q : al) {
				u64 id = q.first >> 32, off = q.first & 0xffffffff;
				if (id == 0 || id >= s.mem->o.size() || !s.mem->o[id]) { check_bad(s, q.second, "memory", "buffer passed to callback is not an object"); continue; }
				const Obj* o = s.mem->o[id].get();
				TermId need = t_bin(T_ADD, v_to_term(n), t_const(off, 64, false));
				Lit bad = t_atom(P_ULT, v_to_term(o->size), need);
				check_bad(s, and_(q.second, or_(bad, o->freed)), "memory", "buffer passed to callback is smaller than promised (" + o->name + ")");
			}
			break;
		}
		case BI_MALLOC: set(alloc_val(s, a[0], false, I)); break;
		case BI_CALLOC: set(alloc_val(s, binop(s, LLVMMul, a[0], a[1], 64, false, false), true, I)); break;
		case BI_FREE: do_free(s, a[0]); break;
		case BI_REALLOC: {
			ValId p = v_prune(a[0], s.g);
			if (V(p).undef != F) { check_bad(s, V(p).undef, "uninit", "realloc of an uninitialised pointer"); if (s.g == F) break; p = v_prune(p, s.g); }
			if (V(p).isTerm) engine_fail("realloc of term pointer");
			vector<std::pair<u64,Lit>> al = V(p).alts;
			Val r; r.w = 64; AltAcc acc;
			for (auto& q : al) {
				u64 id = q.first >> 32, off = q.first & 0xffffffff;
				if (id == 0 || id >= s.mem->o.size() || !s.mem->o[id] || s.mem->o[id]->kind != 2 || off) { check_bad(s, q.second, "memory", "realloc of a pointer that is not the start of a heap block"); if (s.g == F) return; continue; }
				ObjP old = s.mem->o[id];
				ValId np = alloc_val(s, a[1], old->zero, I);
				u64 nid = V(np).alts[0].first >> 32;
				Obj* no = mem_w(s.mem, nid);
				for (auto& c : old->cells) if (c.first + c.second.n <= no->cap) no->cells.push_back(c);
				acc.add(nid << 32, al.size() == 1 ? T : q.second);
			}
			do_free(s, p);
			acc.finish(r);
			set(v_intern(std::move(r)));
			break;
		}
		case BI_MEMCPY: mem_copy(s, a[0], a[1], a[2]); set(a[0]); break;
		case BI_MEMSET: { ValId b = a[1]; if (V(b).w > 8) b = castv(s, LLVMTrunc, b, 8, false); mem_fill(s, a[0], b, a[2]); set(a[0]); break; }
		case BI_ABORT: {
			string msg = "program terminated by " + I.name;
			if (I.name == "__assert_fail") msg = "internal assertion failed: " + read_cstr(s, a[0]);
			check_bad(s, T, "abort", msg); s.g = F; break;
		}
		case BI_NOP: if (I.dst >= 0) set(v_const(0, I.w ? I.w : 64)); break;
		case BI_FABS: set(map_fp(s, a[0], T_FABS)); break;
		case BI_SQRT: set(map_fp(s, a[0], T_FSQRT)); break;
		case BI_UMAX: case BI_UMIN: { ValId c = icmp(s, bi == BI_UMAX ? LLVMIntUGE : LLVMIntULE, a[0], a[1]); set(v_ite(v_lit(c), a[0], a[1])); break; }
		case BI_SMAX: case BI_SMIN: { ValId c = icmp(s, bi == BI_SMAX ? LLVMIntSGE : LLVMIntSLE, a[0], a[1]); set(v_ite(v_lit(c), a[0], a[1])); break; }
		case BI_EXPECT: set(a[0]); break;
		case BI_FRESH: set(v_term(t_var(I.w, false, "env"))); break; // a value of the environment: anything
		case BI_IABS: { int w = V(a[0]).w; ValId n = binop(s, LLVMSub, v_const(0, w), a[0], w, false, false); ValId c = icmp(s, LLVMIntSLT, a[0], v_const(0, w)); set(v_ite(v_lit(c), n, a[0])); break; }
		case BI_FMIN: case BI_FMAX: {
			ValId na = fcmp(s, LLVMRealUNO, a[0], a[0]), nb = fcmp(s, LLVMRealUNO, a[1], a[1]);
			ValId c = fcmp(s, bi == BI_FMIN ? LLVMRealOLT : LLVMRealOGT, a[0], a[1]);
			set(v_ite(v_lit(na), a[1], v_ite(or_(v_lit(nb), v_lit(c)), a[0], a[1]))); break;
		}
		case BI_MATH2: {
			ValId x = v_prune(a[0], s.g), y = v_prune(a[1], s.g);
			if (V(x).isTerm || V(y).isTerm) engine_fail(I.name + " of a symbolic term");
			math2 fn = math2_fn(I.name);
			int w = V(x).w;
			Val r; r.w = w; r.fp = true; r.undef = or_(V(x).undef, V(y).undef); AltAcc acc;
			for (auto& p : V(x).alts) for (auto& q : V(y).alts) { Lit g = and_(p.second, q.second); if (g != F) acc.add(fbits(fn(fval(p.first, w), fval(q.first, w)), w), g); }
			acc.finish(r); set(v_intern(std::move(r))); break;
		}
		case BI_BITS1: {
			ValId x = v_prune(a[0], s.g);
			if (V(x).isTerm) x = concretize(s, x, "bit operation", 512);
			int w = V(x).w;
			Val r; r.w = w; r.undef = V(x).undef; AltAcc acc;
			for (auto& p : V(x).alts) {
				u64 k = p.first, o = 0;
				if (I.name.find("ctpop") != string::npos) o = __builtin_popcountll(k);
				else if (I.name.find("ctlz") != string::npos) o = k ? __builtin_clzll(k) - (64 - w) : w;
				else if (I.name.find("cttz") != string::npos) o = k ? __builtin_ctzll(k) : w;
				else if (I.name.find("bswap") != string::npos) o = __builtin_bswap64(k) >> (64 - w);
				else for (int i = 0; i < w; i++) if (k >> i & 1) o |= 1ULL << (w - 1 - i);
				acc.add(o, p.second);
			}
			acc.finish(r); set(v_intern(std::move(r))); break;
		}
		case BI_FSH: {
			int w = V(a[0]).w;
			ValId n = binop(s, LLVMURem, a[2], v_const(w, w), w, false, false), z = icmp(s, LLVMIntEQ, n, v_const(0, w));
			ValId m = v_ite(v_lit(z), v_const(1, w), n), c = binop(s, LLVMSub, v_const(w, w), m, w, false, false);
			bool left = I.name.find("fshl") != string::npos;
			ValId r = binop(s, LLVMOr, binop(s, LLVMShl, a[0], left ? m : c, w, false, false), binop(s, LLVMLShr, a[1], left ? c : m, w, false, false), w, false, false);
			set(v_ite(v_lit(z), left ? a[0] : a[1], r)); break;
		}
		case BI_USUBO: {
			int w = V(a[0]).w;
			Val r; r.agg = {binop(s, LLVMSub, a[0], a[1], w, false, false), icmp(s, LLVMIntULT, a[0], a[1])}; set(v_intern(std::move(r))); break;
		}
		case BI_SOV: {
			int w = V(a[0]).w;
			LLVMOpcode op = I.name.find("sadd") != string::npos ? LLVMAdd : I.name.find("ssub") != string::npos ? LLVMSub : LLVMMul;
			ValId res = binop(s, op, a[0], a[1], w, false, false), ov;
			if (w <= 32) {
				ValId m = binop(s, op, castv(s, LLVMSExt, a[0], 64, false), castv(s, LLVMSExt, a[1], 64, false), 64, false, false);
				ov = icmp(s, LLVMIntNE, m, castv(s, LLVMSExt, res, 64, false));
			} else if (op == LLVMMul) engine_fail("64-bit smul.with.overflow");
			else {
				ValId sa = icmp(s, LLVMIntSLT, a[0], v_const(0, w)), sb = icmp(s, LLVMIntSLT, a[1], v_const(0, w)), sr = icmp(s, LLVMIntSLT, res, v_const(0, w));
				Lit x = v_lit(sa), y = op == LLVMAdd ? v_lit(sb) : not_(v_lit(sb)), z = v_lit(sr);
				ov = v_bool(and_(not_(mux(x, not_(y), y)), mux(x, not_(z), z)));
			}
			Val r; r.agg = {res, ov}; set(v_intern(std::move(r))); break;
		}
		case BI_MATH: {
			ValId x = v_prune(a[0], s.g);
			if (V(x).isTerm) engine_fail(I.name + " of a symbolic term");
			math1 fn = math_fn(I.name);
			int w = V(x).w;
			Val r; r.w = w; r.fp = true; r.undef = V(x).undef; AltAcc acc;
			for (auto& p : V(x).alts) acc.add(fbits(fn(fval(p.first, w)), w), p.second);
			acc.finish(r); set(v_intern(std::move(r))); break;
		}
		case BI_FMULADD: { int w = V(a[0]).w; set(binop(s, LLVMFAdd, binop(s, LLVMFMul, a[0], a[1], w, true, false), a[2], w, true, false)); break; }
		case BI_UADDO: case BI_UMULO: {
			int w = V(a[0]).w; ValId res, ov;
			if (bi == BI_UADDO) { res = binop(s, LLVMAdd, a[0], a[1], w, false, false); ov = icmp(s, LLVMIntULT, res, a[0]); }
			else if (w <= 32) {
				ValId m = binop(s, LLVMMul, castv(s, LLVMZExt, a[0], 64, false), castv(s, LLVMZExt, a[1], 64, false), 64, false, false);
				res = castv(s, LLVMTrunc, m, w, false); ov = icmp(s, LLVMIntUGT, m, v_const((1ULL << w) - 1, 64));
			} else {
				res = binop(s, LLVMMul, a[0], a[1], 64, false, false);
				ov = icmp(s, LLVMIntNE, v_term(t_bin(T_MULHI, v_to_term(a[0]), v_to_term(a[1]))), v_const(0, 64));
			}
			Val r; r.agg = {res, ov}; set(v_intern(std::move(r))); break;
		}
		case BI_ISCONST: set(v_bool(F)); break;
		default: engine_fail("builtin");
	}
}

static void exec_call(State& s, const Inst& I)
{
	vector<ValId> args;
	if (I.fn >= 0) {
		Func& f = FN[I.fn];
		int bi = builtin_of(f.name);
		for (size_t i = 0; i < I.ops.size(); i++) args.push_back(I.ops[i] == INT32_MAX ? 0 : v_prune(opv(s, I.ops[i]), s.g));
		if (bi && (f.decl || bi < BI_MALLOC)) { exec_builtin(s, I, bi, args); return; }
		if (f.decl) engine_fail("call of undefined function " + f.name);
		ValId r = 0;
		vector<ValId> env = std::move(s.env);
		bool ok = exec_function(s, I.fn, args, r);
		s.env = std::move(env);
		if (ok && I.dst >= 0) s.env[I.dst] = r;
		return;
	}
	// indirect
	for (size_t i = 0; i + 1 < I.ops.size(); i++) args.push_back(v_prune(opv(s, I.ops[i]), s.g));
	ValId fp = v_prune(opv(s, I.ops.back()), s.g);
	if (V(fp).undef != F) { check_bad(s, V(fp).undef, "uninit", "call through an uninitialised pointer"); fp = v_prune(fp, s.g); }
	if (V(fp).isTerm) engine_fail("call through term");
	vector<std::pair<u64,Lit>> al = V(fp).alts;
	struct Tgt { int f; Lit g; };
	vector<Tgt> tg;
	for (auto& q : al) {
		u64 id = q.first >> 32; int fi = -1;
		if ((q.first & 0xffffffff) == 0 && id && id < s.mem->o.size() && s.mem->o[id] && s.mem->o[id]->kind == 3) fi = (int)s.mem->o[id]->cap;
		if (fi < 0) { check_bad(s, q.second, "memory", q.first ? "call through an invalid function pointer" : "call through a null function pointer"); if (s.g == F) return; continue; }
		tg.push_back({fi, q.second});
	}
	if (tg.empty()) { s.g = F; return; }
	vector<ValId> env = std::move(s.env);
	bool any = false; State acc; ValId racc = 0;
	State base; base.g = s.g; base.mem = s.mem;
	size_t k0 = KILLS.size();
	for (auto& t : tg) {
		State c; c.g = tg.size() == 1 ? base.g : and_(base.g, t.g); c.mem = base.mem;
		if (!feasible(c.g, 1000)) continue;
		ValId r = 0; vector<ValId> ar = args;
		if (FN[t.f].decl) engine_fail("indirect call of undefined function " + FN[t.f].name);
		if ((int)ar.size() < FN[t.f].nargs) engine_fail("indirect call arity");
		if (!exec_function(c, t.f, ar, r)) continue;
		if (!any) { acc.g = c.g; acc.mem = c.mem; racc = r; any = true; }
		else {
			Lit cc = merge_cond(acc.g, c.g);
			State ctx; ctx.g = or_(acc.g, c.g);
			if (r && racc) racc = v_ite(cc, racc, r);
			merge_mem(ctx, acc.mem, c.mem, cc);
			acc.g = ctx.g;
		}
	}
	s.env = std::move(env);
	if (!any) { s.g = F; return; }
	s.mem = acc.mem;
	Lit g = base.g;
	for (size_t i = k0; i < KILLS.size(); i++) g = and_(g, not_(KILLS[i]));
	s.g = g;
	if (I.dst >= 0) s.env[I.dst] = racc;
}

// ---------------------------------------------------------------- module loading
static void ty_info(LLVMTypeRef t, uint8_t& w, bool& fp)
{
	switch (LLVMGetTypeKind(t)) {
		case LLVMIntegerTypeKind: { unsigned x = LLVMGetIntTypeWidth(t); if (x > 64) engine_fail("integer wider than 64 bits"); w = x; fp = false; return; }
		case LLVMPointerTypeKind: w = 64; fp = false; return;
		case LLVMDoubleTypeKind: w = 64; fp = true; return;
		case LLVMFloatTypeKind: w = 32; fp = true; return;
		case LLVMX86_FP80TypeKind: w = 64; fp = true; return; // long double: computed in double precision
		case LLVMVoidTypeKind: case LLVMMetadataTypeKind: case LLVMLabelTypeKind: w = 0; fp = false; return;
		case LLVMStructTypeKind: case LLVMArrayTypeKind: w = 0; fp = false; return;
		default: engine_fail("unsupported type kind " + std::to_string(LLVMGetTypeKind(t)));
	}
}
static ValId agg_of(LLVMTypeRef t, bool undef)
{
	Val r;
	unsigned n = LLVMGetTypeKind(t) == LLVMStructTypeKind ? LLVMCountStructElementTypes(t) : LLVMGetArrayLength(t);
	for (unsigned i = 0; i < n; i++) {
		LLVMTypeRef e = LLVMGetTypeKind(t) == LLVMStructTypeKind ? LLVMStructGetTypeAtIndex(t, i) : LLVMGetElementType(t);
		uint8_t w; bool fp; ty_info(e, w, fp);
		if (!w) r.agg.push_back(agg_of(e, undef)); else r.agg.push_back(undef ? v_undef(w, fp) : v_const(0, w, fp));
	}
	return v_intern(std::move(r));
}
static ValId const_val(LLVMValueRef c)
{
	LLVMTypeRef t = LLVMTypeOf(c);
	uint8_t w; bool fp; ty_info(t, w, fp);
	if (LLVMIsAConstantInt(c)) return v_const(LLVMConstIntGetZExtValue(c), w);
	if (LLVMIsAConstantFP(c)) { LLVMBool li; return v_const(fbits(LLVMConstRealGetDouble(c, &li), w), w, true); }
	if (LLVMIsAPoisonValue(c) || LLVMIsAUndefValue(c)) return w ? v_undef(w, fp) : agg_of(t, true);
	if (LLVMIsAConstantPointerNull(c)) return v_const(0, 64);
	if (LLVMIsAConstantAggregateZero(c)) return agg_of(t, false);
	if (GADDR.count(c)) return v_const(GADDR[c], 64);
	if (LLVMIsAConstantExpr(c)) {
		State s; s.g = T;
		LLVMOpcode op = LLVMGetConstOpcode(c);
		switch (op) {
			case LLVMGetElementPtr: {
				u64 base = V(const_val(LLVMGetOperand(c, 0))).alts[0].first;
				LLVMTypeRef et = LLVMGetGEPSourceElementType(c);
				unsigned n = LLVMGetNumOperands(c);
				for (unsigned i = 1; i < n; i++) {
					int64_t ix = LLVMConstIntGetSExtValue(LLVMGetOperand(c, i));
					if (i == 1) base += ix * LLVMABISizeOfType(TD, et);
					else if (LLVMGetTypeKind(et) == LLVMStructTypeKind) { base += LLVMOffsetOfElement(TD, et, ix); et = LLVMStructGetTypeAtIndex(et, ix); }
					else { et = LLVMGetElementType(et); base += ix * LLVMABISizeOfType(TD, et); }
				}
				return v_const(base, 64);
			}
			case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: return castv(s, op, const_val(LLVMGetOperand(c, 0)), w, fp);
			default: engine_fail("constant expression opcode");
		}
	}
	if (LLVMIsAInlineAsm(c)) return v_const(0, 64);
	char* str = LLVMPrintValueToString(c);
	engine_fail(string("unsupported constant ") + str);
}
static void init_cells(State& s, Obj* o, u64 off, LLVMValueRef c)
{
	LLVMTypeRef t = LLVMTypeOf(c);
	if (LLVMIsAConstantAggregateZero(c) || LLVMIsAConstantPointerNull(c) || LLVMIsAUndefValue(c)) return; // zero default
	if (LLVMIsAConstantDataSequential(c)) {
		unsigned n = LLVMGetArrayLength(t); u64 es = LLVMABISizeOfType(TD, LLVMGetElementType(t));
		for (unsigned i = 0; i < n; i++) o->cells.push_back({off + i * es, Cell{(int)es, const_val(LLVMGetElementAsConstant(c, i))}});
		return;
	}
	if (LLVMIsAConstantArray(c)) {
		unsigned n = LLVMGetArrayLength(t); u64 es = LLVMABISizeOfType(TD, LLVMGetElementType(t));
		for (unsigned i = 0; i < n; i++) init_cells(s, o, off + i * es, LLVMGetOperand(c, i));
		return;
	}
	if (LLVMIsAConstantStruct(c)) {
		unsigned n = LLVMCountStructElementTypes(t);
		for (unsigned i = 0; i < n; i++) init_cells(s, o, off + LLVMOffsetOfElement(TD, t, i), LLVMGetOperand(c, i));
		return;
	}
	ValId v = const_val(c);
	int n = LLVMGetTypeKind(t) == LLVMX86_FP80TypeKind ? 8 : LLVMStoreSizeOfType(TD, t);
	if (V(v).w == 1) v = v_const(V(v).alts[0].first, 8);
	o->cells.push_back({off, Cell{n, v}});
}

static void build_function(LLVMValueRef fv, Func& f)
{
	f.name = LLVMGetValueName(fv);
	f.decl = LLVMIsDeclaration(fv);
	f.nargs = LLVMCountParams(fv);
	if (f.decl) return;
	static unsigned byvalKind = LLVMGetEnumAttributeKindForName("byval", 5);
	std::map<LLVMValueRef, int> R; std::map<LLVMBasicBlockRef, int> BI;
	int nr = 0;
	for (int i = 0; i < f.nargs; i++) {
		R[LLVMGetParam(fv, i)] = nr++;
		LLVMAttributeRef at = LLVMGetEnumAttributeAtIndex(fv, i + 1, byvalKind);
		f.byval.push_back(at ? LLVMABISizeOfType(TD, LLVMGetTypeAttributeValue(at)) : 0);
	}
	int nb = 0;
	for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(fv); b; b = LLVMGetNextBasicBlock(b)) {
		BI[b] = nb++;
		for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
			if (LLVMGetTypeKind(LLVMTypeOf(i)) != LLVMVoidTypeKind) R[i] = nr++;
		}
	}
	f.nregs = nr;
	f.b.resize(nb);
	auto opnd = [&](LLVMValueRef v) -> int {
		auto it = R.find(v);
		if (it != R.end()) return it->second;
		return ~(int)const_val(v);
	};
	for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(fv); b; b = LLVMGetNextBasicBlock(b)) {
		Block& B = f.b[BI[b]];
		for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
			LLVMOpcode op = LLVMGetInstructionOpcode(i);
			if (op == LLVMPHI) {
				int dst = R[i];
				unsigned n = LLVMCountIncoming(i);
				for (unsigned k = 0; k < n; k++) {
					int pb = BI[LLVMGetIncomingBlock(i, k)]; int o = opnd(LLVMGetIncomingValue(i, k));
					bool done = false;
					for (auto& pe : B.phis) if (pe.first == pb) { bool dup = false; for (auto& q : pe.second) if (q.first == dst) dup = true; if (!dup) pe.second.push_back({dst, o}); done = true; }
					if (!done) B.phis.push_back({pb, {{dst, o}}});
				}
				continue;
			}
			Inst I; I.op = op;
			LLVMTypeRef t = LLVMTypeOf(i);
			if (LLVMGetTypeKind(t) != LLVMVoidTypeKind) { I.dst = R[i]; ty_info(t, I.w, I.fp); }
			I.line = LLVMGetDebugLocLine(i);
			unsigned fl = 0; const char* fnm = LLVMGetDebugLocFilename(i, &fl);
			if (fnm) I.file = string(fnm, fl);
			unsigned no = LLVMGetNumOperands(i);
			switch (op) {
				case LLVMBr:
					if (LLVMIsConditional(i)) I.ops.push_back(opnd(LLVMGetCondition(i)));
					for (unsigned k = 0; k < LLVMGetNumSuccessors(i); k++) I.succ.push_back(BI[LLVMGetSuccessor(i, k)]);
					B.succ = I.succ; break;
				case LLVMSwitch:
					I.ops.push_back(opnd(LLVMGetOperand(i, 0)));
					for (unsigned k = 0; k < LLVMGetNumSuccessors(i); k++) I.succ.push_back(BI[LLVMGetSuccessor(i, k)]);
					for (unsigned k = 2; k < no; k += 2) I.cases.push_back(LLVMConstIntGetZExtValue(LLVMGetOperand(i, k)));
					B.succ = I.succ; break;
				case LLVMGetElementPtr: {
					I.ops.push_back(opnd(LLVMGetOperand(i, 0)));
					LLVMTypeRef et = LLVMGetGEPSourceElementType(i);
					for (unsigned k = 1; k < no; k++) {
						LLVMValueRef ix = LLVMGetOperand(i, k);
						u64 scale;
						if (k == 1) scale = LLVMABISizeOfType(TD, et);
						else if (LLVMGetTypeKind(et) == LLVMStructTypeKind) { u64 c = LLVMConstIntGetZExtValue(ix); I.k += LLVMOffsetOfElement(TD, et, c); et = LLVMStructGetTypeAtIndex(et, c); continue; }
						else { et = LLVMGetElementType(et); scale = LLVMABISizeOfType(TD, et); }
						if (LLVMIsAConstantInt(ix)) I.k += LLVMConstIntGetSExtValue(ix) * scale;
						else I.gep.push_back({opnd(ix), scale});
					}
					break;
				}
				case LLVMAlloca: I.ops.push_back(opnd(LLVMGetOperand(i, 0))); I.k = LLVMABISizeOfType(TD, LLVMGetAllocatedType(i)); break;
				case LLVMLoad: I.ops.push_back(opnd(LLVMGetOperand(i, 0))); I.bytes = LLVMStoreSizeOfType(TD, t); if (!I.w) I.ty = t; else if (LLVMGetTypeKind(t) == LLVMX86_FP80TypeKind) I.bytes = 8; break;
				case LLVMStore: { I.ops.push_back(opnd(LLVMGetOperand(i, 0))); I.ops.push_back(opnd(LLVMGetOperand(i, 1))); LLVMTypeRef vt = LLVMTypeOf(LLVMGetOperand(i, 0)); uint8_t w; bool fp; ty_info(vt, w, fp); I.bytes = LLVMStoreSizeOfType(TD, vt); if (!w) I.ty = vt; else if (LLVMGetTypeKind(vt) == LLVMX86_FP80TypeKind) I.bytes = 8; break; }
				case LLVMICmp: I.pred = LLVMGetICmpPredicate(i); I.ops = {opnd(LLVMGetOperand(i, 0)), opnd(LLVMGetOperand(i, 1))}; break;
				case LLVMFCmp: I.pred = LLVMGetFCmpPredicate(i); I.ops = {opnd(LLVMGetOperand(i, 0)), opnd(LLVMGetOperand(i, 1))}; break;
				case LLVMExtractValue: case LLVMInsertValue: {
					I.ops.push_back(opnd(LLVMGetOperand(i, 0)));
					if (op == LLVMInsertValue) I.ops.push_back(opnd(LLVMGetOperand(i, 1)));
					unsigned n = LLVMGetNumIndices(i); const unsigned* ix = LLVMGetIndices(i);
					for (unsigned k = 0; k < n; k++) I.idx.push_back(ix[k]);
					break;
				}
				case LLVMCall: {
					LLVMValueRef cv = LLVMGetCalledValue(i);
					unsigned na = LLVMGetNumArgOperands(i);
					if (FNID.count(cv)) { I.fn = FNID[cv]; I.name = LLVMGetValueName(cv); }
					bool dbg = I.fn >= 0 && I.name.compare(0, 9, "llvm.dbg.") == 0;
					if (dbg) continue;
					for (unsigned k = 0; k < na; k++) { LLVMValueRef a = LLVMGetOperand(i, k); if (LLVMGetTypeKind(LLVMTypeOf(a)) == LLVMMetadataTypeKind) I.ops.push_back(INT32_MAX); else I.ops.push_back(opnd(a)); }
					if (I.fn < 0) I.ops.push_back(opnd(cv));
					break;
				}
				case LLVMAtomicRMW: case LLVMAtomicCmpXchg:
					if (op == LLVMAtomicRMW) I.pred = LLVMGetAtomicRMWBinOp(i);
					I.bytes = LLVMStoreSizeOfType(TD, LLVMTypeOf(LLVMGetOperand(i, 1)));
					for (unsigned k = 0; k < no; k++) I.ops.push_back(opnd(LLVMGetOperand(i, k)));
					break;
				default:
					if (op == LLVMAdd || op == LLVMSub || op == LLVMMul) I.nsw = LLVMGetNSW(i);
					for (unsigned k = 0; k < no; k++) I.ops.push_back(opnd(LLVMGetOperand(i, k)));
			}
			B.insts.push_back(I);
		}
	}
	// ---- CFG analyses
	auto& b = f.b;
	for (int i = 0; i < nb; i++) { std::sort(b[i].succ.begin(), b[i].succ.end()); b[i].succ.erase(std::unique(b[i].succ.begin(), b[i].succ.end()), b[i].succ.end()); }
	vector<bool> reach(nb, false); vector<int> st{0}; reach[0] = true;
	while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y : b[x].succ) if (!reach[y]) { reach[y] = true; st.push_back(y); } }
	for (int i = 0; i < nb; i++) if (reach[i]) for (int y : b[i].succ) b[y].pred.push_back(i);
	// dominators (bitsets)
	auto dom = [&](bool post) {
		vector<vector<bool>> D(nb, vector<bool>(nb, true));
		vector<bool> isroot(nb, false);
		if (!post) isroot[0] = true; else for (int i = 0; i < nb; i++) if (reach[i] && !b[i].insts.empty() && b[i].insts.back().op == LLVMRet) isroot[i] = true;
		for (int i = 0; i < nb; i++) if (isroot[i]) { D[i].assign(nb, false); D[i][i] = true; }
		bool ch = true;
		while (ch) {
			ch = false;
			for (int q = 0; q < nb; q++) {
				int i = post ? nb - 1 - q : q;
				if (!reach[i] || isroot[i]) continue;
				vector<bool> n(nb, true); bool any = false;
				for (int y : (post ? b[i].succ : b[i].pred)) { if (!reach[y]) continue; any = true; for (int k = 0; k < nb; k++) if (!D[y][k]) n[k] = false; }
				if (!any && !post) n.assign(nb, false);
				n[i] = true; // (post: blocks that never return keep the full set)
				if (n != D[i]) { D[i] = n; ch = true; }
			}
		}
		return D;
	};
	auto D = dom(false), PD = dom(true);
	// natural loops
	std::map<int, vector<bool>> lp;
	for (int i = 0; i < nb; i++) if (reach[i]) for (int h : b[i].succ) if (D[i][h]) {
		auto& body = lp[h]; if (body.empty()) body.assign(nb, false);
		body[h] = true; vector<int> w{i};
		while (!w.empty()) { int x = w.back(); w.pop_back(); if (body[x]) continue; body[x] = true; for (int p : b[x].pred) w.push_back(p); }
	}
	for (auto& l : lp) { Loop L; L.header = l.first; L.body = l.second; f.loops.push_back(L); }
	auto cnt = [&](const vector<bool>& v) { return std::count(v.begin(), v.end(), true); };
	for (size_t i = 0; i < f.loops.size(); i++) {
		long best = 1 << 30;
		for (size_t j = 0; j < f.loops.size(); j++) if (i != j && f.loops[j].body[f.loops[i].header] && cnt(f.loops[j].body) > cnt(f.loops[i].body) && cnt(f.loops[j].body) < best) { best = cnt(f.loops[j].body); f.loops[i].parent = j; }
	}
	for (int x = 0; x < nb; x++) { long best = 1 << 30; for (size_t j = 0; j < f.loops.size(); j++) if (f.loops[j].body[x] && cnt(f.loops[j].body) < best) { best = cnt(f.loops[j].body); b[x].loop = j; } }
	// item order per region: topological over condensed graph
	auto order = [&](int region) {
		// node of block x at this region level
		auto nodeof = [&](int x) -> int { // returns block or ~loop ; INT_MIN outside
			if (region >= 0 && !f.loops[region].body[x]) return INT32_MIN;
			int l = b[x].loop;
			if (l == region) return x;
			while (l >= 0 && f.loops[l].parent != region) l = f.loops[l].parent;
			if (l < 0) return INT32_MIN;
			return ~l;
		};
		std::map<int, std::set<int>> succ; std::map<int, int> indeg;
		for (int x = 0; x < nb; x++) if (reach[x]) {
			int nx = nodeof(x); if (nx == INT32_MIN) continue;
			indeg[nx];
			for (int y : b[x].succ) {
				if (region >= 0 && y == f.loops[region].header) continue;
				int ny = nodeof(y); if (ny == INT32_MIN || ny == nx) { if (ny == nx && nx >= 0) engine_fail("irreducible"); continue; }
				succ[nx].insert(ny);
			}
		}
		for (auto& q : succ) for (int y : q.second) indeg[y]++;
		vector<int> out, w;
		for (auto& q : indeg) if (!q.second) w.push_back(q.first);
		while (!w.empty()) { int x = w.back(); w.pop_back(); out.push_back(x); for (int y : succ[x]) if (--indeg[y] == 0) w.push_back(y); }
		if (out.size() != indeg.size()) engine_fail("irreducible control flow in " + f.name);
		return out;
	};
	f.topItems = order(-1);
	for (size_t i = 0; i < f.loops.size(); i++) f.loops[i].items = order(i);
	// guard recovery points
	for (int x = 0; x < nb; x++) if (reach[x]) {
		// nearest dominator d != x in the same loop with x postdominating d
		int bestd = -1; long bestc = -1;
		for (int d = 0; d < nb; d++) if (d != x && reach[d] && D[x][d] && b[d].loop == b[x].loop && PD[d][x]) { long c = cnt(D[d]); if (c > bestc) { bestc = c; bestd = d; } }
		b[x].domGuard = bestd;
	}
	// liveness
	size_t nw = (nr + 63) / 64;
	vector<vector<uint64_t>> use(nb, vector<uint64_t>(nw, 0)), def = use;
	for (int x = 0; x < nb; x++) {
		b[x].live.assign(nw, 0);
		for (auto& pe : b[x].phis) for (auto& p : pe.second) def[x][p.first >> 6] |= 1ULL << (p.first & 63);
		for (auto& I : b[x].insts) {
			auto u = [&](int o) { if (o >= 0 && o != INT32_MAX && !(def[x][o >> 6] >> (o & 63) & 1)) use[x][o >> 6] |= 1ULL << (o & 63); };
			for (int o : I.ops) u(o);
			for (auto& g : I.gep) u(g.first);
			if (I.dst >= 0) def[x][I.dst >> 6] |= 1ULL << (I.dst & 63);
		}
	}
	vector<vector<uint64_t>> lin(nb, vector<uint64_t>(nw, 0));
	bool ch = true;
	while (ch) {
		ch = false;
		for (int x = nb - 1; x >= 0; x--) {
			vector<uint64_t> lo(nw, 0);
			for (int y : b[x].succ) {
				for (size_t k = 0; k < nw; k++) lo[k] |= lin[y][k];
				for (auto& pe : b[y].phis) if (pe.first == x) for (auto& p : pe.second) if (p.second >= 0) lo[p.second >> 6] |= 1ULL << (p.second & 63);
			}
			for (size_t k = 0; k < nw; k++) { uint64_t n = use[x][k] | (lo[k] & ~def[x][k]); if (n != lin[x][k]) { lin[x][k] = n; ch = true; } }
		}
	}
	for (int x = 0; x < nb; x++) { // live at merge point: live-in plus the phi results just assigned
		b[x].live = lin[x];
		for (auto& pe : b[x].phis) for (auto& p : pe.second) b[x].live[p.first >> 6] |= 1ULL << (p.first & 63);
	}
}

static void on_alarm(int) { finish_now("timeout"); }

extern void (*slow_hook)(double, int, long);
static void slow(double dt, int r, long cf)
{
	fprintf(stderr, "slow %.2fs res=%d limit=%ld", dt, r, cf);
	for (int i = (int)STACK.size() - 1; i >= 0 && i > (int)STACK.size() - 4; i--) fprintf(stderr, " @%s:%d", STACK[i].f->name.c_str(), STACK[i].at ? STACK[i].at->line : 0);
	fprintf(stderr, "\n");
}
int main(int argc, char** argv)
{
	T0 = now_s();
	string file, entry = "main";
	for (int i = 1; i < argc; i++) {
		string a = argv[i];
		if (a == "--out") OUTFILE = argv[++i];
		else if (a == "--time") OPT_TIME = atof(argv[++i]);
		else if (a == "--loop") OPT_LOOP = atoll(argv[++i]);
		else if (a == "--entry") entry = argv[++i];
		else if (a == "--max-violations") OPT_MAXVIOL = atoi(argv[++i]);
		else if (a == "--trace") OPT_TRACE = true;
		else if (a == "--prof") OPT_PROF = true;
		else if (a == "--slow") slow_hook = slow;
		else file = a;
	}
	and_(T, T);
	if (OPT_TIME > 0) { signal(SIGALRM, on_alarm); alarm((unsigned)OPT_TIME + 2); }
	LLVMContextRef C = LLVMContextCreate();
	LLVMMemoryBufferRef mb; char* err = nullptr;
	if (LLVMCreateMemoryBufferWithContentsOfFile(file.c_str(), &mb, &err)) { fprintf(stderr, "%s\n", err); return 2; }
	if (LLVMParseIRInContext(C, mb, &MOD, &err)) { fprintf(stderr, "%s\n", err); return 2; }
	TD = LLVMGetModuleDataLayout(MOD);
	State s; s.g = T; s.mem = std::make_shared<Mem>(); s.mem->o.resize(1);
	for (LLVMValueRef f = LLVMGetFirstFunction(MOD); f; f = LLVMGetNextFunction(f)) {
		int id = FN.size(); FN.emplace_back(); FNID[f] = id;
		FN[id].name = LLVMGetValueName(f);
		u64 o = mem_alloc(s.mem, v_const(1, 64), id, 3, false, FN[id].name);
		GADDR[f] = o << 32;
	}
	vector<LLVMValueRef> gl;
	for (LLVMValueRef g = LLVMGetFirstGlobal(MOD); g; g = LLVMGetNextGlobal(g)) {
		LLVMTypeRef t = LLVMGlobalGetValueType(g);
		u64 sz = LLVMABISizeOfType(TD, t);
		u64 o = mem_alloc(s.mem, v_const(sz, 64), sz, LLVMIsGlobalConstant(g) ? 4 : 0, true, LLVMGetValueName(g));
		GADDR[g] = o << 32; gl.push_back(g);
	}
	for (auto g : gl) if (LLVMGetInitializer(g)) {
		Obj* o = mem_w(s.mem, GADDR[g] >> 32);
		init_cells(s, o, 0, LLVMGetInitializer(g));
	}
	for (LLVMValueRef f = LLVMGetFirstFunction(MOD); f; f = LLVMGetNextFunction(f)) { Func& x = FN[FNID[f]]; x.ir = f; x.decl = LLVMIsDeclaration(f); x.nargs = LLVMCountParams(f); }
	int e = -1;
	for (size_t i = 0; i < FN.size(); i++) if (FN[i].name == entry && !FN[i].decl) e = i;
	if (e < 0) { fprintf(stderr, "no entry\n"); return 2; }
	vector<ValId> args; ValId r = 0;
	for (int i = 0; i < FN[e].nargs; i++) args.push_back(v_const(0, i == 0 ? 32 : 64));
	exec_function(s, e, args, r);
	write_report();
	return VIOL.empty() ? 0 : 1;
}
