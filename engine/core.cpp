#include "core.h"
#include <z3++.h>
#include <minisat/core/Solver.h>

Stats stats;
size_t VS_MAX = 4096;
static std::mt19937_64 rng(12345);

double now_s()
{
	using namespace std::chrono;
	return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ AIG
static std::vector<ANode> N;
static std::vector<u64> SIG;              // W words per node
static std::unordered_map<u64, Lit> AH;
static std::vector<TNode> TN;
static std::vector<std::vector<u64>> TV;  // values per pattern
static std::vector<std::string> TNAME;
static std::vector<Atom> ATOMS;           // ANode.a indexes this for A_ATOM
static uint32_t SEQ = 0;

std::vector<ANode>& aig_nodes() { return N; }
size_t aig_size() { return N.size(); }

static void aig_init()
{
	if (!N.empty()) return;
	N.push_back({0, 0, A_CONST, 2, false, SEQ++});
	SIG.assign(W, 0);
}

static inline u64 sigw(Lit l, int w) { u64 s = SIG[(size_t)(l >> 1) * W + w]; return (l & 1) ? ~s : s; }
bool sig_zero(Lit l) { for (int i = 0; i < W; i++) if (sigw(l, i)) return false; return true; }
bool sig_bit(Lit l, int p) { return (sigw(l, p >> 6) >> (p & 63)) & 1; }
int sig_first(Lit l) { for (int i = 0; i < W; i++) { u64 s = sigw(l, i); if (s) return i * 64 + __builtin_ctzll(s); } return -1; }

static int sat_pair(Lit a, Lit b, long confl);
static void ms_equal(Lit a, Lit b);
static std::unordered_map<u64, std::vector<uint32_t>> CLS; // functional classes by signature
static long FRAIG = getenv("VSE_FRAIG") ? atol(getenv("VSE_FRAIG")) : 1000;
static u64 sig_hash(uint32_t n, bool& neg)
{
	const u64* p = &SIG[(size_t)n * W];
	neg = p[0] & 1;
	u64 h = 0, x = neg ? ~0ULL : 0;
	for (int i = 0; i < MODEL_BASE / 64; i++) { h = (h ^ (p[i] ^ x)) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; }
	return h;
}
static bool sig_same(uint32_t a, uint32_t b, bool neg)
{
	u64 x = neg ? ~0ULL : 0;
	for (int i = 0; i < W; i++) if (SIG[(size_t)a * W + i] != (SIG[(size_t)b * W + i] ^ x)) return false;
	return true;
}
static Lit mk_and(Lit a, Lit b)
{
	if (a > b) std::swap(a, b);
	u64 key = ((u64)a << 32) | b;
	auto it = AH.find(key);
	if (it != AH.end()) { if (N[it->second >> 1].status == 2) return (it->second & 1) ? T : F; return it->second; }
	uint32_t id = N.size();
	N.push_back({a, b, A_AND, 0, N[a >> 1].theory || N[b >> 1].theory, SEQ++});
	size_t base = SIG.size();
	SIG.resize(base + W);
	for (int i = 0; i < W; i++) SIG[base + i] = sigw(a, i) & sigw(b, i);
	AH.emplace(key, id << 1);
	if (FRAIG > 0 && !N[id].theory) {
		bool neg; u64 h = sig_hash(id, neg);
		bool zero = true; for (int i = 0; i < W && zero; i++) if (SIG[base + i]) zero = false;
		if (zero) {
			int r = sat_pair(id << 1, T, FRAIG);
			if (r == 0) { N[id].status = 2; AH[key] = F; ms_equal(id << 1, F); return F; }
			if (r == 1) N[id].status = 1;
			return id << 1; // do not class near-constant nodes
		}
		auto& c = CLS[h];
		int tries = 0;
		for (size_t k = 0; k < c.size() && tries < 3; k++) {
			uint32_t o = c[k];
			bool on; sig_hash(o, on);
			if (!sig_same(id, o, on != neg)) continue;
			tries++;
			Lit ol = (o << 1) | (on != neg);
			if (sat_pair(id << 1, not_(ol), FRAIG) == 0 && sat_pair(not_(id << 1), ol, FRAIG) == 0) {
				AH[key] = ol; stats.merged++; ms_equal(id << 1, ol); return ol;
			}
		}
		CLS[h].push_back(id);
	}
	return id << 1;
}

static inline bool isAnd(Lit l) { return N[l >> 1].kind == A_AND; }

Lit and_(Lit a, Lit b)
{
	if (N.empty()) aig_init();
	for (;;) {
		if (N[a >> 1].status == 2 && (a >> 1)) a = (a & 1) ? T : F;
		if (N[b >> 1].status == 2 && (b >> 1)) b = (b & 1) ? T : F;
		if (a == F || b == F) return F;
		if (a == T) return b;
		if (b == T) return a;
		if (a == b) return a;
		if (a == not_(b)) return F;
		// two-level simplifications
		bool again = false;
		for (int sw = 0; sw < 2 && !again; sw++) {
			Lit x = sw ? b : a, y = sw ? a : b; // look inside x
			if (!isAnd(x)) continue;
			Lit x0 = N[x >> 1].a, x1 = N[x >> 1].b;
			if (!(x & 1)) { // x = x0 & x1
				if (x0 == not_(y) || x1 == not_(y)) return F;
				if (x0 == y || x1 == y) return x;
				if (isAnd(y) && !(y & 1)) {
					Lit y0 = N[y >> 1].a, y1 = N[y >> 1].b;
					if (x0 == not_(y0) || x0 == not_(y1) || x1 == not_(y0) || x1 == not_(y1)) return F;
					// shared conjunct: (p&q)&(p&r) = (p&q)&r
					if (x0 == y0 || x1 == y0) { a = x; b = y1; again = true; break; }
					if (x0 == y1 || x1 == y1) { a = x; b = y0; again = true; break; }
				}
				if (isAnd(y) && (y & 1)) {
					Lit y0 = N[y >> 1].a, y1 = N[y >> 1].b; // y = !(y0&y1)
					if (x0 == not_(y0) || x0 == not_(y1) || x1 == not_(y0) || x1 == not_(y1)) return x;
					if (x0 == y0 || x1 == y0) { a = x; b = not_(y1); again = true; break; }
					if (x0 == y1 || x1 == y1) { a = x; b = not_(y0); again = true; break; }
				}
			} else { // x = !(x0 & x1)
				if (x0 == not_(y) || x1 == not_(y)) return y;
				if (x0 == y) { a = not_(x1); b = y; again = true; break; }
				if (x1 == y) { a = not_(x0); b = y; again = true; break; }
				if (isAnd(y) && (y & 1)) {
					Lit y0 = N[y >> 1].a, y1 = N[y >> 1].b;
					// !(p&q) & !(p&!q) = !p
					if (x0 == y0 && x1 == not_(y1)) return not_(x0);
					if (x0 == y1 && x1 == not_(y0)) return not_(x0);
					if (x1 == y0 && x0 == not_(y1)) return not_(x1);
					if (x1 == y1 && x0 == not_(y0)) return not_(x1);
				}
			}
		}
		if (again) continue;
		return mk_and(a, b);
	}
}

Lit mux(Lit c, Lit a, Lit b)
{
	if (c == T) return a;
	if (c == F) return b;
	if (a == b) return a;
	if (a == c) a = T;
	else if (a == not_(c)) a = F;
	if (b == c) b = F;
	else if (b == not_(c)) b = T;
	if (a == T && b == F) return c;
	if (a == F && b == T) return not_(c);
	if (a == T) return or_(c, b);
	if (a == F) return and_(not_(c), b);
	if (b == T) return or_(not_(c), a);
	if (b == F) return and_(c, a);
	return or_(and_(c, a), and_(not_(c), b));
}

Lit new_input(double p)
{
	aig_init();
	uint32_t id = N.size();
	N.push_back({0, 0, A_INPUT, 0, false, SEQ++});
	size_t base = SIG.size();
	SIG.resize(base + W);
	std::uniform_real_distribution<double> d(0, 1);
	for (int i = 0; i < W; i++) {
		u64 s = 0;
		for (int j = 0; j < 64; j++) if (d(rng) < p) s |= 1ULL << j;
		SIG[base + i] = s;
	}
	return id << 1;
}

// ------------------------------------------------------------------ terms
struct TKey { TOp op; uint8_t w; bool fp; TermId a, b; Lit c; u64 k;
	bool operator==(const TKey& o) const { return op == o.op && w == o.w && fp == o.fp && a == o.a && b == o.b && c == o.c && k == o.k; } };
struct TKH { size_t operator()(const TKey& k) const { u64 h = k.op * 1000003ULL + k.w * 7919 + k.fp; h = h * 0x9E3779B97F4A7C15ULL + k.a; h = h * 0x9E3779B97F4A7C15ULL + k.b; h = h * 0x9E3779B97F4A7C15ULL + k.c; h = h * 0x9E3779B97F4A7C15ULL + k.k; return h ^ (h >> 29); } };
static std::unordered_map<TKey, TermId, TKH> TH;

const TNode& tnode(TermId t) { return TN[t]; }

static bool sigb(Lit l, int p) { return sig_bit(l, p); }

static u64 term_eval1(const TNode& n, int p, u64 old)
{
	u64 a = 0, b = 0;
	if (n.op != T_VAR && n.op != T_CONST) { a = TV[n.a][p]; b = TV[n.b][p]; }
	int w = n.w;
	switch (n.op) {
		case T_VAR: return old;
		case T_CONST: return n.k;
		case T_ADD: return maskw(a + b, w);
		case T_SUB: return maskw(a - b, w);
		case T_MUL: return maskw(a * b, w);
		case T_MULHI: return (u64)(((unsigned __int128)a * b) >> 64);
		case T_UDIV: return b ? a / b : maskw(~0ULL, w);
		case T_UREM: return b ? a % b : a;
		case T_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return maskw(x < 0 ? 1 : ~0ULL, w); if (y == -1) return maskw(0 - a, w); return maskw(x / y, w); }
		case T_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return maskw(x % y, w); }
		case T_AND: return a & b;
		case T_OR: return a | b;
		case T_XOR: return a ^ b;
		case T_SHL: return b >= (u64)w ? 0 : maskw(a << b, w);
		case T_LSHR: return b >= (u64)w ? 0 : a >> b;
		case T_ASHR: return maskw((u64)(sextw(a, w) >> (b >= (u64)w ? w - 1 : b)), w);
		case T_ZEXT: return a;
		case T_SEXT: return maskw((u64)sextw(a, TN[n.a].w), w);
		case T_TRUNC: return maskw(a, w);
		case T_ITE: return sigb(n.c, p) ? a : b;
		case T_FADD: return fbits(fval(a, w) + fval(b, w), w);
		case T_FSUB: return fbits(fval(a, w) - fval(b, w), w);
		case T_FMUL: return fbits(fval(a, w) * fval(b, w), w);
		case T_FDIV: return fbits(fval(a, w) / fval(b, w), w);
		case T_FNEG: return a ^ (1ULL << (w - 1));
		case T_FABS: return a & ~(1ULL << (w - 1));
		case T_FSQRT: return fbits(sqrt(fval(a, w)), w);
		case T_SITOFP: return w == 32 ? fbits((float)sextw(a, TN[n.a].w), 32) : asu((double)sextw(a, TN[n.a].w));
		case T_UITOFP: return w == 32 ? fbits((float)a, 32) : asu((double)a);
		case T_FCONV: return fbits(fval(a, TN[n.a].w), w);
		case T_BITS: return a;
		case T_FPTOUI: { double d = fval(a, TN[n.a].w); if (!(d > -1.0 && d < 18446744073709551616.0)) return 0; return maskw((u64)d, w); }
		case T_FPTOSI: { double d = fval(a, TN[n.a].w); if (!(d > -9.3e18 && d < 9.2e18)) return 0; return maskw((u64)(int64_t)d, w); }
	}
	return 0;
}

static TermId t_mk(TOp op, int w, bool fp, TermId a, TermId b, Lit c, u64 k)
{
	TKey key{op, (uint8_t)w, fp, a, b, c, k};
	auto it = TH.find(key);
	if (it != TH.end()) return it->second;
	TermId id = TN.size();
	TN.push_back({op, (uint8_t)w, fp, a, b, c, k, SEQ++});
	TNAME.push_back("");
	TV.emplace_back(NPAT);
	for (int p = 0; p < NPAT; p++) TV[id][p] = term_eval1(TN[id], p, 0);
	TH.emplace(key, id);
	return id;
}

static u64 rnd_bv(int w)
{
	u64 m = maskw(~0ULL, w);
	switch (rng() % 8) {
		case 0: case 1: case 2: return rng() % 5 & m;
		case 3: return rng() % 16 & m;
		case 4: return (m - rng() % 4) & m;
		case 5: return (1ULL << (rng() % w)) & m;
		case 6: { u64 x = 1ULL << (rng() % w); return (x + (rng() % 3) - 1) & m; }
		default: return rng() & m;
	}
}
static u64 rnd_fp()
{
	static const double sp[] = {0.0, -0.0, 1.0, -1.0, 2.0, 3.0, 0.5, INFINITY, -INFINITY, NAN, 1e300, 1e-300, -2.0, 4.0, 0.1};
	switch (rng() % 4) {
		case 0: return rng();
		case 1: return asu((double)(int64_t)(rng() % 9) - 4);
		default: return asu(sp[rng() % (sizeof(sp) / sizeof(*sp))]);
	}
}

TermId t_var(int w, bool fp, const std::string& name)
{
	static u64 ctr = 0;
	TermId id = t_mk(T_VAR, w, fp, 0, 0, 0, ++ctr);
	TNAME[id] = name + "_" + std::to_string(ctr);
	for (int p = 0; p < NPAT; p++) TV[id][p] = fp ? (w == 32 ? fbits(asd(rnd_fp()), 32) : rnd_fp()) : rnd_bv(w);
	return id;
}
TermId t_const(u64 v, int w, bool fp) { return t_mk(T_CONST, w, fp, 0, 0, 0, maskw(v, w)); }
u64 t_eval(TermId t, int p) { return TV[t][p]; }

static bool fop(TOp op) { return op >= T_FADD && op <= T_FDIV; }

TermId t_bin(TOp op, TermId a, TermId b)
{
	int w = TN[a].w;
	bool fp = fop(op);
	if (TN[a].op == T_CONST && TN[b].op == T_CONST) {
		TNode n{op, (uint8_t)w, fp, a, b, 0, 0, 0};
		return t_const(term_eval1(n, 0, 0), w, fp);
	}
	if (!fp) {
		bool ac = TN[a].op == T_CONST, bc = TN[b].op == T_CONST;
		u64 ak = TN[a].k, bk = TN[b].k;
		if ((op == T_ADD || op == T_OR || op == T_XOR) && ac && ak == 0) return b;
		if ((op == T_ADD || op == T_SUB || op == T_OR || op == T_XOR || op == T_SHL || op == T_LSHR || op == T_ASHR) && bc && bk == 0) return a;
		if (op == T_MUL && ((ac && ak == 0) || (bc && bk == 0))) return t_const(0, w, false);
		if (op == T_MUL && ac && ak == 1) return b;
		if ((op == T_MUL || op == T_UDIV || op == T_SDIV) && bc && bk == 1) return a;
		if (op == T_AND && ((ac && ak == 0) || (bc && bk == 0))) return t_const(0, w, false);
		if (op == T_SUB && a == b) return t_const(0, w, false);
		if ((op == T_ADD || op == T_MUL || op == T_AND || op == T_OR || op == T_XOR) && a > b) std::swap(a, b);
	} else if ((op == T_FADD || op == T_FMUL) && a > b) std::swap(a, b);
	return t_mk(op, w, fp, a, b, 0, 0);
}
TermId t_un(TOp op, TermId a, int w, bool fp)
{
	if (TN[a].op == T_CONST) {
		TNode n{op, (uint8_t)w, fp, a, a, 0, 0, 0};
		return t_const(term_eval1(n, 0, 0), w, fp);
	}
	if ((op == T_ZEXT || op == T_SEXT || op == T_TRUNC) && TN[a].w == w) return a;
	return t_mk(op, w, fp, a, a, 0, 0);
}
TermId t_ite(Lit c, TermId a, TermId b)
{
	if (c == T || a == b) return a;
	if (c == F) return b;
	return t_mk(T_ITE, TN[a].w, TN[a].fp, a, b, c, 0);
}

struct AKey { Pred p; TermId a, b; bool operator<(const AKey& o) const { return p != o.p ? p < o.p : a != o.a ? a < o.a : b < o.b; } };
static std::map<AKey, Lit> ATH;

static bool atom_eval(const Atom& at, int p)
{
	u64 a = TV[at.a][p], b = TV[at.b][p];
	int w = TN[at.a].w;
	switch (at.p) {
		case P_EQ: return a == b;
		case P_ULT: return a < b;
		case P_ULE: return a <= b;
		case P_SLT: return sextw(a, w) < sextw(b, w);
		case P_SLE: return sextw(a, w) <= sextw(b, w);
		case P_FOEQ: return fval(a, w) == fval(b, w);
		case P_FOLT: return fval(a, w) < fval(b, w);
		case P_FOLE: return fval(a, w) <= fval(b, w);
		case P_FUNO: return std::isnan(fval(a, w)) || std::isnan(fval(b, w));
	}
	return false;
}

Lit t_atom(Pred p, TermId a, TermId b)
{
	aig_init();
	if (TN[a].op == T_CONST && TN[b].op == T_CONST) { Atom at{p, a, b}; return atom_eval(at, 0) ? T : F; }
	if (a == b) { if (p == P_EQ || p == P_ULE || p == P_SLE) return T; if (p == P_ULT || p == P_SLT || p == P_FOLT) return F; }
	if ((p == P_EQ || p == P_FOEQ || p == P_FUNO) && a > b) std::swap(a, b);
	if (p == P_SLE) return not_(t_atom(P_SLT, b, a));
	if (p == P_ULE) return not_(t_atom(P_ULT, b, a));
	if (p == P_ULT && TN[b].op == T_CONST && TN[b].k == 0) return F;
	AKey k{p, a, b};
	auto it = ATH.find(k);
	if (it != ATH.end()) return it->second;
	uint32_t id = N.size();
	N.push_back({(Lit)ATOMS.size(), 0, A_ATOM, 0, true, SEQ++});
	ATOMS.push_back({p, a, b});
	size_t base = SIG.size();
	SIG.resize(base + W);
	for (int i = 0; i < W; i++) { u64 s = 0; for (int j = 0; j < 64; j++) if (atom_eval(ATOMS.back(), i * 64 + j)) s |= 1ULL << j; SIG[base + i] = s; }
	ATH.emplace(k, id << 1);
	return id << 1;
}

// ------------------------------------------------------------------ solver back ends
static Minisat::Solver* MS;
static std::vector<int> MSV;        // node -> minisat var or -1
static z3::context* ZC;
static z3::solver* ZS;
static std::vector<int> ZDEF;       // node defined?
static std::unordered_map<TermId, z3::expr*> ZT;
static unsigned z3_timeout_ms = 0;

static int next_model_pat = MODEL_BASE;

// recompute pattern p for all nodes/terms after inputs changed at p
static void resim(int p)
{
	int w = p >> 6; u64 bit = 1ULL << (p & 63);
	size_t ti = 0;
	for (size_t i = 1; i < N.size(); i++) {
		while (ti < TN.size() && TN[ti].seq < N[i].seq) { TV[ti][p] = term_eval1(TN[ti], p, TV[ti][p]); ti++; }
		bool v;
		if (N[i].kind == A_AND) v = sig_bit(N[i].a, p) && sig_bit(N[i].b, p);
		else if (N[i].kind == A_ATOM) v = atom_eval(ATOMS[N[i].a], p);
		else continue;
		u64& s = SIG[i * W + w];
		if (v) s |= bit; else s &= ~bit;
	}
	while (ti < TN.size()) { TV[ti][p] = term_eval1(TN[ti], p, TV[ti][p]); ti++; }
}

// Facts about value sets handed to the SAT solver as redundant clauses: alternatives of one
// value exclude each other, and one of them holds wherever the owning path guard holds.
struct Group { std::vector<Lit> alts; Lit guard; uint32_t seen, need; };
static std::vector<Group> GR;
static std::unordered_map<uint32_t, std::vector<uint32_t>> GOF; // node -> groups
static std::set<std::vector<Lit>> GKEY;
void v_fact(const std::vector<std::pair<u64, Lit>>& alts, Lit undef, Lit guard)
{
	if (alts.size() < 2 || alts.size() > 40) return;
	std::vector<Lit> k;
	for (auto& a : alts) { if (N[a.second >> 1].theory) return; k.push_back(a.second); }
	if (N[guard >> 1].theory || undef != F) guard = F;
	std::vector<Lit> key = k; key.push_back(guard);
	if (!GKEY.insert(key).second) return;
	uint32_t gi = GR.size();
	GR.push_back({k, guard, 0, 0});
	std::set<uint32_t> ns; for (Lit l : k) ns.insert(l >> 1);
	if (guard != F && guard != T) ns.insert(guard >> 1);
	GR[gi].need = ns.size();
	for (uint32_t n : ns) { GOF[n].push_back(gi); if (n < MSV.size() && MSV[n] >= 0) GR[gi].seen++; }
}
static std::vector<uint32_t> NEWV;
static Minisat::Lit msl(Lit l) { return Minisat::mkLit(MSV[l >> 1], l & 1); }
static void ms_groups()
{
	for (uint32_t n : NEWV) {
		auto it = GOF.find(n);
		if (it == GOF.end()) continue;
		for (uint32_t gi : it->second) {
			Group& g = GR[gi];
			for (Lit a : g.alts) if ((a >> 1) == n) for (Lit b : g.alts) if (b != a && MSV[b >> 1] >= 0) MS->addClause(~msl(a), ~msl(b));
			g.seen++;
			if (g.seen == g.need && g.guard != F) {
				Minisat::vec<Minisat::Lit> c;
				for (Lit a : g.alts) c.push(msl(a));
				if (g.guard != T) c.push(~msl(g.guard));
				MS->addClause(c);
			}
		}
	}
	NEWV.clear();
}
static void ms_cone(uint32_t root)
{
	if (!MS) { MS = new Minisat::Solver(); }
	if (MSV.size() < N.size()) MSV.resize(N.size(), -1);
	std::vector<uint32_t> st{root};
	while (!st.empty()) {
		uint32_t n = st.back(); st.pop_back();
		if (MSV[n] >= 0) continue;
		int v = MS->newVar();
		MSV[n] = v; NEWV.push_back(n);
		if (N[n].kind == A_CONST) { MS->addClause(~Minisat::mkLit(v)); continue; }
		if (N[n].kind == A_AND) { st.push_back(N[n].a >> 1); st.push_back(N[n].b >> 1); }
	}
}
static std::vector<bool> MSC; // clauses added
static void ms_clauses(uint32_t root)
{
	if (MSC.size() < N.size()) MSC.resize(N.size(), false);
	std::vector<uint32_t> st{root};
	while (!st.empty()) {
		uint32_t n = st.back(); st.pop_back();
		if (MSC[n]) continue;
		MSC[n] = true;
		if (N[n].kind != A_AND) continue;
		Minisat::Lit o = Minisat::mkLit(MSV[n]);
		Lit a = N[n].a, b = N[n].b;
		Minisat::Lit la = Minisat::mkLit(MSV[a >> 1], a & 1), lb = Minisat::mkLit(MSV[b >> 1], b & 1);
		MS->addClause(~o, la); MS->addClause(~o, lb); MS->addClause(o, ~la, ~lb);
		st.push_back(a >> 1); st.push_back(b >> 1);
	}
}

void (*slow_hook)(double, int, long);
static int sat_pair(Lit l, Lit l2, long confl)
{
	double t0 = now_s();
	ms_cone(l >> 1); ms_clauses(l >> 1);
	if (l2 != T) { ms_cone(l2 >> 1); ms_clauses(l2 >> 1); }
	ms_groups();
	Minisat::vec<Minisat::Lit> as;
	as.push(Minisat::mkLit(MSV[l >> 1], l & 1));
	if (l2 != T) as.push(Minisat::mkLit(MSV[l2 >> 1], l2 & 1));
	if (confl >= 0) MS->setConfBudget(confl); else MS->budgetOff();
	Minisat::lbool r = MS->solveLimited(as);
	stats.sat_calls++;
	int res = -1;
	if (r == Minisat::lbool((uint8_t)0)) { // true
		res = 1; stats.sat_sat++;
		int p = next_model_pat++; if (next_model_pat >= NPAT) next_model_pat = MODEL_BASE;
		int w = p >> 6; u64 bit = 1ULL << (p & 63);
		for (size_t i = 1; i < N.size(); i++) if (N[i].kind == A_INPUT && i < MSV.size() && MSV[i] >= 0) {
			bool v = MS->model[MSV[i]] == Minisat::lbool((uint8_t)0);
			u64& s = SIG[i * W + w];
			if (v) s |= bit; else s &= ~bit;
		}
		resim(p);
		if (!sig_bit(l, p) || !sig_bit(l2, p)) engine_fail("internal: solver model does not satisfy query");
	} else if (r == Minisat::lbool((uint8_t)1)) { res = 0; stats.sat_unsat++; }
	else stats.sat_unknown++;
	double dt = now_s() - t0;
	stats.sat_time += dt;
	if (slow_hook && dt > 0.2) slow_hook(dt, res, confl);
	return res;
}

static void ms_equal(Lit a, Lit b)
{
	if (b == F) { MS->addClause(~msl(a)); return; }
	MS->addClause(~msl(a), msl(b)); MS->addClause(msl(a), ~msl(b));
}
static int sat_query(Lit l, long confl) { return sat_pair(l, T, confl); }

static z3::expr zlit(Lit l)
{
	uint32_t n = l >> 1;
	z3::expr e = ZC->bool_const(("n" + std::to_string(n)).c_str());
	return (l & 1) ? !e : e;
}
static z3::expr zterm(TermId t);
static void zdefine(uint32_t root);

static z3::sort zfp(int w) { return w == 32 ? ZC->fpa_sort(8, 24) : ZC->fpa_sort(11, 53); }
static z3::expr zterm(TermId root)
{
	// iterative post-order
	std::vector<TermId> st{root};
	while (!st.empty()) {
		TermId t = st.back();
		if (ZT.count(t)) { st.pop_back(); continue; }
		const TNode n = TN[t];
		if (n.op == T_VAR) {
			z3::expr e = n.fp ? ZC->constant(TNAME[t].c_str(), zfp(n.w)) : ZC->bv_const(TNAME[t].c_str(), n.w);
			ZT[t] = new z3::expr(e); st.pop_back(); continue;
		}
		if (n.op == T_CONST) {
			z3::expr bv = ZC->bv_val((uint64_t)n.k, n.w);
			if (n.fp) ZT[t] = new z3::expr(z3::to_expr(*ZC, Z3_mk_fpa_to_fp_bv(*ZC, bv, zfp(n.w))));
			else ZT[t] = new z3::expr(bv);
			st.pop_back(); continue;
		}
		bool ready = true;
		if (!ZT.count(n.a)) { st.push_back(n.a); ready = false; }
		if (!ZT.count(n.b)) { st.push_back(n.b); ready = false; }
		if (!ready) continue;
		z3::expr a = *ZT[n.a], b = *ZT[n.b];
		z3::expr r(*ZC);
		Z3_context c = *ZC;
		z3::expr rne = z3::to_expr(*ZC, Z3_mk_fpa_rne(c)), rtz = z3::to_expr(*ZC, Z3_mk_fpa_rtz(c));
		int aw = TN[n.a].w;
		switch (n.op) {
			case T_ADD: r = a + b; break;
			case T_SUB: r = a - b; break;
			case T_MUL: r = a * b; break;
			case T_MULHI: r = (z3::zext(a, 64) * z3::zext(b, 64)).extract(127, 64); break;
			case T_UDIV: r = z3::udiv(a, b); break;
			case T_UREM: r = z3::urem(a, b); break;
			case T_SDIV: r = a / b; break;
			case T_SREM: r = z3::srem(a, b); break;
			case T_AND: r = a & b; break;
			case T_OR: r = a | b; break;
			case T_XOR: r = a ^ b; break;
			case T_SHL: r = z3::shl(a, b); break;
			case T_LSHR: r = z3::lshr(a, b); break;
			case T_ASHR: r = z3::ashr(a, b); break;
			case T_ZEXT: r = z3::zext(a, n.w - aw); break;
			case T_SEXT: r = z3::sext(a, n.w - aw); break;
			case T_TRUNC: r = a.extract(n.w - 1, 0); break;
			case T_ITE: zdefine(n.c >> 1); r = z3::ite(zlit(n.c), a, b); break;
			case T_FADD: r = z3::to_expr(*ZC, Z3_mk_fpa_add(c, rne, a, b)); break;
			case T_FSUB: r = z3::to_expr(*ZC, Z3_mk_fpa_sub(c, rne, a, b)); break;
			case T_FMUL: r = z3::to_expr(*ZC, Z3_mk_fpa_mul(c, rne, a, b)); break;
			case T_FDIV: r = z3::to_expr(*ZC, Z3_mk_fpa_div(c, rne, a, b)); break;
			case T_FNEG: r = z3::to_expr(*ZC, Z3_mk_fpa_neg(c, a)); break;
			case T_FABS: r = z3::to_expr(*ZC, Z3_mk_fpa_abs(c, a)); break;
			case T_FSQRT: r = z3::to_expr(*ZC, Z3_mk_fpa_sqrt(c, rne, a)); break;
			case T_SITOFP: r = z3::to_expr(*ZC, Z3_mk_fpa_to_fp_signed(c, rne, a, zfp(n.w))); break;
			case T_UITOFP: r = z3::to_expr(*ZC, Z3_mk_fpa_to_fp_unsigned(c, rne, a, zfp(n.w))); break;
			case T_FCONV: r = z3::to_expr(*ZC, Z3_mk_fpa_to_fp_float(c, rne, a, zfp(n.w))); break;
			case T_BITS: r = n.fp ? z3::to_expr(*ZC, Z3_mk_fpa_to_fp_bv(c, a, zfp(n.w))) : z3::to_expr(*ZC, Z3_mk_fpa_to_ieee_bv(c, a)); break;
			case T_FPTOUI: r = z3::to_expr(*ZC, Z3_mk_fpa_to_ubv(c, rtz, a, n.w)); break;
			case T_FPTOSI: r = z3::to_expr(*ZC, Z3_mk_fpa_to_sbv(c, rtz, a, n.w)); break;
			default: engine_fail("zterm op");
		}
		ZT[t] = new z3::expr(r);
		st.pop_back();
	}
	return *ZT[root];
}

static void zdefine(uint32_t root)
{
	if (ZDEF.size() < N.size()) ZDEF.resize(N.size(), 0);
	std::vector<uint32_t> st{root};
	while (!st.empty()) {
		uint32_t n = st.back(); st.pop_back();
		if (ZDEF[n]) continue;
		ZDEF[n] = 1;
		z3::expr me = zlit(n << 1);
		if (N[n].kind == A_CONST) ZS->add(!me);
		else if (N[n].kind == A_AND) {
			ZS->add(me == (zlit(N[n].a) && zlit(N[n].b)));
			st.push_back(N[n].a >> 1); st.push_back(N[n].b >> 1);
		} else if (N[n].kind == A_ATOM) {
			Atom at = ATOMS[N[n].a];
			z3::expr a = zterm(at.a), b = zterm(at.b);
			if (ZDEF.size() < N.size()) ZDEF.resize(N.size(), 0);
			Z3_context c = *ZC;
			z3::expr r(*ZC);
			switch (at.p) {
				case P_EQ: r = (a == b); break;
				case P_ULT: r = z3::ult(a, b); break;
				case P_ULE: r = z3::ule(a, b); break;
				case P_SLT: r = a < b; break;
				case P_SLE: r = a <= b; break;
				case P_FOEQ: r = z3::to_expr(*ZC, Z3_mk_fpa_eq(c, a, b)); break;
				case P_FOLT: r = z3::to_expr(*ZC, Z3_mk_fpa_lt(c, a, b)); break;
				case P_FOLE: r = z3::to_expr(*ZC, Z3_mk_fpa_leq(c, a, b)); break;
				case P_FUNO: r = z3::to_expr(*ZC, Z3_mk_fpa_is_nan(c, a)) || z3::to_expr(*ZC, Z3_mk_fpa_is_nan(c, b)); break;
			}
			ZS->add(me == r);
		}
	}
}

static int smt_query(Lit l, unsigned timeout_ms)
{
	double t0 = now_s();
	int res = -1;
	try {
		if (!ZC) { ZC = new z3::context(); ZS = new z3::solver(*ZC); }
		if (timeout_ms != z3_timeout_ms) { ZS->set("timeout", timeout_ms ? timeout_ms : 4294967295u); z3_timeout_ms = timeout_ms; }
		zdefine(l >> 1);
		z3::expr_vector as(*ZC);
		as.push_back(zlit(l));
		z3::check_result r = ZS->check(as);
		stats.smt_calls++;
		if (r == z3::sat) {
			res = 1; stats.sat_sat++;
			z3::model m = ZS->get_model();
			int p = next_model_pat++; if (next_model_pat >= NPAT) next_model_pat = MODEL_BASE;
			int w = p >> 6; u64 bit = 1ULL << (p & 63);
			for (size_t i = 1; i < N.size(); i++) if (N[i].kind == A_INPUT && i < ZDEF.size() && ZDEF[i]) {
				z3::expr v = m.eval(zlit((Lit)i << 1), true);
				u64& s = SIG[i * W + w];
				if (v.is_true()) s |= bit; else s &= ~bit;
			}
			for (size_t t = 0; t < TN.size(); t++) if (TN[t].op == T_VAR && ZT.count(t)) {
				z3::expr v = m.eval(*ZT[t], true);
				if (TN[t].fp) {
					if (Z3_fpa_is_numeral_nan(*ZC, v)) TV[t][p] = fbits(NAN, TN[t].w);
					else { z3::expr bv = z3::to_expr(*ZC, Z3_mk_fpa_to_ieee_bv(*ZC, v)); v = bv.simplify(); uint64_t x; if (!Z3_get_numeral_uint64(*ZC, v, &x)) engine_fail("fp model"); TV[t][p] = x; }
				} else { uint64_t x; if (!Z3_get_numeral_uint64(*ZC, v, &x)) engine_fail("bv model"); TV[t][p] = x; }
			}
			resim(p);
			if (!sig_bit(l, p)) engine_fail("internal: SMT model does not satisfy query");
		} else if (r == z3::unsat) { res = 0; stats.sat_unsat++; }
		else stats.sat_unknown++;
	} catch (z3::exception& e) { engine_fail(std::string("z3: ") + e.msg()); }
	stats.smt_time += now_s() - t0;
	return res;
}

static void set_false(Lit l)
{
	// l proven unsatisfiable
	if (!(l & 1)) N[l >> 1].status = 2;
	if (!N[l >> 1].theory && (l >> 1) < MSV.size() && MSV[l >> 1] >= 0) MS->addClause(~msl(l));
}

bool feasible(Lit l, long confl)
{
	if (l == F) return false;
	if (l == T) return true;
	if (!(l & 1) && N[l >> 1].status == 2) return false;
	if (!(l & 1) && N[l >> 1].status == 1) return true;
	if (!sig_zero(l)) { if (!(l & 1)) N[l >> 1].status = 1; return true; }
	int r = N[l >> 1].theory ? smt_query(l, confl < 0 ? 0 : 2000) : sat_query(l, confl);
	if (r == 0) { set_false(l); return false; }
	if (r == 1 && !(l & 1)) N[l >> 1].status = 1;
	return true;
}

int decide(Lit l)
{
	if (l == F) return 0;
	if (!(l & 1) && N[l >> 1].status == 2) return 0;
	if (!sig_zero(l)) return 1;
	int r = N[l >> 1].theory ? smt_query(l, 0) : sat_query(l, -1);
	if (r == 0) set_false(l);
	return r;
}

// ------------------------------------------------------------------ values
static std::vector<Val> VV;
struct VHash { size_t operator()(const Val* v) const {
	u64 h = v->w * 31 + v->fp * 7 + v->isTerm * 3 + v->undef; h = h * 0x9E3779B97F4A7C15ULL + v->t;
	for (auto& a : v->alts) { h = h * 0x9E3779B97F4A7C15ULL + a.first; h = (h ^ (h >> 31)) * 0xBF58476D1CE4E5B9ULL + a.second; }
	for (auto a : v->agg) h = h * 0x9E3779B97F4A7C15ULL + a;
	return h ^ (h >> 29); } };
struct VEq { bool operator()(const Val* a, const Val* b) const { return a->w == b->w && a->fp == b->fp && a->isTerm == b->isTerm && a->undef == b->undef && a->t == b->t && a->alts == b->alts && a->agg == b->agg; } };
static std::unordered_map<const Val*, ValId, VHash, VEq> VHm;
static std::vector<std::unique_ptr<Val>> VP;

const Val& V(ValId v) { return *VP[v]; }
ValId v_intern(Val&& v)
{
	auto it = VHm.find(&v);
	if (it != VHm.end()) return it->second;
	if (VP.empty()) { VP.emplace_back(new Val()); } // id 0 = invalid
	if (!v.isTerm && v.agg.empty()) v_fact(v.alts, T, F);
	ValId id = VP.size();
	VP.emplace_back(new Val(std::move(v)));
	VHm.emplace(VP.back().get(), id);
	return id;
}
ValId v_const(u64 k, int w, bool fp) { Val v; v.w = w; v.fp = fp; v.alts.push_back({maskw(k, w), T}); return v_intern(std::move(v)); }
ValId v_undef(int w, bool fp) { Val v; v.w = w; v.fp = fp; v.undef = T; return v_intern(std::move(v)); }
ValId v_bool(Lit l, Lit undef)
{
	aig_init();
	Val v; v.w = 1; v.undef = undef;
	if (l != T) v.alts.push_back({0, not_(l)});
	if (l != F) v.alts.push_back({1, l});
	return v_intern(std::move(v));
}
ValId v_term(TermId t, Lit undef)
{
	const TNode& n = TN[t];
	if (n.op == T_CONST) { Val v; v.w = n.w; v.fp = n.fp; v.undef = undef; v.alts.push_back({n.k, T}); return v_intern(std::move(v)); }
	Val v; v.w = n.w; v.fp = n.fp; v.isTerm = true; v.t = t; v.undef = undef;
	return v_intern(std::move(v));
}
TermId v_to_term(ValId id)
{
	const Val& v = V(id);
	if (v.isTerm) return v.t;
	if (!v.agg.empty()) engine_fail("aggregate term");
	TermId r = v.alts.empty() ? t_const(0, v.w, v.fp) : t_const(v.alts.back().first, v.w, v.fp);
	for (int i = (int)v.alts.size() - 2; i >= 0; i--) r = t_ite(v.alts[i].second, t_const(v.alts[i].first, v.w, v.fp), r);
	return r;
}

static std::unordered_map<u64, ValId> ITEC[3];

ValId v_ite(Lit c, ValId a, ValId b)
{
	if (a == b || c == T) return a;
	if (c == F) return b;
	const Val& x = V(a); const Val& y = V(b);
	if (!x.agg.empty() || !y.agg.empty()) {
		if (x.agg.size() != y.agg.size()) engine_fail("ite of different aggregates");
		Val r; r.w = x.w;
		std::vector<ValId> xa = x.agg, ya = y.agg;
		for (size_t i = 0; i < xa.size(); i++) r.agg.push_back(v_ite(c, xa[i], ya[i]));
		return v_intern(std::move(r));
	}
	if (x.w != y.w) engine_fail("ite width mismatch " + std::to_string(x.w) + "/" + std::to_string(y.w));
	Lit un = (x.undef == F && y.undef == F) ? F : mux(c, x.undef, y.undef);
	bool xe = !x.isTerm && x.alts.empty(), ye = !y.isTerm && y.alts.empty();
	if ((x.isTerm || y.isTerm)) {
		if (xe) { Val r = y; r.undef = un; return v_intern(std::move(r)); }
		if (ye) { Val r = x; r.undef = un; return v_intern(std::move(r)); }
		TermId ta = v_to_term(a), tb = v_to_term(b);
		if (tnode(ta).fp != tnode(tb).fp) tb = t_un(T_BITS, tb, tnode(tb).w, tnode(ta).fp);
		return v_term(t_ite(c, ta, tb), un);
	}
	Val r; r.w = x.w; r.fp = x.fp || y.fp; r.undef = un;
	size_t i = 0, j = 0;
	Lit nc = not_(c);
	while (i < x.alts.size() || j < y.alts.size()) {
		if (j >= y.alts.size() || (i < x.alts.size() && x.alts[i].first < y.alts[j].first)) {
			Lit g = and_(c, x.alts[i].second); if (g != F) r.alts.push_back({x.alts[i].first, g}); i++;
		} else if (i >= x.alts.size() || y.alts[j].first < x.alts[i].first) {
			Lit g = and_(nc, y.alts[j].second); if (g != F) r.alts.push_back({y.alts[j].first, g}); j++;
		} else {
			Lit g = mux(c, x.alts[i].second, y.alts[j].second); if (g != F) r.alts.push_back({x.alts[i].first, g}); i++; j++;
		}
	}
	if (r.alts.size() == 1 && r.undef == F) r.alts[0].second = T;
	return v_intern(std::move(r));
}

static std::unordered_map<u64, ValId> PC;
ValId v_prune(ValId id, Lit G)
{
	const Val& v = V(id);
	if (v.isTerm || !v.agg.empty()) {
		if (v.isTerm && v.undef != F && !feasible(and_(G, v.undef), 200)) { Val r = v; r.undef = F; return v_intern(std::move(r)); }
		return id;
	}
	if (v.alts.size() + (v.undef != F) <= 1) {
		return id;
	}
	u64 key = ((u64)id << 32) | G;
	auto it = PC.find(key);
	if (it != PC.end()) return it->second;
	if (PC.size() > 4000000) PC.clear();
	Val r; r.w = v.w; r.fp = v.fp;
	for (size_t i = 0; i < V(id).alts.size(); i++) {
		auto a = V(id).alts[i];
		Lit g = and_(G, a.second);
		if (feasible(g, 300)) r.alts.push_back(a);
	}
	if (V(id).undef != F && feasible(and_(G, V(id).undef), 300)) r.undef = V(id).undef;
	if (r.undef == F && r.alts.size() == 1) r.alts[0].second = T;
	v_fact(r.alts, r.undef, G);
	ValId o = v_intern(std::move(r));
	PC[key] = o;
	return o;
}

Lit v_lit(ValId id)
{
	const Val& v = V(id);
	if (v.isTerm) return t_atom(P_EQ, v.t, t_const(1, v.w, false));
	for (auto& a : v.alts) if (a.first == 1) return a.second;
	return F;
}
Lit v_eq_const(ValId id, u64 k)
{
	const Val& v = V(id);
	if (v.isTerm) return t_atom(P_EQ, v.t, t_const(k, v.w, v.fp));
	for (auto& a : v.alts) if (a.first == k) return a.second;
	return F;
}
u64 v_eval(ValId id, int p, bool* undef)
{
	const Val& v = V(id);
	if (undef) *undef = sig_bit(v.undef, p);
	if (v.isTerm) return t_eval(v.t, p);
	for (auto& a : v.alts) if (sig_bit(a.second, p)) return a.first;
	if (undef) *undef = true;
	return 0;
}
