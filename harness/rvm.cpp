// Monitors for the virtual machine (rvm): V01 instruction results, V02 assembled programs, V03 containment.
// A reference machine written from the instruction list runs next to the real one.
#include "common.h"
#include "rtypes.h"
#include "rlib/rmem.h"
#include "rlib/rstring.h"
extern "C" {
#include "rvm/rvmcpu.h"
#include "rvm/rvmcodegen.h"
#include "rvm/rvmscope.h"
}
typedef uint64_t u64; typedef int64_t i64; typedef unsigned __int128 u128;
enum { Zf = 1, Nf = 2, Cf = 4, Vf = 8, Ef = 16 };

// ------------------------------------------------------------------ reference machine
struct Word { u64 v = 0; uint16_t type = 0; uint16_t flags = 0; };
struct Ins { int op = RVM_NOP, a = XX, b = XX, c = XX; u64 imm = 0; uint16_t immtype = 0; int swi = 0; };
struct Log { int kind; u64 v; bool operator==(const Log &o) const { return kind == o.kind && v == o.v; } };
struct Ref {
	Word r[16]; unsigned status = 0; u64 error = 0; bool stop = false;
	V<Word> stack;
	V<Ins> code; long pc = 0;
	V<int> tables;               // number of entries of each service table
	V<Log> log; u64 ticks = 0, maxticks = ~0ull;
	u64 memlo = 0; S mem;        // one window of ordinary memory
	std::map<int, S> data;       // unused
	bool wild = false;           // the program left what the reference models
	u64 codebase = 0;            // value standing for the address of instruction 0
	void fail(u64 e) { error = e; stop = true; }
	void fl(unsigned m, bool on) { status = on ? status | m : status & ~m; }
	void zn(u64 x, bool clear) { if (clear) status &= ~31u; fl(Zf, x == 0); fl(Nf, x >> 63); }
	bool inst(u64 i) { return i < stack.size(); }
	u64 addr(long i) { return codebase + (u64)i * sizeof(rvm_asmins_t); }
	bool m(u64 a, size_t n) { if (a < memlo || a + n > memlo + mem.size() || a + n < a) { wild = true; stop = true; return false; } return true; }
	void jump(u64 v) {           // like the machine: PC takes v and is then advanced
		i64 d = (i64)(v - codebase);
		if (d % (i64)sizeof(rvm_asmins_t)) { wild = stop = true; return; }
		pc = d / (i64)sizeof(rvm_asmins_t);
		if (pc < -1 || pc >= (long)code.size()) { wild = stop = true; }
	}
	void rel(u64 off) { i64 o = (i64)off; if (o < -100000 || o > 100000) { wild = stop = true; return; } pc += (long)o - 1; if (pc < -1 || pc >= (long)code.size()) { wild = stop = true; } }
	void step();
	void swi(u64 id, const Ins &k);
	long steps = 0;
	void run(long from, long limit) { pc = from; steps = 0; log.clear(); ticks = 0; stop = false; error = 0; wild = false; while (!stop) { if (pc < 0 || pc >= (long)code.size()) { wild = true; return; } if (++steps > limit) { wild = true; return; } step(); pc++; } }
};
enum { OP_TICK = RVM_USER128, OP_ILL = RVM_RESERVED90 };
void Ref::swi(u64 id, const Ins &k) {
	unsigned t = (unsigned)((unsigned)id >> 8), n = (unsigned)id & 255;
	if (t >= tables.size()) return fail(RVM_E_SWITABLE);
	if (n >= (unsigned)tables[t]) return fail(RVM_E_SWINUM);
	log.push_back({(int)(t * 256 + n), r[0].v});
	r[0].v = r[0].v * 3 + t * 7 + n;
}
void Ref::step() {
	const Ins &k = code[pc];
	r[PC].v = addr(pc);
	if (k.a == DA || k.b == DA || k.c == DA) { r[DA].v = k.imm; r[DA].type = k.immtype; r[DA].flags = 0; }
	u64 A = r[k.a].v, B = r[k.b].v, C = r[k.c].v, x;
	auto set = [&](u64 v) { r[k.a].v = v; };
	auto sidx = [&]() { return (k.b != XX ? B : 0) + (k.c != XX ? C : 0); };
	auto store = [&](u64 at, const void *p, size_t n) { if (m(at, n)) memcpy(&mem[at - memlo], p, n); };
	auto load = [&](u64 at, void *p, size_t n) { memset(p, 0, n); if (m(at, n)) memcpy(p, &mem[at - memlo], n); };
	bool le = (status & Nf) || (status & Zf), lt = status & Nf, ge = !(status & Nf) || (status & Zf), gt = !(status & Nf) && !(status & Zf), eq = status & Zf;
	switch (k.op) {
	case RVM_EXT: stop = true; break;
	case RVM_ABORT: fail(A); break;
	case RVM_NOP: break;
	case RVM_MOV: r[k.a] = r[k.b]; break;
	case RVM_MOVS: set(B); zn(B, true); break;
	case RVM_SWP: std::swap(r[k.a], r[k.b]); break;
	case RVM_INC: set(A + 1); break;
	case RVM_DEC: set(A - 1); break;
	case RVM_ADD: set(B + C); break;
	case RVM_SUB: set(B - C); break;
	case RVM_MUL: set(B * C); break;
	case RVM_ADDS: case RVM_ADC: {
		u128 w = (u128)B + C + (k.op == RVM_ADC && (status & Cf) ? 1 : 0);
		x = (u64)w; set(x);
		fl(Cf, (w >> 64) != 0); zn(x, false);
		fl(Vf, (B >> 63) == (C >> 63) && (x >> 63) != (B >> 63)); break; }
	case RVM_SUBS: case RVM_SBC: {
		u128 need = (u128)C + (k.op == RVM_SBC && !(status & Cf) ? 1 : 0);
		x = (u64)((u128)B - need); set(x);
		fl(Cf, (u128)B >= need); zn(x, false);
		fl(Vf, (B >> 63) != (C >> 63) && (x >> 63) == (B >> 63)); break; }      // the project's own convention (asm-cmp pins it)
	case RVM_CMP: x = A - B; fl(Cf, A < B); zn(x, false); fl(Vf, (A >> 63) != (B >> 63) && (x >> 63) == (A >> 63)); break;
	case RVM_CMN: x = A + B; fl(Cf, ((u128)A + B) >> 64 != 0); zn(x, false); fl(Vf, (A >> 63) == (B >> 63) && (x >> 63) != (A >> 63)); break;
	case RVM_AND: x = B & C; set(x); zn(x, true); break;
	case RVM_ORR: x = B | C; set(x); zn(x, true); break;
	case RVM_XOR: x = B ^ C; set(x); zn(x, true); break;
	case RVM_BIC: x = B & ~C; set(x); zn(x, true); break;
	case RVM_NOT: x = ~B; set(x); zn(x, true); break;
	case RVM_TST: zn(A & B, true); break;
	case RVM_TEQ: zn(B ^ C, true); break;
	case RVM_LSL: x = C > 63 ? 0 : B << C; set(x); zn(x, true); break;
	case RVM_LSR: x = C > 63 ? 0 : B >> C; set(x); zn(x, true); break;
	case RVM_LSRS: case RVM_ASR: { u64 n = C > 63 ? 63 : C; x = B >> n; if (B >> 63 && n) x |= ~0ull << (64 - n); set(x); zn(x, true); break; }
	case RVM_ROR: { unsigned n = C & 63; x = n ? (B >> n) | (B << (64 - n)) : B; set(x); zn(x, true); fl(Cf, x >> 63); break; }
	case RVM_CLZ: { u64 n = 0; while (n < 64 && !(B >> (63 - n))) n++; set(n); break; }
	case RVM_MULS: { u128 w = (u128)B * C; x = (u64)w; set(x); zn(x, true); fl(Cf, (w >> 64) != 0); break; }
	case RVM_MLS: x = B * C; set(x); zn(x, true); break;
	case RVM_DIV: if (!C) return fail(RVM_E_DIVZERO); set(B / C); break;
	case RVM_MOD: if (!C) return fail(RVM_E_DIVZERO); set(B % C); break;
	case RVM_DIVS: if (!C) return fail(RVM_E_DIVZERO); x = B / C; set(x); zn(x, true); break;
	case RVM_DVS: case RVM_MODS: {
		if (!C) return fail(RVM_E_DIVZERO);
		u64 ub = B >> 63 ? 0 - B : B, uc = C >> 63 ? 0 - C : C, q = ub / uc, m = ub % uc;
		x = k.op == RVM_DVS ? ((B >> 63) != (C >> 63) ? 0 - q : q) : (B >> 63 ? 0 - m : m);
		set(x); zn(x, true); break; }
	case RVM_CLR: r[k.a].v = 0; r[k.a].type = RVM_DTYPE_UNDEF; r[k.a].flags = 0; break;
	case RVM_CFLAG: status &= ~(unsigned)A; break;
	case RVM_TYPE: { uint16_t t = r[k.b].type; set(t); r[k.a].type = RVM_DTYPE_UNSIGNED; break; }
	case RVM_SETTYPE: r[k.a].type = (uint16_t)B; break;
	// control
	case RVM_B: rel(A); break;
	case RVM_BEQ: if (eq) rel(A); break;
	case RVM_BNEQ: if (!eq) rel(A); break;
	case RVM_BLEQ: if (le) rel(A); break;
	case RVM_BGEQ: if (ge) rel(A); break;
	case RVM_BLES: if (lt) rel(A); break;
	case RVM_BGRE: if (gt) rel(A); break;
	case RVM_BL: r[LR].v = addr(pc); rel(A); break;
	case RVM_BX: jump(A); break;
	case RVM_BXEQ: if (eq) jump(A); break;
	case RVM_BXNEQ: if (!eq) jump(A); break;
	case RVM_BXLEQ: if (le) jump(A); break;
	case RVM_BXGEQ: if (ge) jump(A); break;
	case RVM_BXLES: if (lt) jump(A); break;
	case RVM_BXGRE: if (gt) jump(A); break;
	case RVM_BXL: r[LR].v = addr(pc); jump(A); break;
	case RVM_RET: jump(r[LR].v); break;
	case RVM_SWI: swi((u64)k.swi, k); break;
	case RVM_SWIID: swi(A, k); break;
	case RVM_CALL:
		if (r[k.a].type == RVM_DTYPE_SWIID) { r[LR].v = addr(pc); swi(A, k); }
		else if (r[k.a].type == RVM_DTYPE_FUNCTION) { r[LR].v = addr(pc); jump(A); }
		else fail(RVM_E_NOTFUNCTION);
		break;
	case OP_TICK: log.push_back({100000, A}); if (++ticks >= maxticks) { error = RVM_E_USERABORT; stop = true; } break;
	// stack
	case RVM_PUSH: x = r[SP].v + 1; if (!inst(x)) return fail(RVM_E_NOMEM); stack[x] = r[k.a]; r[SP].v = x; break;
	case RVM_POP: x = r[SP].v; if (!inst(x)) return fail(RVM_E_NOMEM); r[k.a] = stack[x]; if (k.a != SP) r[SP].v = x - 1; break;
	case RVM_PUSHM: {
		u64 sp = r[SP].v; if (!inst(sp + 1) || !inst(sp + 16)) return fail(RVM_E_NOMEM);
		for (int i = 0; i < XX; i++) if (A >> i & 1) stack[++sp] = r[i];
		r[SP].v = sp; break; }
	case RVM_POPM: {
		u64 sp = r[SP].v;
		for (int i = XX - 1; i >= 0; i--) if (A >> i & 1) { if (!inst(sp)) return fail(RVM_E_NOMEM); r[i] = stack[sp]; sp--; }
		if (!(A >> SP & 1)) r[SP].v = sp;
		break; }
	case RVM_STS: x = sidx(); if (!inst(x)) return fail(RVM_E_NOMEM); stack[x] = r[k.a]; break;
	case RVM_LDS: x = sidx(); if (!inst(x)) return fail(RVM_E_NOMEM); r[k.a] = stack[x]; break;
	// memory
	case RVM_STR: case RVM_STRP: store(B, &A, 8); break;
	case RVM_STRB: store(B, &A, 1); break;
	case RVM_STRH: store(B, &A, 2); break;
	case RVM_STRW: store(B, &A, 4); break;
	case RVM_STRR: { if (r[k.b].type != RVM_DTYPE_POINTER) return fail(RVM_E_LVALUE); rvmreg_t t; memset(&t, 0, sizeof t); t.v.w = A; t.type = r[k.a].type; t.flags = r[k.a].flags; store(B, &t, sizeof t); break; }
	case RVM_LDR: case RVM_LDRP: load(B, &x, 8); if (!wild) set(x); break;
	case RVM_LDRB: { uint8_t t; load(B, &t, 1); if (!wild) set(t); break; }
	case RVM_LDRH: { uint16_t t; load(B, &t, 2); if (!wild) set(t); break; }
	case RVM_LDRW: { uint32_t t; load(B, &t, 4); if (!wild) set(t); break; }
	case RVM_LDRR: { rvmreg_t t; load(B, &t, sizeof t); if (!wild) { r[k.a].v = t.v.w; r[k.a].type = t.type; r[k.a].flags = t.flags; } break; }
	case RVM_CLRR: { rvmreg_t t; load(A, &t, sizeof t); t.v.w = 0; t.type = RVM_DTYPE_UNDEF; t.flags = 0; store(A, &t, sizeof t); break; }
	case RVM_STM: { u64 at = A; for (int i = 0; i < XX; i++) if (B >> i & 1) { store(at, &r[i].v, 8); at += 8; } break; }
	case RVM_LDM: { u64 at = A; for (int i = 0; i < XX; i++) if (B >> i & 1) { load(at, &x, 8); if (wild) break; r[i].v = x; r[i].type = 0; r[i].flags = 0; at += 8; } break; }
	default: fail(RVM_E_ILLEGAL); break;
	}
}

// ------------------------------------------------------------------ the real machine
static V<Log> *t_log; static u64 t_ticks, t_maxticks;
template <int T, int N> static void swi_fn(rvmcpu_t *cpu, rvm_asmins_t *) {
	t_log->push_back({T * 256 + N, RVM_CPUREG_GETU(cpu, R0)});
	RVM_CPUREG_SETU(cpu, R0, RVM_CPUREG_GETU(cpu, R0) * 3 + T * 7 + N);
}
static rvm_switable_t g_tab0[] = {{"a0", swi_fn<0, 0>}, {"a1", swi_fn<0, 1>}, {"longname", swi_fn<0, 2>}, {NULL, NULL}};
static rvm_switable_t g_tab1[] = {{"b0", swi_fn<1, 0>}, {"a1", swi_fn<1, 1>}, {"long", swi_fn<1, 2>}, {"b3", swi_fn<1, 3>}, {"b4", swi_fn<1, 4>}, {NULL, NULL}};
static void swi_bad(rvmcpu_t *, rvm_asmins_t *) { t_log->push_back({99999, 0}); }
static rvm_switable_t g_tabx[] = {{"b0", swi_bad}, {"other", swi_bad}, {NULL, NULL}};
static rvm_switable_t g_tab2[] = {{NULL, NULL}};
static void tick_fn(rvmcpu_t *cpu, rvm_asmins_t *ins) {
	t_log->push_back({100000, RVM_CPUREG_GETU(cpu, ins->op1)});
	if (++t_ticks >= t_maxticks) rvm_cpu_abort(cpu);
}
static const char *opname(int op) {
	static rvmcpu_t *c; NoMon nm;
	if (!c) c = rvm_cpu_create(64);
	return op == OP_TICK ? "TICK" : c->ops[op].name ? c->ops[op].name : "?";
}
static S disasm(const Ins &k) {
	static const char *rn[] = {"R0", "R1", "R2", "R3", "R4", "R5", "R6", "R7", "IP", "TP", "FP", "SP", "LR", "PC", "DA", "XX"};
	return fmt("%s %s,%s,%s #0x%llx/t%d swi%d", opname(k.op), rn[k.a], rn[k.b], rn[k.c], (unsigned long long)k.imm, k.immtype, k.swi);
}
static rvm_asmins_t enc(const Ins &k) {
	u64 op = k.op == RVM_SWI ? (u64)RVM_OPSWI((u64)k.swi) : (u64)k.op;
	switch (k.immtype) {
	case RVM_DTYPE_SIGNED: return rvm_asml(op, k.a, k.b, k.c, (long)k.imm);
	case RVM_DTYPE_POINTER: return rvm_asmp(op, k.a, k.b, k.c, (rpointer)k.imm);
	case RVM_DTYPE_DOUBLE: { double d; memcpy(&d, &k.imm, 8); return rvm_asmd(op, k.a, k.b, k.c, d); }
	case RVM_DTYPE_SWIID: return rvm_asms(op, k.a, k.b, k.c, k.imm);
	case RVM_DTYPE_FUNCTION: return rvm_asmf(op, k.a, k.b, k.c, k.imm);
	case RVM_DTYPE_BOOLEAN: return rvm_asmb(op, k.a, k.b, k.c, (unsigned)k.imm);
	case RVM_DTYPE_PAIR: return rvm_asm2(op, k.a, k.b, k.c, (ruint32)k.imm, (ruint32)(k.imm >> 32));
	default: return rvm_asm(op, k.a, k.b, k.c, k.imm);
	}
}
struct Real {
	rvmcpu_t *cpu; V<Log> log;
	explicit Real(unsigned long stack) {
		cpu = rvm_cpu_create(stack);
		NoMon nm; memset(cpu->stack, 0, stack * sizeof(rvmreg_t));
	}
	// with a draw, some tables are first other ones and are replaced under their names, which keeps their places
	void tables(Rng *r = NULL) {
		bool a = r && r->p(20), b = r && r->p(20);
		long i0 = rvm_cpu_addswitable(cpu, "t0", a ? g_tab2 : g_tab0), i1 = rvm_cpu_addswitable(cpu, "t1", b ? g_tabx : g_tab1), i2 = rvm_cpu_addswitable(cpu, "t2", g_tab2);
		if (i0 != 0 || i1 != 1 || i2 != 2) viol("service-table", fmt("tables got the places %ld, %ld, %ld", i0, i1, i2));
		if (a && rvm_cpu_addswitable(cpu, "t0", g_tab0) != 0) viol("service-table", "a replaced table got another place");
		if (b && rvm_cpu_addswitable(cpu, "t1", g_tab1) != 1) viol("service-table", "a replaced table got another place");
		if (a || b) feat("tables_replaced");
		rvm_cpu_setophandler(cpu, OP_TICK, "TICK", tick_fn);
	}
	~Real() { rvm_cpu_destroy(cpu); NoMon nm; log = V<Log>(); }
	void load(const Ref &f) {
		for (int i = 0; i < XX; i++) { rvmreg_t t; memset(&t, 0, sizeof t); t.v.w = f.r[i].v; t.type = f.r[i].type; t.flags = f.r[i].flags; rvm_cpu_setreg(cpu, i, &t); }
		cpu->status = f.status;
		rvmreg_t *s = (rvmreg_t *)cpu->stack;
		for (size_t i = 0; i < f.stack.size(); i++) { memset(&s[i], 0, sizeof s[i]); s[i].v.w = f.stack[i].v; s[i].type = f.stack[i].type; s[i].flags = f.stack[i].flags; }
	}
	int run(rvm_asmins_t *code, u64 off, u64 maxticks) { log.clear(); t_log = &log; t_ticks = 0; t_maxticks = maxticks; return rvm_cpu_exec(cpu, code, off); }
};
static S regs(const Ref &f, rvmcpu_t *c) {
	S s;
	for (int i = 0; i <= LR; i++) s += fmt("%s%d=%llx/%d|%llx/%d", i ? " " : "", i, (unsigned long long)f.r[i].v, f.r[i].type, (unsigned long long)c->r[i].v.w, c->r[i].type);
	return s + fmt(" status %x|%llx", f.status, (unsigned long long)c->status);
}
// differences between the reference and the machine, "" when none
static S diff(const Ref &f, Real &m, int ret, bool types) {
	if (ret != (f.error ? -1 : 0)) return fmt("exec returned %d, reference error %llu", ret, (unsigned long long)f.error);
	if (m.cpu->error != f.error) return fmt("error code %llu, expected %llu", (unsigned long long)m.cpu->error, (unsigned long long)f.error);
	for (int i = 0; i <= LR; i++) {
		rvmreg_t *r = rvm_cpu_getreg(m.cpu, i);
		if (!r) return fmt("no register %d", i);
		if (r->v.w != f.r[i].v) return fmt("register %d is 0x%llx, expected 0x%llx", i, (unsigned long long)r->v.w, (unsigned long long)f.r[i].v);
		if (types && (r->type != f.r[i].type || r->flags != f.r[i].flags)) return fmt("register %d has type %d flags %d, expected type %d flags %d", i, r->type, r->flags, f.r[i].type, f.r[i].flags);
	}
	if (m.cpu->status != f.status) return fmt("status 0x%llx, expected 0x%x", (unsigned long long)m.cpu->status, f.status);
	rvmreg_t *s = (rvmreg_t *)m.cpu->stack;
	for (size_t i = 0; i < f.stack.size(); i++)
		if (s[i].v.w != f.stack[i].v || (types && s[i].type != f.stack[i].type)) return fmt("stack[%zu] is 0x%llx/%d, expected 0x%llx/%d", i, (unsigned long long)s[i].v.w, s[i].type, (unsigned long long)f.stack[i].v, f.stack[i].type);
	if (m.log.size() != f.log.size()) return fmt("%zu service calls, expected %zu", m.log.size(), f.log.size());
	for (size_t i = 0; i < f.log.size(); i++)
		if (!(m.log[i] == f.log[i])) return fmt("service call %zu was (%d,0x%llx), expected (%d,0x%llx)", i, m.log[i].kind, (unsigned long long)m.log[i].v, f.log[i].kind, (unsigned long long)f.log[i].v);
	return "";
}

static u64 val(Rng &r) {
	static const u64 k[] = {0, 1, 2, 3, 63, 64, 65, 0x7f, 0x80, 0xff, 0x7fffffff, 0x80000000ull, 0xffffffff, 0x100000000ull,
		0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, ~0ull, ~1ull, ~0ull - 63, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull};
	switch (r.u(5)) {
	case 0: case 1: return r.pick(k);
	case 2: return r.u(70);
	case 3: return r.next();
	default: return r.next() >> r.u(64);
	}
}
static const int ALU[] = {RVM_MOV, RVM_MOVS, RVM_SWP, RVM_INC, RVM_DEC, RVM_ADD, RVM_ADDS, RVM_ADC, RVM_AND, RVM_BIC, RVM_CLZ, RVM_CMN, RVM_XOR,
	RVM_SUB, RVM_SUBS, RVM_SBC, RVM_MUL, RVM_MLS, RVM_MULS, RVM_NOT, RVM_DIV, RVM_DVS, RVM_DIVS, RVM_MOD, RVM_MODS, RVM_LSL, RVM_LSR, RVM_LSRS,
	RVM_ASR, RVM_ROR, RVM_ORR, RVM_CMP, RVM_TST, RVM_TEQ, RVM_CLR, RVM_CFLAG, RVM_TYPE, RVM_SETTYPE, RVM_NOP};
static const uint16_t IMT[] = {0, 0, 0, 0, RVM_DTYPE_SIGNED, RVM_DTYPE_POINTER, RVM_DTYPE_DOUBLE, RVM_DTYPE_SWIID, RVM_DTYPE_FUNCTION, RVM_DTYPE_BOOLEAN, RVM_DTYPE_PAIR};
static Ins alu(Rng &r, int op, int maxreg) {
	Ins k; k.op = op;
	k.a = (int)r.u(maxreg + 1);
	k.b = r.p(35) ? DA : (int)r.u(maxreg + 1);
	k.c = r.p(35) ? DA : (int)r.u(maxreg + 1);
	if (r.p(10)) k.b = k.a;
	if (r.p(10)) k.c = k.b;
	if (op == RVM_SWP && k.b == DA) k.b = k.a;
	if ((op == RVM_CMP || op == RVM_CMN || op == RVM_TST || op == RVM_CFLAG) && r.p(20)) k.a = DA;
	k.imm = val(r); k.immtype = r.pick(IMT);
	if (k.immtype == RVM_DTYPE_BOOLEAN) k.imm = k.imm ? 1 : 0;
	if (k.immtype == RVM_DTYPE_DOUBLE) { double d = (double)(i64)k.imm / 7; memcpy(&k.imm, &d, 8); }
	if ((op == RVM_LSL || op == RVM_LSR || op == RVM_LSRS || op == RVM_ASR || op == RVM_ROR) && k.c == DA && r.p(70)) { k.imm = r.u(70); k.immtype = 0; }
	if (op == RVM_SETTYPE && r.p(80)) { k.b = DA; k.imm = r.u(20); k.immtype = 0; }
	return k;
}

// ------------------------------------------------------------------ V01
static void v01(Rng &rng) {
	Real m(32);
	static Ref f;
	{ NoMon nm; f = Ref(); f.stack.assign(32, Word()); }
	int n = (int)rng.r(20, 60);
	for (int t = 0; t < n; t++) {
		NoMon nm;
		for (int i = 0; i < 16; i++) { f.r[i].v = val(rng); f.r[i].type = rng.p(70) ? 0 : (uint16_t)rng.u(20); f.r[i].flags = 0; }
		f.status = (unsigned)rng.u(32); f.error = 0; f.stop = false;
		Ins k = alu(rng, rng.pick(ALU), LR);
		f.code = {k, Ins()}; f.code[1].op = RVM_EXT;
		m.load(f);
		m.cpu->r[XX].v.w = f.r[XX].v;
		S in = disasm(k) + " on " + regs(f, m.cpu);
		crumb(in);
		rvm_asmins_t code[2] = {enc(k), rvm_asm(RVM_EXT, XX, XX, XX, 0)};
		f.codebase = (u64)code;
		if ((code[0].da != 0) != (k.a == DA || k.b == DA || k.c == DA)) { viol("encode", "immediate marker wrong for " + disasm(k)); return; }
		int ret = m.run(code, 0, ~0ull);
		bool rorzero = k.op == RVM_ROR && ((k.c == DA ? k.imm : f.r[k.c].v) & 63) == 0;
		f.run(0, 10);
		if (rorzero) { f.status = (f.status & ~Cf) | (unsigned)(m.cpu->status & Cf); }   // nothing rotated out: carry unspecified
		S d = diff(f, m, ret, true);
		if (!d.empty()) { viol(S("result:") + opname(k.op), in + " -> " + d); return; }
		if (m.cpu->r[XX].v.w != f.r[XX].v) { viol("result:xx", in + " changed the unused register"); return; }
		feat(S("op_") + opname(k.op)); if (f.error) feat("divzero_reported"); feat("instructions");
		distinct(hmix(hmix(hmix((u64)k.op, f.r[0].v), k.imm), hmix(f.status, k.a * 256 + k.b * 16 + k.c)));
		if (rng.p(5)) {
			CHECK(rvm_cpu_setreg(m.cpu, RLST + rng.u(5), &m.cpu->r[0]) == -1 && rvm_cpu_getreg(m.cpu, RLST + rng.u(5)) == NULL, "regnum", "register number out of range accepted");
		}
	}
	// multi-word sums and differences through the carry chain
	for (int t = 0; t < 6; t++) {
		NoMon nm;
		int w = (int)rng.r(2, 4); bool sub = rng.p(50), asc = rng.p(30);
		for (int i = 0; i < 16; i++) { f.r[i] = Word(); f.r[i].v = val(rng); }
		u64 a[4], b[4], want[4]; int carry = sub ? 1 : 0;
		for (int i = 0; i < w; i++) {
			a[i] = f.r[i].v; b[i] = asc ? ~a[i] : f.r[4 + i].v; f.r[4 + i].v = b[i];
			u128 s = (u128)a[i] + (sub ? ~b[i] : b[i]) + (u64)carry;
			want[i] = (u64)s; carry = (int)(s >> 64);
		}
		f.status = (unsigned)rng.u(32);
		m.load(f);
		rvm_asmins_t code[8]; int n = 0;
		for (int i = 0; i < w; i++) code[n++] = rvm_asm(sub ? (i ? RVM_SBC : RVM_SUBS) : (i ? RVM_ADC : RVM_ADDS), i, i, 4 + i, 0);
		code[n++] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
		S in = fmt("%d-word %s:", w, sub ? "difference" : "sum");
		for (int i = 0; i < w; i++) in += fmt(" %llx,%llx", (unsigned long long)a[i], (unsigned long long)b[i]);
		crumb(in);
		int ret = m.run(code, 0, ~0ull);
		CHECK(ret == 0, "chain", "%s: exec %d", in.c_str(), ret);
		for (int i = 0; i < w; i++) CHECK(m.cpu->r[i].v.w == want[i], "chain", "%s: word %d is %llx, expected %llx", in.c_str(), i, (unsigned long long)m.cpu->r[i].v.w, (unsigned long long)want[i]);
		CHECK(((m.cpu->status & Cf) != 0) == (carry != 0), "chain", "%s: final carry %d, expected %d", in.c_str(), (int)(m.cpu->status & Cf), carry);
		feat("carry_chains");
		distinct(hmix(hmix(a[0], b[0]), hmix(a[1], sub)));
	}
}

// ------------------------------------------------------------------ V02
// Programs are built through the code generator and, instruction by instruction, into the reference.
struct Asm {
	rvm_codegen_t *cg; Ref &f; Rng &rng; int nlab = 0;
	struct Fix { long at; S lab; int kind; };  // kind: 0 default(data) 1 jump 2 branch
	V<Fix> fix; std::map<S, long> lab, lidx; std::map<S, u64> dlab; V<long> src; bool srcok = true;
	S text;
	Asm(rvm_codegen_t *c, Ref &ff, Rng &r) : cg(c), f(ff), rng(r) {}
	long at() { return (long)f.code.size(); }
	void note(const S &s) { text += s + "\n"; }
	long ins(const Ins &k) {
		if (rng.p(30)) { long s = rng.r(0, 1000); { rvm_codegen_setsource(cg, s); } cur = s; }
		src.push_back(cur);
		note(fmt("%4ld  ", at()) + disasm(k));
		f.code.push_back(k);
		rvm_codegen_addins(cg, enc(k)); 
		return at() - 1;
	}
	long cur = 0;
	std::map<S, std::pair<S, long>> num;   // labels to be defined through their number
	S fresh() {
		if (rng.p(12)) { S al = S(1 + rng.u(4), (char)('a' + rng.u(26))); long n = rng.p(80) ? nlab++ : 10000000L + nlab++; S l = fmt("L%07ld__%s:", n, al.c_str()); num[l] = {al, n}; feat("numbered_labels"); return l; }
		return fmt("L%d", nlab++) + S(rng.u(3), 'x');
	}
	long addinvalid(const S &l) { if (rng.p(50)) return rvm_codegen_invalid_addlabel_s(cg, l.c_str()); Exact e(l); return rvm_codegen_invalid_addlabel(cg, e.b(), (unsigned)e.n); }
	// a label may be announced (invalid) before it is defined, or first named by a relocation
	void announce(const S &l) {
		if (rng.p(30)) { long i = num.count(l) ? rvm_codegen_invalid_add_numlabel_s(cg, num[l].first.c_str(), num[l].second) : addinvalid(l); lidx[l] = i; if (rvm_codegen_validlabel(cg, i)) bad = "announced label is valid"; }
	}
	S bad;
	void define(const S &l) {
		note(l + ":");
		lab[l] = at();
		
		if (lidx.count(l)) { if (rvm_codegen_redefinelabel_default(cg, lidx[l]) != lidx[l]) bad = "redefinelabel"; else if (!rvm_codegen_validlabel(cg, lidx[l])) bad = "label still invalid"; }
		else if (num.count(l)) { long i = rvm_codegen_add_numlabel_s(cg, num[l].first.c_str(), num[l].second); if (!rvm_codegen_validlabel(cg, i)) bad = "numbered label is invalid"; }
		else if (rng.p(40)) { Exact e(l); if (rng.p(50)) rvm_codegen_addlabel_default(cg, e.b(), (unsigned)e.n); else rvm_codegen_addlabel(cg, e.b(), (unsigned)e.n, rvm_codegen_getcodesize(cg)); }
		else if (rng.p(50)) rvm_codegen_addlabel_default_s(cg, l.c_str());
		else rvm_codegen_addlabel_s(cg, l.c_str(), rvm_codegen_getcodesize(cg));
		
	}
	void relins(const Ins &k, const S &l, int kind) {
		static const rvm_reloctype_t T[] = {RVM_RELOC_DEFAULT, RVM_RELOC_JUMP, RVM_RELOC_BRANCH, RVM_RELOC_STRING, RVM_RELOC_BLOB};
		note(fmt("%4ld  ", at()) + disasm(k) + " -> " + l);
		fix.push_back({at(), l, kind}); f.code.push_back(k); src.push_back(cur);
		
		if (lidx.count(l)) rvm_codegen_index_addrelocins(cg, T[kind], lidx[l], enc(k));
		else if (rng.p(40)) { Exact e(l); rvm_codegen_addrelocins(cg, T[kind], e.b(), (unsigned)e.n, enc(k)); }
		else rvm_codegen_addrelocins_s(cg, T[kind], l.c_str(), enc(k));
		
	}
	Ins I(int op, int a = XX, int b = XX, int c = XX, u64 imm = 0, uint16_t ty = 0) { Ins k; k.op = op; k.a = a; k.b = b; k.c = c; k.imm = imm; k.immtype = ty; return k; }
	void branch(int cond, const S &l) {   // cond: 0 always 1.. eq neq leq geq les gre
		static const int BR[] = {RVM_B, RVM_BEQ, RVM_BNEQ, RVM_BLEQ, RVM_BGEQ, RVM_BLES, RVM_BGRE};
		static const int BX[] = {RVM_BX, RVM_BXEQ, RVM_BXNEQ, RVM_BXLEQ, RVM_BXGEQ, RVM_BXLES, RVM_BXGRE};
		switch (rng.u(3)) {
		case 0: relins(I(BR[cond], DA), l, 2); break;
		case 1: relins(I(BX[cond], DA), l, 1); break;
		default: relins(I(RVM_MOV, R6, DA), l, 1); ins(I(BX[cond], R6)); break;
		}
		feat(fmt("branch_cond%d", cond));
	}
	void call(const S &l) {
		switch (rng.u(4)) {
		case 0: relins(I(RVM_BL, DA), l, 2); break;
		case 1: relins(I(RVM_BXL, DA), l, 1); break;
		case 2: relins(I(RVM_CALL, DA, XX, XX, 0, RVM_DTYPE_FUNCTION), l, 1); break;
		default: relins(I(RVM_MOV, R6, DA, XX, 0, RVM_DTYPE_FUNCTION), l, 1); ins(I(RVM_CALL, R6)); break;
		}
		feat("calls");
	}
	// a label that names an address outside the program
	std::map<S, u64> plab;
	std::map<S, size_t> slen;      // data that is a string, and its length
	int datakind(const S &l) { if (slen.count(l) && rng.p(60)) { feat("string_relocations"); return 3; } return rng.p(20) ? 4 : 0; }
	void pointer(const S &l, u64 p) {
		long i = addinvalid(l);
		if (rvm_codegen_redefinepointer(cg, i, (rpointer)p) != i || !rvm_codegen_validlabel(cg, i)) bad = "redefinepointer";
		plab[l] = p; feat("pointer_labels");
	}
	// resolve in the reference; returns the first undefined label or ""
	S resolve(u64 codebase, u64 database) {
		f.codebase = codebase;
		for (auto &x : fix) {
			if (x.kind == 0 || x.kind >= 3) { if (plab.count(x.lab)) f.code[x.at].imm = plab[x.lab]; else if (dlab.count(x.lab)) f.code[x.at].imm = database + dlab[x.lab]; else return x.lab; continue; }
			if (!lab.count(x.lab)) return x.lab;
			long t = lab[x.lab];
			f.code[x.at].imm = x.kind == 1 ? f.addr(t) - sizeof(rvm_asmins_t) : (u64)(t - x.at);
		}
		return "";
	}
};
static void v02_body(Asm &a, Rng &rng, int budget, int depth, const V<S> &funcs, int locals, bool infunc);
static void v02_simple(Asm &a, Rng &rng, int locals, bool infunc) {
	u64 memat = a.f.memlo;
	switch (rng.u(12)) {
	case 0: case 1: case 2: case 3: {
		Ins k = alu(rng, rng.pick(ALU), R5);
		if (k.op == RVM_DIV || k.op == RVM_DVS || k.op == RVM_DIVS || k.op == RVM_MOD || k.op == RVM_MODS) { k.c = DA; k.imm = 1 + rng.u(9); k.immtype = 0; }
		if (k.op == RVM_ROR) { k.c = DA; k.imm = 1 + rng.u(62); k.immtype = 0; }
		if (k.immtype == RVM_DTYPE_SWIID || k.immtype == RVM_DTYPE_FUNCTION) k.immtype = 0;
		a.ins(k); break; }
	case 4: { int r1 = (int)rng.u(6), r2 = (int)rng.u(6); a.ins(a.I(RVM_PUSH, r1)); if (rng.p(50)) a.ins(alu(rng, RVM_ADD, R5)); a.ins(a.I(RVM_POP, r2)); feat("push_pop"); break; }
	case 5: { u64 mask = rng.u(64); a.ins(a.I(RVM_PUSHM, DA, XX, XX, mask)); int n = (int)rng.u(3); for (int i = 0; i < n; i++) a.ins(alu(rng, rng.p(50) ? RVM_XOR : RVM_MOV, R5));
		// pop the same number of registers, not necessarily the same ones
		u64 m2 = 0; int cnt = __builtin_popcountll(mask); while (__builtin_popcountll(m2) < cnt) m2 |= 1ull << rng.u(6);
		a.ins(a.I(RVM_POPM, DA, XX, XX, rng.p(50) ? mask : m2)); feat("pushm_popm"); break; }
	case 6: if (infunc && locals) { a.ins(a.I(rng.p(50) ? RVM_STS : RVM_LDS, (int)rng.u(6), FP, DA, 1 + rng.u(locals))); feat("locals"); break; } // fallthrough
	case 7: { u64 off = rng.u(8) * 8; int r = (int)rng.u(6), p = R6;
		static const int ST[] = {RVM_STR, RVM_STRP, RVM_STRB, RVM_STRH, RVM_STRW, RVM_STRR}, LD[] = {RVM_LDR, RVM_LDRP, RVM_LDRB, RVM_LDRH, RVM_LDRW, RVM_LDRR};
		int w = (int)rng.u(6);
		if (w == 5) off = 256 + off * 2;          // whole registers have a region of their own: their padding is nobody's business
		a.ins(a.I(RVM_MOV, p, DA, XX, memat + off, RVM_DTYPE_POINTER));
		if (rng.p(60)) a.ins(a.I(ST[w], r, p)); else a.ins(a.I(LD[w == 5 ? 0 : w], r, p));
		if (rng.p(40)) a.ins(a.I(LD[w], (int)rng.u(6), p));
		if (w == 5 && rng.p(30)) a.ins(a.I(RVM_CLRR, p));
		feat("memory_ops"); break; }
	case 8: { u64 mask = rng.u(64); a.ins(a.I(RVM_MOV, R6, DA, XX, memat + 128)); if (rng.p(40)) { mask |= rng.u(1 << 13) & ~(1ull << PC); feat("high_registers_stored"); }
		a.ins(a.I(RVM_STM, R6, DA, XX, mask)); if (rng.p(50)) a.ins(alu(rng, RVM_ADD, R5));
		u64 m2 = 0; int cnt = __builtin_popcountll(mask); if (cnt > 8) cnt = 8;
		while (__builtin_popcountll(m2) < cnt) m2 |= 1ull << (rng.p(20) ? R8 + rng.u(2) : rng.u(6));
		a.ins(a.I(RVM_LDM, R6, DA, XX, m2)); feat("block_transfer"); break; }
	case 9: { Ins k = a.I(RVM_SWI); int t = (int)rng.u(2), n = (int)rng.u(t ? 5 : 3); k.swi = t * 256 + n; 
		switch (rng.u(4)) {
		case 0: a.ins(k); break;
		case 1: a.ins(a.I(RVM_SWIID, DA, XX, XX, k.swi)); break;
		case 2: a.ins(a.I(RVM_CALL, DA, XX, XX, k.swi, RVM_DTYPE_SWIID)); if (infunc) a.ins(a.I(RVM_NOP)); break;
		default: a.ins(a.I(RVM_MOV, R6, DA, XX, k.swi, RVM_DTYPE_SWIID)); a.ins(a.I(RVM_CALL, R6)); break;
		}
		feat("service_calls"); break; }
	case 10: { // data label
		if (a.plab.count("outside") && rng.p(40)) { a.relins(a.I(RVM_MOV, R6, DA), "outside", 0); a.ins(a.I(rng.p(50) ? RVM_LDRB : RVM_LDRW, (int)rng.u(6), R6)); feat("data_loads"); break; }
		if (!a.dlab.empty()) { auto it = a.dlab.begin(); std::advance(it, rng.u(a.dlab.size())); a.relins(a.I(RVM_MOV, R6, DA), it->first, a.datakind(it->first)); a.ins(a.I(rng.p(50) ? RVM_LDRB : RVM_LDRW, (int)rng.u(6), R6)); feat("data_loads"); }
		break; }
	default: { int rn = (int)rng.u(6); a.ins(a.I(rng.p(50) ? RVM_CMP : RVM_TST, rn, rng.p(60) ? (int)DA : (int)rng.u(6), XX, val(rng))); break; }
	}
}
static void v02_body(Asm &a, Rng &rng, int budget, int depth, const V<S> &funcs, int locals, bool infunc) {
	while (budget > 0) {
		int w = (int)rng.u(10);
		if (w < 6 || depth > 3) { v02_simple(a, rng, locals, infunc); budget -= 2; }
		else if (w == 6) {            // if / else with forward labels
			S els, end; { els = a.fresh(); end = a.fresh(); }
			a.announce(els); bool two = rng.p(50);
			a.ins(a.I(RVM_CMP, (int)rng.u(6), rng.p(50) ? (int)DA : (int)rng.u(6), XX, rng.u(4)));
			a.branch(1 + (int)rng.u(6), els);
			v02_body(a, rng, budget / 3, depth + 1, funcs, locals, infunc);
			if (two) a.branch(0, end);
			a.define(els);
			if (two) { v02_body(a, rng, budget / 3, depth + 1, funcs, locals, infunc); a.define(end); }
			budget -= budget / 2 + 3; feat("if_else");
		} else if (w == 7) {          // counted loop, backward label
			S top; { top = a.fresh(); }
			u64 n = 1 + rng.u(4);
			a.ins(a.I(RVM_PUSH, R7)); a.ins(a.I(RVM_MOV, R7, DA, XX, n));
			a.define(top);
			v02_body(a, rng, budget / 3, depth + 1, funcs, locals, infunc);
			a.ins(a.I(RVM_DEC, R7)); a.ins(a.I(RVM_CMP, R7, DA, XX, 0));
			a.branch(rng.p(50) ? 6 : 2, top);
			a.ins(a.I(RVM_POP, R7));
			budget -= budget / 2 + 5; feat("loops");
		} else if (w == 8 && !funcs.empty()) {
			if (!infunc || true) a.call(rng.pick(funcs));
			budget -= 3;
		} else if (w == 9) {          // a branch patched after its distance is known, as the grammar compiler does
			long b = a.ins(a.I(RVM_NOP));
			long n = rng.r(0, 4);
			for (long i = 0; i < n; i++) v02_simple(a, rng, locals, infunc);
			static const int BR[] = {RVM_B, RVM_BEQ, RVM_BNEQ, RVM_BLEQ, RVM_BGEQ, RVM_BLES, RVM_BGRE};
			Ins k = a.I(BR[rng.u(7)], DA, XX, XX, (u64)(a.at() - b));
			a.f.code[b] = k;
			{ a.note(fmt("%4ld: replaced by ", b) + disasm(k)); }
			rvm_codegen_replaceins(a.cg, b, enc(k));
			a.ins(a.I(RVM_NOP));
			budget -= 6; feat("patched_branches");
		} else budget -= 1;
	}
}
static void v02_scope(Rng &rng) {
	rvm_scope_t *sc = rvm_scope_create();
	struct E { S n; u64 off; bool ptr; }; V<E> st; V<size_t> marks;
	static const char *N[] = {"a", "b", "ab", "abc", "i", "", "value"};
	bool many = rng.p(20), wide = rng.p(2);
	S log; int n = (int)(wide ? rng.r(1000, 3000) : rng.r(5, rng.p(20) ? 400 : 60)); if (wide) { many = true; feat("large_scopes"); } bool ok = true; S why;
	for (int i = 0; i < n && ok; i++) {
		S nm = many ? fmt("v%d", (int)rng.u(wide ? 1000 : 120)) : S(N[rng.u(7)]);
		Exact ex(nm);
		switch (rng.u(5)) {
		case 0: rvm_scope_push(sc); { marks.push_back(st.size()); log += "push;"; } break;
		case 1: if (!marks.empty()) { rvm_scope_pop(sc); st.resize(marks.back()); marks.pop_back(); log += "pop;"; } break;
		case 2: { u64 o = rng.u(1000); bool p = rng.p(30); bool cs = rng.p(50); if (p && cs) rvm_scope_addpointer(sc, ex.b(), (unsigned)ex.n, (rpointer)o); else if (p) rvm_scope_addpointer_s(sc, nm.c_str(), (rpointer)o); else if (cs) rvm_scope_addoffset(sc, ex.b(), (unsigned)ex.n, (ruint32)o); else rvm_scope_addoffset_s(sc, nm.c_str(), (ruint32)o); st.push_back({nm, o, p}); log += "add " + nm + ";"; break; }
		default: {
			bool tip = rng.p(40); size_t lo = tip && !marks.empty() ? marks.back() : 0;
			bool cs = rng.p(50);
			rvm_varmap_t *g = tip ? cs ? rvm_scope_tiplookup(sc, ex.b(), (unsigned)ex.n) : rvm_scope_tiplookup_s(sc, nm.c_str()) : cs ? rvm_scope_lookup(sc, ex.b(), (unsigned)ex.n) : rvm_scope_lookup_s(sc, nm.c_str());
			const E *w = NULL; for (size_t j = st.size(); j > lo; j--) if (st[j - 1].n == nm) { w = &st[j - 1]; break; }
			if (!g != !w || (g && (w->ptr ? (g->datatype != VARMAP_DATATYPE_PTR || g->data.ptr != (rpointer)w->off) : (g->datatype != VARMAP_DATATYPE_OFFSET || g->data.offset != w->off)) )) { ok = false; why = log + (tip ? "tip" : "") + "lookup " + nm; }
			feat("scope_lookups"); }
		}
		if (rvm_scope_count(sc) != marks.size() || rvm_scope_numentries(sc) != st.size()) { ok = false; why = log + "counts"; }
	}
	rvm_scope_destroy(sc);
	if (!ok) viol("scope", "scope lookup disagrees with the innermost visible definition: " + why);
	st = V<E>(); marks = V<size_t>(); log = S(); why = S();
}
static void v02(Rng &rng) {
	if (rng.p(10)) return v02_scope(rng);
	static Ref f, start; static char *memory; static S mem0;
	{ f = Ref(); f.stack.assign(600, Word()); f.tables = {3, 5, 0}; if (!memory) memory = (char *)malloc(512); mem0.resize(512); for (size_t i = 0; i < 512; i++) mem0[i] = i >= 256 && i % 16 >= 8 && i % 16 < 12 ? 0 : (char)rng.u(256); f.memlo = (u64)memory; f.mem = mem0; }
	Real m(600); m.tables(&rng);
	// service lookup by name
	CHECK(rvm_cpu_swilookup_s(m.cpu, "t1", "long") == 256 + 2 && rvm_cpu_swilookup_s(m.cpu, NULL, "a1") == 1 && rvm_cpu_swilookup_s(m.cpu, "t0", "long") == -1 && rvm_cpu_swilookup_s(m.cpu, "none", "a1") == -1 && rvm_cpu_swilookup(m.cpu, NULL, "longname", 4) == 256 + 2, "swilookup", "service lookup by name returned the wrong identifier");
	rvm_codegen_t *cg = rvm_codegen_create();
	bool again = rng.p(15); long lastsrc = 0;
	S *texts = NULL;
	for (int round = 0; round < (again ? 2 : 1); round++) {
		if (round) { rvm_codegen_clear(cg); f = Ref(); f.stack.assign(600, Word()); f.tables = {3, 5, 0}; f.memlo = (u64)memory; f.mem = mem0; feat("reassembled"); }
		Asm a(cg, f, rng); a.cur = lastsrc; 
		// prefix with insertions, before any label exists
		int pre = (int)rng.u(4);
		for (int i = 0; i < pre; i++) a.ins(alu(rng, rng.p(50) ? RVM_MOV : RVM_ADD, R5));
		if (pre && rng.p(50)) {
			Ins k = alu(rng, RVM_XOR, R5); size_t p = rng.u(pre + 1);
			f.code.insert(f.code.begin() + p, k); a.srcok = false; a.note(fmt("insert at %zu: ", p) + disasm(k)); 
			rvm_codegen_insertins(cg, (unsigned)p, enc(k)); feat("insertions");
		}
		V<S> funcs, allf; 
		int nf = (int)rng.u(4); for (int i = 0; i < nf; i++) allf.push_back(fmt("func%d", i));
		int nleaf = (int)rng.u(3); for (int i = 0; i < nleaf; i++) allf.push_back(fmt("leaf%d", i));   // no frame, return through the link register
		int nd = (int)rng.u(4);
		S data; std::map<S, size_t> dlen; int ndata = 0;
		auto adddata = [&]() {
			S d; size_t n = rng.p(1) ? rng.pick((const size_t[]){251, 252, 255, 256, 257, 300, 4095, 4096, 4100, 65535, 65536, 66000}) : 4 + rng.u(40); bool str = rng.p(25); if (n > 250) feat("long_data"); for (size_t j = 0; j < n; j++) d += (char)(str ? rng.r(1, 255) : rng.u(256)); S name = fmt("data%d", ndata++);
			if (str) { d += (char)0; n++; }
			size_t sl = n - 1;
			size_t cur = (data.size() + 7) / 8 * 8; data.resize(cur); data += d; data.resize(cur + n + 9); a.dlab[name] = cur; dlen[name] = n; if (str) a.slen[name] = sl; a.note(name + fmt(" = %zu bytes", n)); 
			Exact en(name), ed(d); bool cs = rng.p(50);
			if (str) { if (cs) rvm_codegen_addstring(cg, en.b(), (unsigned)en.n, ed.b()); else rvm_codegen_addstring_s(cg, name.c_str(), ed.b()); feat("strings"); } else if (cs) rvm_codegen_adddata(cg, en.b(), (unsigned)en.n, ed.b(), d.size()); else rvm_codegen_adddata_s(cg, name.c_str(), ed.b(), d.size());
			return name;
		};
		for (int i = 0; i < nd; i++) adddata();
		if (rng.p(30)) a.pointer("outside", (u64)memory + rng.u(200));
		bool ffirst = rng.p(50);
		long entry = 0;
		auto emitf = [&]() {
			for (int i = 0; i < nleaf; i++) {
				a.ins(a.I(RVM_NOP));
				a.define(allf[nf + i]);
				for (int k = (int)rng.u(4); k > 0; k--) a.ins(alu(rng, rng.p(50) ? RVM_ADD : RVM_XOR, R5));
				a.ins(rng.p(60) ? a.I(RVM_RET) : a.I(RVM_BX, LR)); feat("leaves");
			}
			// function i may call functions j > i, so calls terminate
			for (int i = nf - 1; i >= 0; i--) {
				int locals = (int)rng.u(5);
				V<S> callee(allf.begin() + i + 1, allf.end()); a.note(allf[i] + fmt(": function, %d locals", locals)); 
				// what funcstart documents: NOP; label: PUSHM FP,SP,LR; MOV FP,SP; ADD SP,SP,locals
				bool vargs = rng.p(15);
				if (vargs) a.ins(a.I(RVM_NOP));
				Exact ef(allf[i]); bool cs = rng.p(50);
				unsigned st = vargs ? cs ? rvm_codegen_vargs_funcstart(cg, ef.b(), (unsigned)ef.n) : rvm_codegen_vargs_funcstart_s(cg, allf[i].c_str()) : cs ? rvm_codegen_funcstart(cg, ef.b(), (unsigned)ef.n, (unsigned)locals) : rvm_codegen_funcstart_s(cg, allf[i].c_str(), (unsigned)locals);
				
				a.f.code.push_back(a.I(RVM_NOP)); a.lab[allf[i]] = a.at();
				if ((long)st != a.at()) a.bad = "funcstart index";
				a.f.code.push_back(a.I(RVM_PUSHM, DA, XX, XX, 1 << FP | 1 << SP | 1 << LR)); a.f.code.push_back(a.I(RVM_MOV, FP, SP));
				a.f.code.push_back(vargs ? a.I(RVM_ADD, SP, SP, R0) : a.I(RVM_ADD, SP, SP, DA, (u64)locals));
				for (int j = 0; j < 4; j++) a.src.push_back(a.cur);
				
				if (vargs) { // R0 locals: make R0 small at run time by not touching the stack below
					v02_body(a, rng, 0, 0, callee, 0, true);
				} else v02_body(a, rng, (int)rng.r(0, 14), 1, callee, locals, true);
				if (rng.p(50)) rvm_codegen_funcend(cg);
				else rvm_codegen_funcend(cg);
				a.f.code.push_back(a.I(RVM_MOV, SP, FP)); a.f.code.push_back(a.I(RVM_POPM, DA, XX, XX, 1 << FP | 1 << SP | 1 << LR)); a.f.code.push_back(a.I(RVM_BX, LR));
				for (int j = 0; j < 3; j++) a.src.push_back(a.cur);
				callee = V<S>(); 
			}
		};
		if (ffirst && nf + nleaf) {
			S mainl = "main"; 
			a.branch(0, mainl); emitf(); a.define(mainl);
			if (rng.p(50)) entry = a.at();
		}
		if (rng.p(15)) {        // code taken back
			long at = a.at(); for (int k = (int)rng.r(1, 5); k > 0; k--) a.ins(alu(rng, RVM_ADD, R5));
			f.code.resize((size_t)at); a.src.resize((size_t)at); rvm_codegen_setcodesize(cg, (unsigned)at);
			a.note(fmt("code size set back to %ld", at)); feat("code_taken_back");
		}
		v02_body(a, rng, rng.p(1) ? (int)rng.r(200, 900) : (int)rng.r(4, 40), 0, allf, 0, false);
		bool undef = rng.p(10); 
		if (undef) a.branch(0, "nowhere");
		a.ins(a.I(RVM_EXT));
		if (!ffirst) emitf();
		rvm_codelabel_t *err = NULL;
		int rr = rvm_codegen_relocate(cg, &err);
		
		crumb(a.text.substr(0, 20000));
		if (undef) {
			if (rr >= 0) viol("undefined-label", "a branch to an undefined label was relocated\n" + a.text);
			else if (!err || S(err->name->str, err->name->size) != "nowhere") viol("undefined-label", "the undefined label is not the one reported\n" + a.text);
			feat("undefined_labels");
			a.define("nowhere"); a.ins(a.I(RVM_EXT)); rr = rvm_codegen_relocate(cg, &err); 
		}
		auto out = [&]() { a.text = S(); };
		if (rr < 0) { viol("relocate", "relocation failed though every label is defined\n" + a.text); break; }
		if (!a.bad.empty()) { viol("label", a.bad + "\n" + a.text); break; }
		if (rvm_codegen_getcodesize(cg) != f.code.size()) { viol("codesize", fmt("code size %lu, expected %zu\n", rvm_codegen_getcodesize(cg), f.code.size()) + a.text); break; }
		if (rvm_codegen_getsource(cg, r_array_length(cg->sourceidx)) != -1) { viol("source", "an instruction beyond the program has a source\n" + a.text); break; }
		if (a.srcok) for (size_t i = 0; i < a.src.size(); i += 1 + rng.u(5)) if (rvm_codegen_getsource(cg, i) != a.src[i]) { viol("source", fmt("source of instruction %zu is %ld, expected %ld\n", i, rvm_codegen_getsource(cg, i), a.src[i]) + a.text); break; }
		rvm_asmins_t *code = rvm_codegen_getcode(cg, 0);
		u64 dbase = (u64)r_array_slot(cg->staticdata, 0);
		a.resolve((u64)code, dbase);
		for (auto &x : a.fix) if (x.kind == 3 && code[x.at].data.size != a.slen[x.lab]) { viol("string-size", fmt("instruction %ld refers to a string of %zu bytes and has the size %u\n", x.at, a.slen[x.lab], (unsigned)code[x.at].data.size) + a.text); break; }
		for (int i = 0; i < 16; i++) { f.r[i] = Word(); if (i < 6) f.r[i].v = val(rng); }
		f.r[SP].v = rng.u(20); f.r[FP].v = 0; f.status = (unsigned)rng.u(16);
		start = f;
		bool bad = false;
		for (int rep = 0; rep < 2 && !bad; rep++) {
			f.r[0] = f.r[0];
			Ref g = start; 
			memcpy(memory, mem0.data(), mem0.size());
			// data loads are served from the real data section, whose bytes are checked here
			if (data.size() && memcmp((void *)dbase, data.data(), 0)) bad = true;
			for (auto &d : a.dlab) if (memcmp((char *)dbase + d.second, data.data() + d.second, dlen[d.first])) { viol("data", "static data differs from what was added\n" + a.text); bad = true; }
			// reference run: emulate data loads through a second window
			Ref *h = &g; h->mem = mem0;
			S joined;
			long lim = 60000; h->steps = 0; h->pc = entry; h->stop = false; h->error = 0; h->wild = false;
			while (!h->stop) {
				if (h->pc < 0 || h->pc >= (long)h->code.size() || ++h->steps > lim) { h->wild = true; break; }
				const Ins &k = h->code[h->pc];
				if ((k.op == RVM_LDRB || k.op == RVM_LDRW) && h->r[k.b].v >= dbase && h->r[k.b].v < dbase + data.size()) {
					u64 o = h->r[k.b].v - dbase; u64 x = 0; memcpy(&x, data.data() + o, k.op == RVM_LDRB ? 1 : 4); h->r[k.a].v = x;
				} else h->step();
				h->pc++;
			}
			if (h->wild) { feat("discarded"); break; }
			m.load(start);
			int ret = m.run(code, (u64)entry, ~0ull);
			S d = diff(g, m, ret, true);
			for (size_t i = 0; d.empty() && i < g.mem.size(); i++) if (memory[i] != g.mem[i] && !(i >= 256 && i % 16 >= 8 && i % 16 < 12)) d = fmt("memory differs at offset %zu", i);
			if (!d.empty()) { viol(rep ? "rerun" : "program", d + fmt(" (entry %ld, run %d)\n", entry, rep + 1) + a.text); bad = true; }
			feat("programs_run"); feat("steps", h->steps);
			if (!bad && rep == 0 && h->steps < 400 && rng.p(3)) {     // the tracing loop does the same, and prints
				m.load(start); { NoMon nm; memcpy(memory, start.mem.data(), start.mem.size()); }
				m.log.clear(); t_log = &m.log; t_ticks = 0; t_maxticks = ~0ull;
				fflush(stdout); int fd = dup(1), nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul);
				ret = rvm_cpu_exec_debug(m.cpu, code, (u64)entry);
				fflush(stdout); dup2(fd, 1); close(fd);
				d = diff(g, m, ret, true);
				if (!d.empty()) { viol("traced", "run with tracing: " + d + "\n" + a.text); bad = true; }
				feat("traced_runs");
			}
			distinct(hstr(a.text));
			if (rep == 0 && rng.p(30)) {
				// append dead code, so that the code may move, and relocate again
				int n = (int)rng.r(1, 40); for (int i = 0; i < n; i++) a.ins(a.I(RVM_NOP));
				if (rng.p(50)) { int m = (int)rng.r(1, rng.p(30) ? 100 : 8); for (int i = 0; i < m; i++) { S nm = adddata(); if (rng.p(50)) a.relins(a.I(RVM_MOV, R6, DA), nm, a.datakind(nm)); } feat("data_added_again"); }
				int r2 = rvm_codegen_relocate(cg, &err); dbase = (u64)r_array_slot(cg->staticdata, 0);
				if (r2 < 0) { viol("relocate", "second relocation failed\n" + a.text); bad = true; }
				code = rvm_codegen_getcode(cg, 0);
				start.code = f.code; Ref keep = start; f = start; a.resolve((u64)code, dbase); start.code = f.code; start.codebase = f.codebase; feat("relocated_again");
				// every relocated instruction holds the value the reference worked out, executed or not
				for (auto &x : a.fix) if ((u64)RVM_REG_GETU(&code[x.at].data) != f.code[x.at].imm) { viol("relocated-value", fmt("instruction %ld is relocated to 0x%llx, expected 0x%llx\n", x.at, (unsigned long long)RVM_REG_GETU(&code[x.at].data), (unsigned long long)f.code[x.at].imm) + a.text); bad = true; break; }
				for (auto &x : a.fix) if (x.kind == 3 && code[x.at].data.size != a.slen[x.lab]) { viol("string-size", fmt("relocated again, instruction %ld refers to a string of %zu bytes and has the size %u\n", x.at, a.slen[x.lab], (unsigned)code[x.at].data.size) + a.text); bad = true; break; }
			}
		}
		out(); lastsrc = a.cur;
		
		funcs = V<S>(); allf = V<S>(); data = S();
	}
	(void)texts;
	rvm_codegen_destroy(cg);
}

// ------------------------------------------------------------------ V03
static void v03(Rng &rng) {
	static Ref f, g;
	unsigned long size = (unsigned long)(rng.p(60) ? rng.r(17, 60) : rng.p(50) ? rng.r(1, 20) : rng.r(60, 4096));
	Real m(size); m.tables(&rng);
	int progs = (int)rng.r(1, 4);
	for (int p = 0; p < progs; p++) {
		NoMon nm;
		f = Ref(); f.stack.assign(size, Word()); f.tables = {3, 5, 0}; f.maxticks = 1 + rng.u(300);
		int n = (int)rng.r(3, 40);
		S text;
		auto spv = [&]() -> u64 {
			static const u64 K[] = {0, 1, ~0ull, ~0ull - 1, ~0ull - 14, ~0ull - 15, ~0ull - 16, 1ull << 63, 1ull << 60, (1ull << 60) - 1, 1ull << 32, 0x0800000000000000ull};
			switch (rng.u(4)) { case 0: return rng.pick(K); case 1: return size + (u64)rng.r(-18, 18); case 2: return rng.u(size + 1); default: return (u64)rng.r(-20, 20); }
		};
		for (int i = 0; i < n; i++) {
			Ins k; int d = (int)rng.u(13);   // R0..LR
			if (rng.p(12)) d = SP;
			auto src = [&]() { return rng.p(20) ? (int)XX : rng.p(35) ? (int)DA : rng.p(50) ? (rng.p(50) ? (int)SP : (int)FP) : (int)rng.u(13); };
			k.imm = spv();
			switch (rng.u(16)) {
			case 0: case 1: k.op = RVM_PUSH; k.a = d; break;
			case 2: case 3: k.op = RVM_POP; k.a = d; break;
			case 4: k.op = RVM_PUSHM; k.a = rng.p(80) ? (int)DA : d; k.imm = rng.u(1 << 13); if (rng.p(10)) k.imm = rng.next(); break;
			case 5: k.op = RVM_POPM; k.a = rng.p(80) ? (int)DA : d; k.imm = rng.u(1 << 13); if (rng.p(40)) k.imm &= 0x3f; if (rng.p(10)) k.imm = rng.next() & ~(1ull << PC | 1ull << DA); if (k.a != DA) { k.a = DA; } k.imm &= ~(u64)(1 << PC | 1 << DA); break;
			case 6: case 7: k.op = RVM_STS; k.a = d; k.b = src(); k.c = src(); break;
			case 8: case 9: k.op = RVM_LDS; k.a = d; k.b = src(); k.c = src(); break;
			case 10: k.op = RVM_MOV; k.a = rng.p(50) ? (int)SP : d; k.b = rng.p(70) ? (int)DA : (int)FP; break;
			case 11: k.op = rng.p(50) ? RVM_ADD : RVM_SUB; k.a = rng.p(50) ? (int)SP : d; k.b = rng.p(50) ? (int)SP : (int)rng.u(13); k.c = DA; k.imm = rng.u(size + 20); break;
			case 12: { // frame entry or exit
				k.op = rng.p(50) ? RVM_PUSHM : RVM_POPM; k.a = DA; k.imm = 1 << FP | 1 << SP | 1 << LR; break; }
			case 13: k = alu(rng, rng.pick(ALU), LR); break;
			case 14: switch (rng.u(8)) {
				case 0: k.op = rng.p(50) ? (int)rng.r(RVM_RESERVED84, RVM_RESERVED127) : (int)rng.r(RVM_USER129, RVM_USER255); feat("illegal_planned"); break;
				case 1: k.op = RVM_SWI; k.swi = (int)rng.u(rng.p(50) ? 1024 : 65536); break;
				case 2: k.op = RVM_SWIID; k.a = DA; k.imm = rng.u(rng.p(50) ? 1024 : 65536); break;
				case 3: k.op = RVM_CALL; k.a = DA; k.immtype = rng.p(50) ? (uint16_t)RVM_DTYPE_SWIID : (uint16_t)rng.u(9); k.imm = rng.u(1024); break;
				case 4: k.op = RVM_ABORT; k.a = DA; k.imm = rng.u(20); break;
				case 5: k.op = RVM_STRR; k.a = d; k.b = DA; k.imm = 64; k.immtype = (uint16_t)(rng.p(50) ? RVM_DTYPE_SIGNED : RVM_DTYPE_DOUBLE); break;
				case 6: k.op = rng.p(50) ? RVM_DIV : RVM_MODS; k.a = d; k.b = (int)rng.u(13); k.c = DA; k.imm = rng.p(50) ? 0 : val(rng); break;
				default: k.op = RVM_CFLAG; k.a = DA; k.imm = rng.u(32); break;
				} break;
			default: { // a backward branch, always through a tick
				Ins t; t.op = OP_TICK; t.a = (int)rng.u(13); f.code.push_back(t);
				static const int BR[] = {RVM_B, RVM_BEQ, RVM_BNEQ, RVM_BLEQ, RVM_BGEQ, RVM_BLES, RVM_BGRE, RVM_BL};
				k.op = rng.pick(BR); k.a = DA; k.imm = (u64)-(i64)rng.u(f.code.size()); break; }
			}
			if (k.immtype == RVM_DTYPE_BOOLEAN) k.imm = k.imm ? 1 : 0;
			f.code.push_back(k);
		}
		{ Ins e; e.op = RVM_EXT; f.code.push_back(e); }
		for (int i = 0; i < 13; i++) { f.r[i].v = rng.p(70) ? spv() : val(rng); }
		if (rng.p(50)) f.r[SP].v = rng.u(3);
		f.status = (unsigned)rng.u(32);
		for (size_t i = 0; i < size; i++) f.stack[i].v = rng.next();
		S regsin; for (int i = 0; i < 13; i++) regsin += fmt(" %llx", (unsigned long long)f.r[i].v);
		text = fmt("stack %lu ticks %llu regs", size, (unsigned long long)f.maxticks) + regsin + "\n";
		for (size_t i = 0; i < f.code.size(); i++) text += fmt("%3zu ", i) + disasm(f.code[i]) + "\n";
		crumb(text);
		V<rvm_asmins_t> code; for (auto &k : f.code) code.push_back(enc(k));
		f.codebase = (u64)code.data();
		f.r[XX] = Word();
		g = f;
		g.run(0, 200000);
		if (g.wild) { feat("discarded"); continue; }
		m.load(f); m.cpu->r[XX].v.w = 0;
		int ret = m.run(code.data(), 0, f.maxticks);
		// the carry after a rotation by nothing is unspecified; avoid judging programs that used one
		bool unspec = false; for (auto &k : f.code) if (k.op == RVM_ROR) unspec = true;
		S d = unspec ? S() : diff(g, m, ret, true);
		if (!d.empty()) { viol("containment", d + "\n" + text); return; }
		feat("programs"); feat(fmt("error_%llu", (unsigned long long)m.cpu->error)); feat("steps", g.steps);
		distinct(hstr(text));
		// the machine still works
		Ref h; h.stack.assign(size, Word());
		rvm_asmins_t ok[] = {rvm_asm(RVM_MOV, R1, DA, XX, 41), rvm_asm(RVM_ADD, R1, R1, DA, 1), rvm_asm(RVM_MOV, R2, R1, XX, 0), rvm_asm(RVM_EXT, XX, XX, XX, 0)};
		m.load(h);
		int r2 = m.run(ok, 0, 10);
		CHECK(r2 == 0 && m.cpu->error == 0 && rvm_cpu_getreg(m.cpu, R2)->v.w == 42, "afterwards", "after a stopped program the machine does not run the next one\n%s", text.c_str());
	}
}

bool select_property(const S &p) {
	if (p == "V01") g_fn = v01; else if (p == "V02") g_fn = v02; else if (p == "V03") g_fn = v03; else return false;
	return true;
}
