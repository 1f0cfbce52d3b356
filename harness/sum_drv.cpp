// Driver for ptl::optional and ptl::variant: three objects, operations in a module of the script's choice.
#include "core_impl.h"
#include "sum.h"
#include "layout.h"
#include <string_view>
using namespace core;
namespace {
constexpr int NOBJ = 3;
const char * const types[]{"oi", "oe", "ob", "os", "v1", "v2", "v5", "vs", "vw", "on"};
using get_t = const SumMod *(*)(int);
std::vector<get_t> mods;
struct Row { SumOp op; std::vector<const char *> opt, var; };
const std::map<std::string, Row> table{
	{"create", {U_CREATE, {"default", "copy", "value", "value&&", "args", "nullopt", "none", "args_copy"}, {"default", "copy", "value", "value&&", "index", "type", "none", "value&"}}},
	{"mvcreate", {U_MVCREATE, {"move"}, {"move"}}},
	{"assign", {U_ASSIGN, {"copy", "value", "value&&", "nullopt", "inner", "inner&&"}, {"copy", "value", "value&&", "value&", "inner", "inner&&"}}},
	{"mvassign", {U_MVASSIGN, {"move"}, {"move"}}},
	{"emplace", {U_EMPLACE, {"args", "none", "copy", "move", "inner", "inner&&"}, {"index", "type", "none", "copy", "move"}}},
	{"reset", {U_RESET, {""}, {}}},
	{"swap", {U_SWAP, {"member", "friend", "adl"}, {"member", "friend", "adl"}}},
	{"write", {U_WRITE, {"*", "->", "value", "move"}, {"get", "get_if", "move"}}},
	{"read", {U_READ, {"value", "*", "value_or", "value_or&&", "mvalue_or", "value_or_int", "has_value", "bool"}, {"get", "get_if", "holds"}}},
	{"visit", {U_VISIT, {}, {"one", "two", "three", "ref", "void", "lambda"}}},
};
constexpr std::size_t cell = 256, canary = 64;
alignas(64) CORE_TL unsigned char arena[NOBJ][cell];
void * obj(int k) { return arena[k] + canary; }
// the layouts of the alternatives
const std::vector<std::string> kinds[]{{"int"}, {"int"}, {"big"}, {"text"}, {"int"}, {"int", "int"}, {"int", "char", "big", "int", "pad"}, {"char", "text", "int"}, std::vector<std::string>(254, "int"), {"int"}};
std::string text_of(int v) { if(!v) return ""; std::string s = std::to_string(v); if(v % 2) s += std::string(40, '.'); return s; }
struct State { int a = 0, v = 0, h = 0, gi = 0, b = 0; std::vector<unsigned char> im; };
bool operator==(const State & x, const State & y) { return x.a == y.a && x.v == y.v && x.h == y.h && x.gi == y.gi && x.b == y.b && x.im == y.im; }

struct Run {
	const Script & sc;
	int type = 0, flags = 0, nobj = NOBJ;
	State st[NOBJ];
	const SumMod * m0;
	explicit Run(const Script & s) : sc{s} {
		for(int t = 0; t < SUM_TYPES; ++t) if(s.type == types[t]) type = t;
		flags = s.par.empty() ? 0 : static_cast<int>(s.par[0]);
		m0 = mods[0](type);
	}
	const SumMod & mod(long k) { return *mods[static_cast<std::size_t>(k) % mods.size()](type); }
	SumObs raw(int k) { SumObs ob{}; mod(rnd(static_cast<unsigned>(mods.size()))).observe(obj(k), static_cast<int>(rnd(12)), &ob); return ob; }
	State look(int k) {
		const auto ob = raw(k);
		State s; s.a = ob.a; s.v = ob.v; s.h = ob.holds; s.gi = ob.gif; s.b = block_id(ob.data);
		if(ob.data && !s.b) { auto d = static_cast<const unsigned char *>(ob.data); if(d < static_cast<unsigned char *>(obj(k)) || d >= static_cast<unsigned char *>(obj(k)) + m0->size) ++guard_errs; }
		if(flags & 8) s.im.assign(static_cast<unsigned char *>(obj(k)), static_cast<unsigned char *>(obj(k)) + m0->size);
		return s;
	}
	void put(Json & j, int k, const State & s) {
		j.open('{'); j.kv("o", k + 1); j.kv("a", s.a); j.kv("v", s.v); j.kv("h", s.h); j.kv("gi", s.gi); j.kv("b", s.b);
		if(flags & 8) {
			j.list("im", s.im);
			int fv = 0;
			const auto & ks = kinds[type];
			const auto last = s.im.back();
			const auto & kd = m0->optional ? (last == 1 ? ks[0] : "") : last < ks.size() ? ks[last] : "";
			if(kd == "text") { const auto t = peer::read_string(obj(k)); fv = -9; if(t.size < 100) { const std::string w(reinterpret_cast<const char *>(t.p), static_cast<std::size_t>(t.size)); for(int v = 0; v < 200; ++v) if(text_of(v) == w) fv = v; } }
			j.kv("fv", fv);
		}
		j.close('}');
	}
	void finish(Json & j, int o, int p, bool all = false) {
		if(flags & 2) put_mem(j); else mem.clear();
		if(flags & 4) put_life(j);
		for(int k = 0; k < NOBJ; ++k)
			for(std::size_t x = 0; x < cell; ++x) if(x < canary || x >= canary + m0->size) if(arena[k][x] != 0xC3) { ++guard_errs; arena[k][x] = 0xC3; }
		j.key("d"); j.open('[');
		for(int k = 0; k < nobj; ++k) {
			auto s = look(k);
			if(all || k == o || k == p || !(s == st[k])) put(j, k, s);
			st[k] = s;
		}
		j.close(']'); j.first = false;
		put_guard(j);
		if(flags & 4) {
			j.key("els"); j.open('[');
			for(int k = 0; k < nobj; ++k) {
				SumObs ob{}; m0->observe(obj(k), 0, &ob);
				if(!ob.p || !ob.tracked) continue;
				int b, s; slot_of(ob.p, b, s);
				j.open('['); j.num(b); j.num(s); j.num(1); j.num(1); j.close(']');
			}
			j.close(']'); j.first = false;
		}
		j.close('}');
		event(j);
	}
	// m ov o p a v cat thr f
	void foreign(const Op & op) {
		const int o = static_cast<int>(op.at(2) % nobj);
		const auto & ks = kinds[type];
		auto b = static_cast<unsigned char *>(obj(o));
		auto & old = st[o];
		if(m0->optional ? old.a && ks[0] == "text" : old.a > 0 && ks[static_cast<std::size_t>(old.a) - 1] == "text") peer::destroy(obj(o));
		int a = static_cast<int>(m0->optional ? op.at(4) & 1 : (op.at(4) < 1 ? 0 : op.at(4) - 1) % (m0->alts) + 1);
		if(type == U_VW) { static const int some[]{1, 2, 3, 64, 65, 127, 128, 129, 0, -1}; a = some[static_cast<std::size_t>(op.at(4) < 0 ? 0 : op.at(4)) % 10]; if(a <= 0) a += m0->alts; }
		const int v = static_cast<int>(op.at(5)), put = a ? v : 0;
		memset(b, 0x77, m0->size);
		if(a) {
			const auto & kd = ks[static_cast<std::size_t>(a) - 1];
			if(kd == "text") { const auto t = text_of(v); peer::write_string(b, reinterpret_cast<const unsigned char *>(t.data()), t.size(), op.at(6) & 1, static_cast<std::size_t>(op.at(7) % 30)); }
			else peer::write_value(b, kd, v);
		}
		b[m0->size - 1] = static_cast<unsigned char>(m0->optional ? a : a - 1);
		Json e; e.open('{');
		e.kv("op", "foreign"); e.kv("ov", ""); e.kv("m", 3); e.kv("o", o + 1); e.kv("p", o + 1); e.kv("a", a); e.kv("v", put); e.kv("cat", 0); e.kv("thr", 0); e.kv("x", ""); e.kv("rv", -7); e.kv("fk", 0); e.kv("ff", 0);
		finish(e, o, o);
	}
	void op(const Op & op) {
		if(op.name == "foreign") return foreign(op);
		const auto it = table.find(op.name);
		if(it == table.end()) return;
		const auto & ovs = m0->optional ? it->second.opt : it->second.var;
		if(ovs.empty()) return;
		SumReq q{};
		q.op = it->second.op;
		q.ov = static_cast<int>(op.at(1) % static_cast<long>(ovs.size()));
		const int o = static_cast<int>(op.at(2) % nobj);
		int p = static_cast<int>(op.at(3) % nobj);
		static const int some[]{1, 2, 3, 64, 65, 127, 128, 129, 0, -1};
		q.a = static_cast<int>(op.at(4));
		if(q.a < 1) q.a = 1;
		if(type == U_VW) { q.a = some[q.a % 10]; if(q.a <= 0) q.a += m0->alts; } else q.a = (q.a - 1) % m0->alts + 1;
		q.v = static_cast<int>(op.at(5));
		q.cat = type == U_VW ? 0 : static_cast<int>(op.at(6) % 4); q.thr = type == U_VW ? 0 : static_cast<int>(op.at(7) % 3);
		if(type == U_VW && q.op == U_VISIT) q.ov = 0;
		const std::string ov = ovs[static_cast<std::size_t>(q.ov)];
		const bool inner = ov == "inner" || ov == "inner&&";       // the value held by p
		const bool uses_p = q.op == U_MVCREATE || q.op == U_MVASSIGN || q.op == U_SWAP || inner || ((q.op == U_CREATE || q.op == U_ASSIGN) && ov == "copy");
		if((q.op == U_CREATE || q.op == U_MVCREATE) && p == o) p = (o + 1) % nobj;
		if(inner && (m0->optional ? !st[p].h : st[p].a < 1)) return;
		if(inner && (type == U_VW || (ov == "inner&&" && o == p))) return;
		if(inner) q.a = st[p].a;
		if(st[o].a < 0 || (m0->optional ? st[o].h > 1 : st[o].a < 1)) return;      // already refused
		if(q.op == U_WRITE) { if(!st[o].a) return; q.a = st[o].a; }
		if(q.op == U_READ && ov == "*" && !st[o].a) return;
		q.self = obj(o); q.other = obj(p);
		const bool can_fail = q.op != U_WRITE && q.op != U_READ && q.op != U_VISIT && type != U_VW;
		const int fk = can_fail ? static_cast<int>(op.at(8)) : 0;
		for(int k = 1; k < 60; ++k) {
			SumRes r{};
			arm(fk, k);
			mod(op.at(0)).apply(&q, &r);
			const int fired = fault_fired;
			arm(0, 0);
			core_window(0);
			Json e;
			e.open('{');
			e.kv("op", op.name); e.kv("ov", ov); e.kv("m", op.at(0) % 2 + 1); e.kv("o", o + 1); e.kv("p", uses_p ? p + 1 : o + 1); e.kv("a", q.a); e.kv("v", q.v); e.kv("cat", q.cat); e.kv("thr", q.thr);
			e.kv("x", xname(r.x)); e.kv("rv", r.rv); e.kv("fk", fk); e.kv("ff", fired);
			if(q.op == U_READ || q.op == U_VISIT) { e.kv("same", r.same); e.kv("calls", r.calls); e.kv("va", r.va); e.kv("vv", r.vv); e.kv("cq", r.cq); e.kv("rq", r.rq); e.kv("res", r.res); }
			finish(e, o, uses_p ? p : o);
			if(!fk || fk == F_ALLALLOC || !fired || r.x == X_NONE) break;
		}
	}
	void run() {
		memset(arena, 0xC3, sizeof arena);
		seed_from(sc.id + sc.type);
		life_on = flags & 4;
		const int fill = static_cast<int>(rnd(3));
		for(int k = 0; k < NOBJ; ++k) {
			memset(obj(k), fill == 0 ? 0 : fill == 1 ? 0xFF : 0x5A, m0->size);
			SumReq q{}; SumRes r{}; q.op = U_INIT; q.self = q.other = obj(k);
			mod(k).apply(&q, &r);
		}
		Json e; e.open('{'); e.kv("op", "init"); e.kv("opt", m0->optional); e.kv("alts", m0->alts); e.list_str("kinds", kinds[type]); e.kv("size", static_cast<long>(m0->size)); e.kv("align", static_cast<long>(m0->align));
		finish(e, -1, -1, true);
		for(auto & o : sc.ops) op(o);
		nobj = 0;
		for(int k = 0; k < NOBJ; ++k) {
			SumReq q{}; SumRes r{}; q.op = U_DESTROY; q.self = q.other = obj(k);
			mod(rnd(2)).apply(&q, &r);
		}
		Json f; f.open('{'); f.kv("op", "end"); finish(f, -1, -1);
	}
};
}
int main(int argc, char ** argv) {
	for(auto n : {"mod_a.so", "mod_b.so"}) mods.push_back(reinterpret_cast<get_t>(dlsym(load_module(argv[0], n), "sum_mod")));
	return main_loop(argc, argv, [](const Script & s) { Run{s}.run(); });
}
