// Driver for ptl::bitset: three objects of one size.
#include "core_impl.h"
#include "bits.h"
using namespace core;
namespace {
constexpr int NOBJ = 3;
#define X(n) n,
constexpr long sizes[]{BIT_SIZES};
#undef X
constexpr int TYPES = sizeof sizes / sizeof *sizes;
std::vector<const BitMod *(*)(int)> mods;
struct Row { BitOp op; std::vector<const char *> ovs; };
const std::map<std::string, Row> table{
	{"create", {B_CREATE, {"default", "copy", "int"}}}, {"mvcreate", {B_MVCREATE, {""}}}, {"assign", {B_ASSIGN, {"copy", "move"}}},
	{"set", {B_SET, {"all", "one", "value"}}}, {"reset", {B_RESET, {"all", "one"}}}, {"flip", {B_FLIP, {"all", "one"}}},
	{"compound", {B_COMPOUND, {"and", "or", "xor"}}}, {"binary", {B_BINARY, {"and", "or", "xor"}}}, {"not", {B_NOT, {""}}},
	{"shift", {B_SHIFT, {"left", "right"}}}, {"shifted", {B_SHIFTED, {"left", "right"}}},
	{"ref", {B_REF, {"[]", "at", "[]=[]", "[]=ref", "[].flip", "swap", "fswap", "at.flip", "[]=c[]", "refcopy"}}},
	{"swap", {B_SWAP, {"member", "friend", "adl"}}}, {"read", {B_READ, {"test", "cat", "at", "c[]", "[]", "~"}}},
	{"in", {B_IN, {"", "noskipws", "failed"}}}, {"out", {B_OUT, {""}}},
};
constexpr std::size_t cell = 9000, canary = 64;
alignas(64) CORE_TL unsigned char arena[NOBJ][cell];
void * obj(int k) { return arena[k] + canary; }
struct State { std::vector<int> s; unsigned long long hash = 0; int cnt = 0, all = 0, any = 0, none = 0, bo = 0, ok = 1; std::vector<unsigned char> im; };
bool operator==(const State & x, const State & y) { return x.s == y.s && x.cnt == y.cnt && x.all == y.all && x.any == y.any && x.none == y.none && x.bo == y.bo && x.ok == y.ok && x.im == y.im; }
struct Run {
	const Script & sc;
	int type = 0, flags = 0, nobj = NOBJ;
	long N;
	State st[NOBJ];
	const BitMod * m0;
	explicit Run(const Script & s) : sc{s} {
		const long want = atol(s.type.c_str() + 1);
		for(int t = 0; t < TYPES; ++t) if(sizes[t] == want) type = t;
		N = sizes[type];
		flags = s.par.empty() ? 0 : static_cast<int>(s.par[0]);
		m0 = mods[0](type);
	}
	const BitMod & mod(long k) { return *mods[static_cast<std::size_t>(k) % mods.size()](type); }
	State look(int k) {
		std::vector<int> bits(static_cast<std::size_t>(N) + 1); BitObs ob{}; ob.bits = bits.data();
		mod(rnd(2)).observe(obj(k), static_cast<int>(rnd(6)), &ob);
		State s; s.s.assign(bits.begin(), bits.begin() + ob.nbits); s.hash = ob.hash; s.cnt = static_cast<int>(ob.count); s.all = ob.all; s.any = ob.any; s.none = ob.none; s.bo = ob.boolean;
		s.ok = ob.agree && ob.size == static_cast<unsigned long long>(N) && ob.max == ob.size && ob.empty == (N == 0);
		if(flags & 8) s.im.assign(static_cast<unsigned char *>(obj(k)), static_cast<unsigned char *>(obj(k)) + m0->size);
		return s;
	}
	void finish(Json & j, int o, int p, bool all = false) {
		for(int k = 0; k < NOBJ; ++k) for(std::size_t x = 0; x < canary + m0->size + canary; ++x) { if(x == canary) x += m0->size; if(arena[k][x] != 0xC3) { ++guard_errs; arena[k][x] = 0xC3; } }
		j.kv("g", guard_errs); guard_errs = 0;
		j.key("d"); j.open('[');
		for(int k = 0; k < nobj; ++k) {
			auto s = look(k);
			if(all || k == o || k == p || !(s == st[k])) {
				j.open('{'); j.kv("o", k + 1); j.list("s", s.s); j.kv("cnt", s.cnt); j.kv("all", s.all); j.kv("any", s.any); j.kv("none", s.none); j.kv("bo", s.bo); j.kv("ok", s.ok);
				if(flags & 8) j.list("im", s.im);
				j.close('}');
			}
			st[k] = s;
		}
		j.close(']'); j.first = false;
		// equality and hashes of all pairs: [o, p, ==, !=, same hash]
		j.key("eq"); j.open('[');
		for(int a = 0; a < nobj; ++a) for(int b = 0; b < nobj; ++b) if(a <= b) {
			int eq = 0, ne = 0;
			mod(rnd(2)).equal(obj(a), obj(b), &eq, &ne);
			j.open('['); j.num(a + 1); j.num(b + 1); j.num(eq); j.num(ne); j.num(st[a].hash == st[b].hash); j.close(']');
		}
		j.close(']'); j.first = false;
		j.close('}');
		event(j);
	}
	unsigned long long number(long code, long arg) { // code 0: arg itself, otherwise relative to something
		switch(code) {
			case 1: return static_cast<unsigned long long>(N) + static_cast<unsigned long long>(arg);
			case 2: return ~0ull + static_cast<unsigned long long>(arg);
			case 3: return (1ull << 32) + static_cast<unsigned long long>(arg);
			case 4: return (1ull << 63) + static_cast<unsigned long long>(arg);
			case 5: return N ? static_cast<unsigned long long>(arg < 0 ? -arg : arg) % static_cast<unsigned long long>(N) : 0;
			case 6: return static_cast<unsigned long long>(arg) * 0x9E3779B97F4A7C15ull;
			default: return static_cast<unsigned long long>(arg);
		}
	}
	// m ov o p t icode iarg jcode jarg b | text
	void op(const Op & op) {
		if(op.name == "foreign") { // written by code that knows only the layout
			const int o = static_cast<int>(op.at(2) % nobj);
			auto b = static_cast<unsigned char *>(obj(o)); memset(b, 0, m0->size);
			std::vector<int> xs;
			for(int x : op.v) if(x >= 0 && x < N) { b[x / 8] = static_cast<unsigned char>(b[x / 8] | 1 << x % 8); xs.push_back(x); }
			Json e; e.open('{'); e.kv("op", "foreign"); e.kv("ov", ""); e.kv("m", 3); e.kv("o", o + 1); e.kv("p", o + 1); e.kv("t", o + 1); e.limbs("i", 0); e.limbs("j", 0); e.kv("b", 0); e.kv("x", ""); e.kv("rv", -7); e.list("xs", xs);
			finish(e, o, o); return;
		}
		const auto it = table.find(op.name);
		if(it == table.end()) return;
		BitReq q{}; BitRes r{};
		std::vector<char> out(static_cast<std::size_t>(N) + 64); r.out = out.data();
		q.op = it->second.op; q.ov = static_cast<int>(op.at(1) % static_cast<long>(it->second.ovs.size()));
		const std::string ov = it->second.ovs[static_cast<std::size_t>(q.ov)];
		const int o = static_cast<int>(op.at(2) % nobj); int p = static_cast<int>(op.at(3) % nobj); const int t = static_cast<int>(op.at(4) % nobj);
		if((q.op == B_MVCREATE || (q.op == B_CREATE && ov == "copy")) && p == o) p = (o + 1) % nobj;
		q.i = number(op.at(5), op.at(6)); q.j = number(op.at(7), op.at(8)); q.b = op.at(9) & 1;
		std::string text; for(int c : op.v) text += static_cast<char>(c);
		q.text = text.data(); q.ntext = text.size();
		const bool unchecked = (q.op == B_REF && ov != "at" && ov != "at.flip") || (q.op == B_READ && q.ov >= 3);
		if(unchecked) { if(N == 0) return; q.i %= static_cast<unsigned long long>(N); }
		if(q.op == B_REF) { if(N == 0) return; q.j %= static_cast<unsigned long long>(N); }
		q.self = obj(o); q.other = obj(p); q.third = obj(t);
		const int m = static_cast<int>(op.at(0) % 2);
		mod(m).apply(&q, &r);
		Json e; e.open('{');
		e.kv("op", op.name); e.kv("ov", ov); e.kv("m", m + 1); e.kv("o", o + 1); e.kv("p", p + 1); e.kv("t", t + 1); e.limbs("i", q.i); e.limbs("j", q.j); e.kv("b", q.b);
		e.kv("x", xname(r.x)); e.kv("rv", r.rv);
		if(q.op == B_IN) { e.list("text", op.v); e.kv("fail", r.fail); e.kv("left", r.left); e.kv("same", r.same); }
		if(q.op == B_OUT) { std::vector<int> v; for(std::size_t k = 0; k < r.nout; ++k) v.push_back(static_cast<unsigned char>(out[k])); e.list("text", v); e.kv("fail", r.fail); e.kv("same", r.same); }
		finish(e, o, p);
	}
	void run() {
		memset(arena, 0xC3, sizeof arena);
		seed_from(sc.id + sc.type);
		const int fill = static_cast<int>(rnd(3));
		for(int k = 0; k < NOBJ; ++k) {
			memset(obj(k), fill == 0 ? 0 : fill == 1 ? 0xFF : 0x5A, m0->size);
			BitReq q{}; BitRes r{}; char out[4]; r.out = out; q.op = B_INIT; q.self = q.other = q.third = obj(k);
			mod(k).apply(&q, &r);
		}
		Json e; e.open('{'); e.kv("op", "init"); e.kv("n", N); e.kv("size", static_cast<long>(m0->size)); e.kv("align", static_cast<long>(m0->align));
		finish(e, -1, -1, true);
		for(auto & o : sc.ops) op(o);
	}
};
}
int main(int argc, char ** argv) {
	for(auto n : {"mod_a.so", "mod_b.so"}) mods.push_back(reinterpret_cast<const BitMod *(*)(int)>(dlsym(load_module(argv[0], n), "bit_mod")));
	return main_loop(argc, argv, [](const Script & s) { Run{s}.run(); });
}
