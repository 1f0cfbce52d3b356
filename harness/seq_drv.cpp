// Driver for ptl::string and ptl::vector: executes scripts on three objects, each operation in a module
// of the script's choice, and records what every object looks like afterwards.
#include "core_impl.h"
#include "seq.h"
#include "layout.h"
#include <algorithm>
using namespace core;

namespace {
constexpr int NOBJ = 3;
const char * const types[]{"string", "vi", "vc", "ve", "vb", "vo", "vn"};
using get_t = const SeqMod *(*)(int);
std::vector<get_t> mods;

struct Ov { int ov; Shape shape; const char * name; };
using Ovs = std::vector<Ov>;
const std::map<std::string, std::pair<SeqOp, Ovs>> string_ops{
	{"create", {CREATE, {{0, NOARG, "default"}, {0, OBJ, "copy"}, {0, IT, "range"}, {0, IL, "il"}, {0, FILL, "fill"}, {0, SV, "sv"}, {0, LIT, "lit"}}}},
	{"mvcreate", {MVCREATE, {{0, OBJ, "move"}}}},
	{"assign", {ASSIGN, {{0, OBJ, "op=copy"}, {0, IT, "range"}, {0, FILL, "fill"}, {1, IL, "il"}, {0, IL, "op=il"}, {1, SV, "sv"}, {0, SV, "op=sv"}}}},
	{"mvassign", {MVASSIGN, {{0, OBJ, "op=move"}}}},
	{"append", {APPEND, {{0, IT, "range"}, {0, FILL, "fill"}, {1, IL, "il"}, {0, IL, "+=il"}, {1, SV, "sv"}, {0, SV, "+=sv"}, {0, OBJ, "+=obj"}, {1, CH, "+=ch"}, {0, CH, "push_back"}}}},
	{"insert", {INSERT, {{0, IT, "range"}, {0, FILL, "fill"}, {0, IL, "il"}, {0, CH, "ch"}, {0, SV, "sv"}}}},
	{"erase", {ERASE, {{0, NOARG, "range"}, {1, NOARG, "one"}}}},
	{"pop", {POP, {{0, NOARG, ""}}}}, {"clear", {CLEAR, {{0, NOARG, ""}}}},
	{"resize", {RESIZE, {{0, NOARG, ""}, {1, CH, "ch"}}}},
	{"reserve", {RESERVE, {{0, NOARG, ""}}}}, {"shrink", {SHRINK, {{0, NOARG, ""}}}},
	{"replace", {REPLACE, {{0, IT, "range"}, {0, FILL, "fill"}, {0, IL, "il"}, {0, SV, "sv"}}}},
	{"write", {WRITE, {{0, NOARG, "[]"}, {1, NOARG, "at"}, {2, NOARG, "front"}, {3, NOARG, "back"}, {4, NOARG, "data"}, {5, NOARG, "it"}, {6, NOARG, "rit"}, {7, NOARG, "end[]"}}}},
	{"concat", {CONCAT, {{0, OBJ, "s+s"}, {1, SV, "sv+s"}, {2, SV, "s+sv"}, {3, CH, "ch+s"}, {4, CH, "s+ch"}}}},
	{"substr", {SUBSTR, {{0, NOARG, "c1"}, {1, NOARG, "c2"}}}},
	{"mvsubstr", {SUBSTR, {{2, NOARG, "r1"}, {3, NOARG, "r2"}}}},
	{"swap", {SWAP, {{0, OBJ, "member"}, {1, OBJ, "friend"}, {2, OBJ, "adl"}}}},
	{"huge", {HUGE_OP, {{0, NOARG, "reserve"}, {1, NOARG, "resize"}, {2, NOARG, "resizev"}, {3, NOARG, "assign"}, {4, NOARG, "insert"}, {5, NOARG, "insertit"}, {6, NOARG, "assignit"}, {7, NOARG, "ctor"}, {8, NOARG, "ctorit"}, {9, NOARG, "append"}, {10, NOARG, "appendit"}, {11, NOARG, "replace"}, {12, NOARG, "replaceit"}}}},
	{"read", {READ, {{0, NOARG, "at"}, {1, NOARG, "cat"}, {2, NOARG, "[]"}, {3, NOARG, "c[]"}, {4, NOARG, "front"}, {5, NOARG, "cfront"}, {6, NOARG, "back"}, {7, NOARG, "cback"}}}},
};
const std::map<std::string, std::pair<SeqOp, Ovs>> vector_ops{
	{"create", {CREATE, {{0, NOARG, "default"}, {0, OBJ, "copy"}, {0, IT, "range"}, {0, IL, "il"}, {0, FILL, "fill"}, {0, DEFN, "count"}}}},
	{"mvcreate", {MVCREATE, {{0, OBJ, "move"}}}},
	{"assign", {ASSIGN, {{0, OBJ, "op=copy"}, {0, IT, "range"}, {0, FILL, "fill"}, {1, IL, "il"}, {0, IL, "op=il"}}}},
	{"mvassign", {MVASSIGN, {{0, OBJ, "op=move"}}}},
	{"append", {APPEND, {{0, ONE_L, "push_back"}, {0, ONE_R, "push_back&&"}, {0, EMPL, "emplace_back"}}}},
	{"insert", {INSERT, {{0, IT, "range"}, {0, FILL, "fill"}, {0, IL, "il"}, {0, ONE_L, "one"}, {0, ONE_R, "one&&"}, {0, EMPL, "emplace"}}}},
	{"erase", {ERASE, {{0, NOARG, "range"}, {1, NOARG, "one"}}}},
	{"pop", {POP, {{0, NOARG, ""}}}}, {"clear", {CLEAR, {{0, NOARG, ""}}}},
	{"resize", {RESIZE, {{0, NOARG, ""}, {1, ONE_L, "value"}}}},
	{"reserve", {RESERVE, {{0, NOARG, ""}}}}, {"shrink", {SHRINK, {{0, NOARG, ""}}}},
	{"write", {WRITE, {{0, NOARG, "[]"}, {1, NOARG, "at"}, {2, NOARG, "front"}, {3, NOARG, "back"}, {4, NOARG, "data"}, {5, NOARG, "it"}, {6, NOARG, "rit"}, {7, NOARG, "end[]"}}}},
	{"swap", {SWAP, {{0, OBJ, "member"}, {1, OBJ, "friend"}, {2, OBJ, "adl"}}}},
	{"huge", {HUGE_OP, {{0, NOARG, "reserve"}, {1, NOARG, "resize"}, {2, NOARG, "resizev"}, {3, NOARG, "assign"}, {4, NOARG, "insert"}, {5, NOARG, "insertit"}, {6, NOARG, "assignit"}, {7, NOARG, "ctor"}, {8, NOARG, "ctorit"}, {9, NOARG, "ctorn"}}}},
	{"read", {READ, {{0, NOARG, "at"}, {1, NOARG, "cat"}, {2, NOARG, "[]"}, {3, NOARG, "c[]"}, {4, NOARG, "front"}, {5, NOARG, "cfront"}, {6, NOARG, "back"}, {7, NOARG, "cback"}}}},
};

std::vector<int> lit_values(long k) {
	std::string s;
	switch(k % 6) {
		case 0: break;
		case 1: s = "a"; break;
		case 2: s.assign("ab\0cd", 5); break;
		case 3: s = "0123456789012345678901"; break;
		case 4: s = "01234567890123456789012"; break;
		default: s.assign("0123456789\0\xff" "012345678901234567890123456789", 42);
	}
	std::vector<int> r;
	for(char c : s) r.push_back(static_cast<unsigned char>(c));
	return r;
}

constexpr std::size_t cell = 256, canary = 64;
alignas(64) CORE_TL unsigned char arena[NOBJ][cell];
void * obj(int k) { return arena[k] + canary; }

struct ObjState { std::vector<int> c; long n = 0, cap = 0; int b = 0, inl = 0, nul = 0, cs = 1, al = 0, e = 1; std::vector<unsigned char> im; unsigned long long data = 0; };
bool operator==(const ObjState & x, const ObjState & y) { return x.c == y.c && x.n == y.n && x.cap == y.cap && x.b == y.b && x.inl == y.inl && x.nul == y.nul && x.cs == y.cs && x.al == y.al && x.e == y.e && x.im == y.im && x.data == y.data; }

struct Run {
	const Script & sc;
	int type = 0, flags = 0, nobj = NOBJ;
	ObjState st[NOBJ];
	const SeqMod * m0 = nullptr;
	std::vector<int> cbuf = std::vector<int>(1000000);
	explicit Run(const Script & s) : sc{s} {
		for(int t = 0; t < SEQ_TYPES; ++t) if(s.type == types[t]) type = t;
		flags = s.par.empty() ? 1 : static_cast<int>(s.par[0]);
		m0 = mods[0](type);
	}
	ObjState look(int k) {
		SeqObs ob{};
		ob.c = cbuf.data(); ob.cn = cbuf.size();
		const auto & m = mods[rnd(static_cast<unsigned>(mods.size()))](type);
		m->observe(obj(k), static_cast<int>(rnd(9)), &ob);
		ObjState r;
		if(ob.n <= ob.cn) { r.n = static_cast<long>(ob.n); r.c.assign(cbuf.begin(), cbuf.begin() + r.n); } else r.n = -1;
		r.e = ob.empty;
		if(flags & 1) {
			r.cap = ob.cap > 1000000000 ? -1 : static_cast<long>(ob.cap);
			const auto d = static_cast<const unsigned char *>(ob.data);
			r.b = block_id(d);
			r.inl = d >= static_cast<unsigned char *>(obj(k)) && d < static_cast<unsigned char *>(obj(k)) + m0->size;
			r.nul = ob.nul; r.cs = ob.cstr;
			r.al = static_cast<int>(reinterpret_cast<std::uintptr_t>(d) % m0->valign);
		}
		if(flags & 8) {
			r.im.assign(static_cast<unsigned char *>(obj(k)), static_cast<unsigned char *>(obj(k)) + m0->size);
			r.data = reinterpret_cast<std::uintptr_t>(ob.data);
		}
		return r;
	}
	void put_state(Json & j, int k, const ObjState & s) {
		j.open('{'); j.kv("o", k + 1); j.list("c", s.c); j.kv("n", s.n); j.kv("e", s.e);
		if(flags & 1) { j.kv("cap", s.cap); j.kv("b", s.b); j.kv("inl", s.inl); j.kv("nul", s.nul); j.kv("cs", s.cs); j.kv("al", s.al); }
		if(flags & 8) {
			// what a peer that knows only the layout sees: offset of the inline buffer, text or elements
			std::vector<int> fc; long off = -1;
			if(type == T_STRING) { const auto t = peer::read_string(obj(k)); if(t.size < 1000000) fc.assign(t.p, t.p + t.size); if(!t.heap) off = t.p - static_cast<unsigned char *>(obj(k)); }
			else { const auto p = peer::ptr<const unsigned char>(peer::word(obj(k), 8)); const auto n = peer::word(obj(k), 24); const std::string kd = kind(); if(n < 1000000) for(std::size_t x = 0; x < n; ++x) { int v = 0; memcpy(&v, p + x * stride(), kd == "char" ? 1 : 4); if(kd == "big") for(int w = 1; w < 6; ++w) if(memcmp(p + x * 24, p + x * 24 + 4 * w, 4)) v = -3; fc.push_back(v); } }
			j.list("fc", fc); j.kv("off", off);
		}
		if(flags & 8) { j.list("im", s.im); unsigned char a[8]; memcpy(a, &s.data, 8); j.list("da", a, a + 8); }
		j.close('}');
	}
	// common tail of an event: changed objects, memory and life events
	void finish(Json & j, int must, int must2, bool all = false) {
		if(flags & 2) put_mem(j); else mem.clear();
		if(flags & 4) put_life(j);
		for(int k = 0; k < NOBJ; ++k) {
			for(std::size_t x = 0; x < cell; ++x) if(x < canary || x >= canary + m0->size) if(arena[k][x] != 0xC3) { ++guard_errs; arena[k][x] = 0xC3; }
		}
		put_guard(j);
		j.key("d"); j.open('[');
		for(int k = 0; k < nobj; ++k) {
			auto s = look(k);
			if(all || k == must || k == must2 || !(s == st[k])) put_state(j, k, s);
			st[k] = s;
		}
		j.close(']'); j.first = false;
		if(flags & 4) { // element slots as [block, first, count, stride]
			j.key("els"); j.open('[');
			for(int k = 0; k < nobj; ++k) if(st[k].n > 0) {
				SeqObs ob{}; m0->observe(obj(k), 0, &ob);
				int b, s0; slot_of(ob.data, b, s0);
				j.open('['); j.num(b); j.num(s0); j.num(st[k].n); j.num(static_cast<long>(m0->vsize)); j.close(']');
			}
			j.close(']'); j.first = false;
		}
		j.close('}');
		event(j);
	}
	long res_pos(long v, long size) { if(v == -1) return size; if(v == -2) return size ? size - 1 : 0; if(v == -3) return size / 2; return v % (size + 1); }
	long res_n(long v, int o, long span, long nv) {
		const long cap = static_cast<long>(caps(o)), size = st[o].n < 0 ? 0 : st[o].n, room = cap - size;
		long r;
		switch(v) {
			case -1: r = room; break; case -2: r = room + 1; break; case -3: r = room - 1; break; case -4: r = size; break;
			case -5: r = size + 1; break; case -6: r = cap; break; case -7: r = cap + 1; break; case -8: r = size - 1; break;
			case -9: r = 2 * cap; break; case -10: r = room / 2; break; case -11: r = span; break; case -12: r = nv; break;
			case -13: r = cap - 1; break; case -14: r = size / 2; break;
			default: r = v;
		}
		return r < 0 ? 0 : std::min(r, 100000L);
	}
	std::size_t caps(int o) { SeqObs ob{}; m0->observe(obj(o), 0, &ob); return ob.cap > 100000 ? 100000 : ob.cap; }

	std::string kind() const { return type == T_VC ? "char" : type == T_VB ? "big" : "int"; }
	std::size_t stride() const { return type == T_VC ? 1 : type == T_VB ? 24 : type == T_VO ? 64 : 4; }
	// the object is destroyed and written anew by code that knows only the layout: ov 0 inline if possible, 1 in a buffer of its own
	void foreign(const Op & op) {
		const int o = static_cast<int>(op.at(2) % nobj); const bool heap = op.at(1) & 1;
		if(type == T_VE) return;
		long n = op.at(6) < 0 ? static_cast<long>(op.v.size()) : op.at(6) % 70;
		if(op.v.empty()) n = 0;
		std::vector<int> xs; for(long k = 0; k < n; ++k) xs.push_back(op.v[static_cast<std::size_t>(k) % op.v.size()]);
		peer::destroy(obj(o));
		memset(obj(o), 0x77, m0->size);
		if(type == T_STRING) { std::vector<unsigned char> s(xs.begin(), xs.end()); peer::write_string(obj(o), s.data(), s.size(), heap, static_cast<std::size_t>(op.at(4) < 0 ? 0 : op.at(4) % 40)); }
		else { std::vector<unsigned char> b(xs.size() * stride() + 1, 0x66); for(std::size_t k = 0; k < xs.size(); ++k) peer::write_value(b.data() + k * stride(), kind(), xs[k]); peer::write_vector(obj(o), b.data(), xs.size(), stride(), stride() == 64 ? 64 : 16, static_cast<std::size_t>(op.at(4) < 0 ? 0 : op.at(4) % 20)); }
		Json e; e.open('{');
		e.kv("op", "foreign"); e.kv("ov", heap ? "heap" : "inline"); e.kv("m", 3); e.kv("o", o + 1); e.kv("p", o + 1); e.kv("i", 0); e.kv("j", 0); e.kv("n", n); e.list("xs", xs); e.kv("rep", 1); e.kv("sp", 0); e.kv("si", 0); e.kv("sj", 0); e.kv("sr", 0); e.kv("v", 0); e.kv("it", 0);
		e.kv("x", ""); e.kv("rv", -7); e.kv("fk", 0); e.kv("ff", 0);
		finish(e, o, -1);
	}
	void op(const Op & op) {
		if(op.name == "foreign") return foreign(op);
		const auto & table = type == T_STRING ? string_ops : vector_ops;
		const auto it = table.find(op.name);
		if(it == table.end()) return;
		const auto kind = it->second.first;
		const auto & ovs = it->second.second;
		const auto & ov = ovs[static_cast<std::size_t>(op.at(1)) % ovs.size()];
		const int mi = static_cast<int>(op.at(0) % static_cast<long>(mods.size()));
		const int o = static_cast<int>(op.at(2) % nobj);
		int p = static_cast<int>(op.at(3) % nobj);
		const long size = st[o].n, psize = st[p].n;
		if(size < 0 || psize < 0) return;
		SeqReq q{};
		q.op = kind; q.ov = ov.ov; q.shape = ov.shape; q.self = obj(o); q.other = obj(p);
		long i = res_pos(op.at(4), size);
		long j = op.at(5) < 0 ? size : i + op.at(5) % (size - i + 1);
		long n = 0;
		std::vector<int> vals = op.v.empty() ? std::vector<int>{65} : op.v, xs;
		int s = static_cast<int>(op.at(7, -1));
		long si = 0, sj = 0; int sr = 0;
		q.it = static_cast<int>(op.at(11));
		if(kind == MVCREATE || kind == SUBSTR || kind == CONCAT || (kind == CREATE && ov.shape == OBJ)) if(p == o) { p = (o + 1) % nobj; q.other = obj(p); }
		switch(kind) {
			case POP: if(size == 0) return; break;
			case ERASE: if(ov.ov == 1) { if(size == 0) return; i %= size; j = i + 1; } break;
			case WRITE:
				if(size == 0) return;
				i %= size; if(ov.ov == 2) i = 0; if(ov.ov == 3) i = size - 1;
				break;
			case SUBSTR: {
				const long ps = st[p].n;
				i = res_pos(op.at(4), ps); j = op.at(5) < 0 ? ps : i + op.at(5) % (ps - i + 1);
				if(ov.ov == 0 || ov.ov == 2) j = ps;
				break;
			}
			case READ:
				if(ov.ov >= 2 && size == 0) return;
				break;
			default: break;
		}
		if(s >= 0) s %= nobj;
		if(kind == CREATE && s == o) s = -1;
		const bool element = ov.shape == CH || ov.shape == ONE_L || ov.shape == FILL || (ov.shape == EMPL);
		const bool slice = ov.shape == IT || ov.shape == SV;
		if(kind == CONCAT && ov.shape != OBJ) s = -1;
		if(s >= 0 && st[s].n < 0) return;
		if(s >= 0 && !(element || slice)) s = -1;
		if(s >= 0 && element && st[s].n == 0) s = -1;
		n = res_n(op.at(6, -12), o, j - i, static_cast<long>(vals.size()));
		if(kind == HUGE_OP) {
			const unsigned long long max = max_size();
			const unsigned long long base[]{0ull, ~0ull, max, 1ull << 63, 1ull << 62, ~0ull - static_cast<unsigned long long>(size), max - static_cast<unsigned long long>(size), 1ull << 60, ~0ull / 4, ~0ull / 24, ~0ull / 64, max / 2, ~0ull - caps(o)};
			q.n = base[static_cast<std::size_t>(op.at(8)) % 13] + static_cast<unsigned long long>(op.at(9));
			if(q.n < (1ull << 28)) return;  // never ask for amounts that could really be delivered
			const bool uses_it = !strcmp(ov.name + strlen(ov.name) - 2, "it");
			if(uses_it && q.n >= (1ull << 63)) return;  // not a valid distance
			q.v = vals[0];
		}
		if(kind == READ) {
			if(ov.ov < 2) {
				const unsigned long long idx[]{static_cast<unsigned long long>(i), static_cast<unsigned long long>(size), static_cast<unsigned long long>(size) + 1, ~0ull, 1ull << 63, (1ull << 32), (1ull << 32) + static_cast<unsigned long long>(size ? size - 1 : 0), ~0ull - static_cast<unsigned long long>(size), caps(o), caps(o) - 1, static_cast<unsigned long long>(size) - 1};
				q.n = idx[static_cast<std::size_t>(op.at(8)) % 11];
			} else if(ov.ov < 4) q.n = static_cast<unsigned long long>(i % size);
			else q.n = ov.ov < 6 ? 0 : static_cast<unsigned long long>(size - 1);
		}
		switch(ov.shape) {
			case NOARG: case OBJ: break;
			case DEFN: break;
			case LIT: xs = lit_values(n); q.n = static_cast<std::size_t>(n % 6); break;
			default:
				if(s >= 0) {
					const long ss = st[s].n;
					si = res_pos(op.at(8), ss); sj = op.at(9) < 0 ? ss : si + op.at(9) % (ss - si + 1);
					sr = ov.shape == IT ? static_cast<int>(op.at(10) & 1) : 0;
					if(element) { si %= ss; sj = si + 1; }
					q.src = obj(s);
				} else {
					long k = n;
					if(ov.shape == IL) k = std::min(k, 6L);
					if(element && ov.shape != FILL) k = 1;
					if(ov.shape == ONE_R) k = 1;
					if(ov.shape == FILL) xs.assign(static_cast<std::size_t>(std::max(k, 1L)), vals[0]); // the driver's copy; only the first is used as value
					else for(long x = 0; x < k; ++x) xs.push_back(vals[static_cast<std::size_t>(x) % vals.size()]);
				}
		}
		if(kind != HUGE_OP && kind != READ && ov.shape != LIT) q.n = static_cast<std::size_t>(n);
		if(kind == CONCAT && ov.shape == OBJ) { s = static_cast<int>(op.at(8) % nobj); if(s == o) s = p; q.src = obj(s); si = 0; sj = st[s].n; }
		q.i = static_cast<std::size_t>(i); q.j = static_cast<std::size_t>(j);
		q.xs = xs.data(); q.nx = xs.size(); q.si = static_cast<std::size_t>(si); q.sj = static_cast<std::size_t>(sj); q.sr = sr;
		if(kind == WRITE) q.v = vals[0];
		// what the specification is told about the argument
		std::vector<int> lx = xs;
		int sp = s;
		if(ov.shape == OBJ && kind != CONCAT) { sp = p; si = 0; sj = st[p].n; }
		if(ov.shape == FILL) { if(s < 0) lx.assign(1, vals[0]); }
		if(ov.shape == IT && s < 0 && q.it % 9 == 7) std::reverse(lx.begin(), lx.end());
		if(kind == RESIZE && ov.shape == NOARG) lx.assign(1, 0);
		long rep = ov.shape == FILL ? n : 1;
		if(ov.shape == DEFN) { lx.assign(1, 0); rep = n; }
		const int fk = static_cast<int>(op.at(12));
		for(int k = 1; k <= 200; ++k) {
			SeqRes r{};
			arm(fk, k);
			mods[static_cast<std::size_t>(mi)](type)->apply(&q, &r);
			const int fired = fault_fired;
			arm(0, 0);
			Json e;
			e.open('{');
			e.kv("op", op.name); e.kv("ov", ov.name); e.kv("m", mi + 1); e.kv("o", o + 1); e.kv("p", p + 1); e.kv("i", i); e.kv("j", j);
			if(kind == HUGE_OP || kind == READ) e.limbs("big", q.n);
			if(kind == HUGE_OP) { e.limbs("max", max_size()); }
			e.kv("n", kind == HUGE_OP || kind == READ ? 0 : n);
			e.list("xs", lx); e.kv("rep", rep); e.kv("sp", sp < 0 ? 0 : sp + 1); e.kv("si", si); e.kv("sj", sj); e.kv("sr", sr); e.kv("v", q.v); e.kv("it", q.it);
			e.kv("x", xname(r.x)); e.kv("rv", r.rv); e.kv("fk", fk); e.kv("ff", fired);
			finish(e, o, kind == MVCREATE || kind == MVASSIGN || kind == SWAP || !strcmp(op.name.c_str(), "mvsubstr") ? p : -1);
			if(!fk || fk == F_ALLALLOC || !fired || r.x == X_NONE) break;
		}
	}
	unsigned long long max_size() { SeqObs ob{}; m0->observe(obj(0), 0, &ob); return ob.max; }

	// append k elements one at a time, recording how often the buffer changed
	void grow(const Op & op) {
		const int o = static_cast<int>(op.at(2) % nobj), mi = static_cast<int>(op.at(0) % static_cast<long>(mods.size()));
		const long k = op.at(6);
		const int v = op.v.empty() ? 1 : op.v[0];
		SeqReq q{};
		const int xs[1]{v};
		q.self = obj(o); q.xs = xs; q.nx = 1;
		q.other = obj(o);
		long moves = 0; int xx = 0;
		const void * last = nullptr;
		const int how = static_cast<int>(op.at(1) % 3);
		for(long x = 0; x < k && !xx; ++x) {
			SeqRes r{};
			SeqObs ob{};
			m0->observe(obj(o), 0, &ob);
			last = ob.data;
			q.op = APPEND; q.shape = type == T_STRING ? CH : how == 0 ? ONE_L : how == 1 ? ONE_R : EMPL;
			if(type != T_STRING && how == 2) { q.op = INSERT; q.shape = ONE_L; q.i = ob.n; }
			mods[static_cast<std::size_t>(mi)](type)->apply(&q, &r);
			m0->observe(obj(o), 0, &ob);
			if(ob.data != last) ++moves;
			xx = r.x;
			heap_trim();
		}
		Json e;
		e.open('{'); e.kv("op", "grow"); e.kv("ov", type == T_STRING ? "push" : how == 0 ? "push_back" : how == 1 ? "push_back&&" : "insert"); e.kv("m", mi + 1); e.kv("o", o + 1); e.kv("n", k); e.kv("v", v); e.kv("moves", moves); e.kv("x", xname(xx));
		finish(e, o, -1);
	}
	// long growth runs would otherwise keep every dead buffer
	void heap_trim() {
		for(auto & b : blocks) if(!b.live && b.base && b.n > 4096) { check_guards(b); by_addr.erase(b.user); ::free(b.base); b.base = b.user = nullptr; b.n = 0; b.total = 0; }
	}

	void run() {
		memset(arena, 0xC3, sizeof arena);
		seed_from(sc.id + sc.type);
		life_on = flags & 4;
		const int fill = static_cast<int>(rnd(3));
		for(int k = 0; k < NOBJ; ++k) {
			memset(obj(k), fill == 0 ? 0 : fill == 1 ? 0xFF : 0x5A, m0->size);
			SeqReq q{}; SeqRes r{};
			q.op = CREATE; q.shape = NOARG; q.self = q.other = obj(k);
			// the first "create" destroys an object: build one by moving from a zeroed image is not possible, so construct twice
			construct(k, q, r);
		}
		Json e;
		e.open('{'); e.kv("op", "init"); e.kv("size", static_cast<long>(m0->size)); e.kv("align", static_cast<long>(m0->align));
		finish(e, -1, -1, true);
		for(auto & o : sc.ops) { if(o.name == "grow") grow(o); else op(o); }
		nobj = 0;
		for(int k = 0; k < NOBJ; ++k) {
			SeqReq q{}; SeqRes r{};
			q.op = DESTROY; q.self = q.other = obj(k);
			mods[rnd(static_cast<unsigned>(mods.size()))](type)->apply(&q, &r);
		}
		Json f;
		f.open('{'); f.kv("op", "end");
		finish(f, -1, -1);
	}
	void construct(int k, SeqReq & q, SeqRes & r) {
		q.op = INIT_OP; mods[static_cast<std::size_t>(k) % mods.size()](type)->apply(&q, &r);
	}
	static constexpr int INIT_OP = SEQ_OPS;
};
}
int main(int argc, char ** argv) {
	for(auto n : {"mod_a.so", "mod_b.so"}) mods.push_back(reinterpret_cast<get_t>(dlsym(load_module(argv[0], n), "seq_mod")));
	return main_loop(argc, argv, [](const Script & s) { Run{s}.run(); });
}
