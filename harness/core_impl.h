// The core: heap observer, element life log, fault injection, script parser, JSON trace writer and the
// forked worker loop.  Included by exactly one translation unit per driver.
#pragma once
#include "core.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <dlfcn.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifdef CORE_THREADS // every thread runs scripts of its own, and has a core of its own
#	define CORE_TL thread_local
#	include <thread>
#else
#	define CORE_TL
#endif
#include "hidden.h"

namespace core {
// ---------------------------------------------------------------- heap observer
struct Block { int id, mod, kind; size_t n; unsigned char *base, *user; size_t total; bool live; };
struct MemEv { int code, id, mod, kind; };                       // code: 0 alloc 1 free 2 bad free 3 failed alloc
struct LifeEv { int code, b, s, b2, s2; };                       // life codes, 20 alloc, 21 free of block b
inline CORE_TL std::vector<Block> blocks;
inline CORE_TL std::unordered_map<const void *, int> by_addr;            // user address -> index of youngest block
inline CORE_TL std::vector<MemEv> mem;
inline CORE_TL std::vector<LifeEv> life;
inline CORE_TL std::unordered_map<const void *, int> slots;              // life slots outside of blocks
inline CORE_TL int window = 0, guard_errs = 0;
inline CORE_TL bool life_on = false;
inline CORE_TL int fault_kind = 0, fault_n = 0, fault_fired = 0;
inline const size_t max_block = size_t{64} << 20;
inline std::unordered_map<void *, void *> passthrough;           // aligned passthrough blocks (user -> base)

inline const Block *find_block(const void *p) {
	auto a = static_cast<const unsigned char *>(p);
	if(!a) return nullptr;
	for(size_t k = blocks.size(); k-- > 0;) if(auto & b = blocks[k]; b.base && a >= b.user && a < b.user + (b.n ? b.n : 1)) return &b;
	return nullptr;
}
inline int block_id(const void *p) { auto b = find_block(p); return b ? b->id : 0; }
inline void check_guards(Block & b) {
	auto bad = [&](const unsigned char * f, const unsigned char * l, unsigned char v) { for(; f != l; ++f) if(*f != v) return true; return false; };
	if(b.base && (bad(b.base, b.user, 0xC3) || bad(b.user + b.n, b.base + b.total, 0xC3))) ++guard_errs;
	if(!b.live && bad(b.user, b.user + b.n, 0xDD)) { ++guard_errs; memset(b.user, 0xDD, b.n); }
}
inline void heap_check() { for(auto & b : blocks) check_guards(b); }
inline void heap_reset() {
	for(auto & b : blocks) ::free(b.base);
	blocks.clear(); by_addr.clear(); mem.clear(); life.clear(); slots.clear();
	guard_errs = 0; fault_kind = 0; window = 0;
}
inline void slot_of(const void * p, int & b, int & s) {
	if(!p) { b = -1; s = 0; return; }
	if(auto k = find_block(p)) { b = k->id; s = static_cast<int>(static_cast<const unsigned char *>(p) - k->user); return; }
	b = 0; s = slots.emplace(p, static_cast<int>(slots.size()) + 1).first->second;
}
inline void arm(int kind, int n) { fault_kind = kind; fault_n = n; fault_fired = 0; }
inline bool fires(int kind) {
	if(!window || !fault_kind) return false;
	if(fault_kind == F_ALLALLOC) { if(kind == F_ALLOC) { fault_fired = 1; return true; } return false; }
	if(fault_kind != kind) return false;
	if(--fault_n == 0) { fault_fired = 1; return true; }
	return false;
}
// ---------------------------------------------------------------- scripts
struct Op { std::string name; std::vector<long> a; std::vector<int> v; long at(size_t i, long d = 0) const { return i < a.size() ? a[i] : d; } };
struct Script { std::string id, type; std::vector<long> par; std::vector<Op> ops; };
inline std::vector<Script> load(const char * file) {
	std::vector<Script> r;
	std::ifstream f(file);
	for(std::string line; std::getline(f, line);) {
		if(line.empty() || line[0] == '#') continue;
		std::istringstream is(line);
		std::string w; is >> w;
		if(w == "S") { Script s; is >> s.id >> s.type; for(long x; is >> x;) s.par.push_back(x); r.push_back(s); continue; }
		Op o; o.name = w;
		bool vals = false;
		while(is >> w) { if(w == "|") vals = true; else if(vals) o.v.push_back(atoi(w.c_str())); else o.a.push_back(atol(w.c_str())); }
		r.back().ops.push_back(o);
	}
	return r;
}
// ---------------------------------------------------------------- JSON
struct Json {
	std::string s;
	bool first = true;
	void sep() { if(!first) s += ','; first = false; }
	void key(const char * k) { sep(); s += '"'; s += k; s += "\":"; first = true; }
	void raw(const std::string & x) { sep(); s += x; first = false; }
	void num(long v) { sep(); char b[24]; snprintf(b, sizeof b, "%ld", v); s += b; }
	void str(const std::string & v) { sep(); s += '"'; for(char c : v) { if(c == '"' || c == '\\') s += '\\'; s += c; } s += '"'; }
	void open(char c) { sep(); s += c; first = true; }
	void close(char c) { s += c; first = false; }
	void kv(const char * k, long v) { key(k); num(v); first = false; }
	void kv(const char * k, const std::string & v) { key(k); str(v); first = false; }
	template<class It> void list(const char * k, It f, It l) { key(k); open('['); for(; f != l; ++f) num(static_cast<long>(*f)); close(']'); first = false; }
	template<class C> void list_str(const char * k, const C & c) { key(k); open('['); for(auto & x : c) str(x); close(']'); first = false; }
	template<class C> void list(const char * k, const C & c) { list(k, c.begin(), c.end()); }
	// unsigned 64 bit value as four 16 bit limbs, least significant first
	void limbs(const char * k, unsigned long long v) { unsigned l[4]; for(int i = 0; i < 4; ++i) l[i] = (v >> (16 * i)) & 0xFFFF; list(k, l, l + 4); }
};
inline const char * xname(int x) { static const char * n[]{"", "length", "alloc", "range", "user", "badopt", "badvar", "other"}; return n[x]; }

// ---------------------------------------------------------------- trace writer (shared memory)
struct Shm { std::atomic<long> committed, script, nev, done; };
inline CORE_TL Shm * shm;
inline CORE_TL char * shm_buf;
#ifdef CORE_THREADS
inline const size_t shm_size = size_t{1} << 28;
inline CORE_TL bool raced = false;                               // the race detector reported something in this thread
#else
inline const size_t shm_size = size_t{1} << 30;
#endif
// bytes of memory a driver may really use; 0: any
inline long rss_limit = 0;
inline long resident(int pid) {
	char b[40]; snprintf(b, sizeof b, "/proc/%d/statm", pid);
	FILE * f = fopen(b, "r"); long all = 0, res = 0;
	if(f) { if(fscanf(f, "%ld %ld", &all, &res) != 2) res = 0; fclose(f); }
	return res * 4096;
}
inline void emit(const std::string & s) {
	long c = shm->committed;
	if(c + static_cast<long>(s.size()) > static_cast<long>(shm_size)) _exit(77);
	memcpy(shm_buf + c, s.data(), s.size());
	shm->committed = c + static_cast<long>(s.size());
}
inline void event(const Json & j) {
	emit((shm->nev ? "," : "") + j.s); ++shm->nev;
#ifdef CORE_THREADS
	if(raced) { raced = false; emit(",{\"op\":\"crash\",\"race\":1}"); }
#else
	const auto h = hidden::changed();
	if(!h.empty()) emit(",{\"op\":\"crash\",\"hidden\":\"" + h + "\"}");
#endif
}

// mem events of the last operation, in order; cleared afterwards
inline void put_mem(Json & j) {
	j.key("mem"); j.open('[');
	for(auto & m : mem) { j.open('['); j.num(m.code); j.num(m.id); j.num(m.mod); j.num(m.kind); j.close(']'); }
	j.close(']'); j.first = false;
	mem.clear();
}
inline void put_life(Json & j) {
	j.key("u"); j.open('[');
	for(auto & m : life) { j.open('['); j.num(m.code); j.num(m.b); j.num(m.s); j.num(m.b2); j.num(m.s2); j.close(']'); }
	j.close(']'); j.first = false;
	life.clear();
}
inline void put_guard(Json & j) { heap_check(); j.kv("g", guard_errs); guard_errs = 0; }

#ifdef CORE_THREADS
// batches of scripts, each run by several threads in a forked child; every thread has a trace of its own
template<class Run>
int main_loop(int argc, char ** argv, Run run) {
	if(argc < 3) { fprintf(stderr, "usage: %s SCRIPTS OUT\n", argv[0]); return 2; }
	constexpr int T = 4;
	auto scripts = load(argv[1]);
	FILE * out = fopen(argv[2], "w");
	if(!out) { perror(argv[2]); return 2; }
	Shm * regions[T]; char * bufs[T];
	for(int t = 0; t < T; ++t) {
		auto m = mmap(nullptr, sizeof(Shm) + shm_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(m == MAP_FAILED) { perror("mmap"); return 2; }
		regions[t] = new(m) Shm{}; bufs[t] = static_cast<char *>(m) + sizeof(Shm);
	}
	const long n = static_cast<long>(scripts.size()), batch = 400;
	long crashes = 0;
	for(long base = 0; base < n && crashes < 6; base += batch) {
		const long top = std::min(n, base + batch);
		for(auto r : regions) { r->committed = 0; r->done = 1; r->script = 0; r->nev = 0; }
		fflush(out);
		const auto pid = fork();
		if(pid < 0) { perror("fork"); return 2; }
		if(!pid) {
			std::atomic<int> ready{0};
			auto work = [&](int t) {
				shm = regions[t]; shm_buf = bufs[t];
				ready.fetch_add(1, std::memory_order_relaxed);
				while(ready.load(std::memory_order_relaxed) < T) ;
				for(long k = base + t; k < top || k == base + t; k += T) {
					const Script & s = scripts[k < top ? k : base + t % (top - base)]; // too few scripts: several threads run the same one
					shm->nev = 0;
					Json j; j.open('{'); j.kv("id", s.id); j.kv("ty", s.type); j.list("par", s.par); j.key("ev"); j.open('[');
					shm->done = 0; emit(j.s); run(s); emit("]}\n"); shm->done = 1;
					heap_reset();
				}
			};
			{ std::vector<std::thread> ts; for(int t = 0; t < T; ++t) ts.emplace_back(work, t); for(auto & t : ts) t.join(); }
			_exit(0);
		}
		int st = 0; long last = -1; int idle = 0; bool hung = false;
		for(;;) {
			const auto r = waitpid(pid, &st, WNOHANG);
			if(r == pid) break;
			usleep(2000);
			long now = 0; for(auto r1 : regions) now += r1->committed;
			if(now != last) { last = now; idle = 0; } else if(++idle > 10000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
		}
		const bool bad = hung || !WIFEXITED(st) || WEXITSTATUS(st) != 0;
		if(WIFEXITED(st) && WEXITSTATUS(st) == 77) { fprintf(stderr, "trace buffer exhausted\n"); return 2; }
		for(int t = 0; t < T; ++t) {
			fwrite(bufs[t], 1, static_cast<size_t>(regions[t]->committed.load()), out);
			if(bad && !regions[t]->done) fprintf(out, "%s{\"op\":\"crash\",\"sig\":%d,\"hang\":%d}]}\n", regions[t]->nev ? "," : "", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st) + 1000, hung);
		}
		if(bad) crashes += hung ? 3 : 1;
	}
	fclose(out);
	return 0;
}
#else
template<class Run>
int main_loop(int argc, char ** argv, Run run) {
	if(argc < 3) { fprintf(stderr, "usage: %s SCRIPTS OUT\n", argv[0]); return 2; }
	signal(SIGPIPE, SIG_IGN);
	auto scripts = load(argv[1]);
	FILE * out = fopen(argv[2], "w");
	if(!out) { perror(argv[2]); return 2; }
	auto m = mmap(nullptr, sizeof(Shm) + shm_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(m == MAP_FAILED) { perror("mmap"); return 2; }
	shm = new(m) Shm{};
	shm_buf = static_cast<char *>(m) + sizeof(Shm);
	long next = 0, crashes = 0;
	const long n = static_cast<long>(scripts.size());
	while(next < n) {
		shm->committed = 0; shm->done = 0; shm->script = next; shm->nev = 0;
		fflush(out);
		const auto pid = fork();
		if(pid < 0) { perror("fork"); return 2; }
		if(!pid) {
			for(long k = next; k < n; ++k) {
				shm->nev = 0; shm->script = k;
				Json j; j.open('{'); j.kv("id", scripts[k].id); j.kv("ty", scripts[k].type); j.list("par", scripts[k].par); j.key("ev"); j.open('[');
				shm->done = 0;
				emit(j.s);
				run(scripts[k]);
				emit("]}\n");
				shm->done = 1;
				heap_reset();
				if(shm->committed > static_cast<long>(shm_size / 2)) { shm->script = k + 1; fflush(nullptr); _exit(0); }
			}
			shm->script = n;
			_exit(0);
		}
		int st = 0; long last = -1; int idle = 0; bool hung = false;
		for(;;) {
			const auto r = waitpid(pid, &st, WNOHANG);
			if(r == pid) break;
			usleep(2000);
			const long now = shm->committed + shm->script;
			if(rss_limit && resident(pid) > rss_limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; } // runs away with the memory
			if(now != last) { last = now; idle = 0; } else if(++idle > 6000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
		}
		fwrite(shm_buf, 1, static_cast<size_t>(shm->committed.load()), out);
		if(!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) { next = shm->script; continue; }
		if(WIFEXITED(st) && WEXITSTATUS(st) == 77) { fprintf(stderr, "trace buffer exhausted\n"); return 2; }
		if(!shm->done) {
			fprintf(out, "%s{\"op\":\"crash\",\"sig\":%d,\"hang\":%d}]}\n", shm->nev ? "," : "", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st) + 1000, hung);
		}
		next = shm->script + 1;
		crashes += hung ? 6 : 1;
		if(crashes >= 12) { fprintf(stderr, "too many crashes, stopping\n"); break; }
	}
	fclose(out);
	return 0;
}
#endif
inline void * load_module(const char * argv0, const std::string & name) {
	std::string dir = argv0;
	dir = dir.substr(0, dir.rfind('/') + 1);
	auto h = dlopen((dir + name).c_str(), RTLD_NOW | RTLD_LOCAL);
	if(!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
	return h;
}
inline CORE_TL unsigned long long rng_state = 1;
inline unsigned rnd(unsigned n) { rng_state = rng_state * 6364136223846793005ull + 1442695040888963407ull; return static_cast<unsigned>(rng_state >> 33) % n; }
inline void seed_from(const std::string & id) { unsigned long long h = 1469598103934665603ull; for(char c : id) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull; rng_state = h; }
}

extern "C" {
#ifdef CORE_THREADS
__attribute__((visibility("default"), used)) inline void __tsan_on_report(void *) { core::raced = true; }
const char * __tsan_default_options();
__attribute__((visibility("default"), used)) inline const char * __tsan_default_options() { return "exitcode=0:report_signal_unsafe=0:history_size=4:detect_deadlocks=0:allocator_may_return_null=1"; }
#endif
const char * __asan_default_options(); const char * __ubsan_default_options();
__attribute__((visibility("default"))) inline const char * __asan_default_options() { return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1"; }
__attribute__((visibility("default"))) inline const char * __ubsan_default_options() { return "halt_on_error=1:abort_on_error=1"; }
__attribute__((visibility("default"))) void *core_alloc(int mod, int kind, size_t n, size_t align, int zero) {
	using namespace core;
	if(!window) {
		void *p = nullptr;
		if(n > max_block) return nullptr;
		if(posix_memalign(&p, align < 16 ? 16 : align, n ? n : 1)) return nullptr;
		if(zero) memset(p, 0, n);
		return p;
	}
	if(fires(F_ALLOC) || n > max_block) { mem.push_back({3, 0, mod, kind}); return nullptr; }
	const size_t front = align <= 16 ? 48 : (align < 64 ? 64 : align), total = front + n + 64;
	void *base = nullptr;
	if(posix_memalign(&base, align < 64 ? 64 : align, total)) return nullptr;
	auto b = static_cast<unsigned char *>(base);
	memset(b, 0xC3, total);
	memset(b + front, zero ? 0 : 0xA5, n);
	const int id = static_cast<int>(blocks.size()) + 1;
	blocks.push_back({id, mod, kind, n, b, b + front, total, true});
	by_addr[b + front] = id - 1;
	mem.push_back({0, id, mod, kind});
	if(life_on) life.push_back({20, id, 0, 0, 0});
	return b + front;
}
__attribute__((visibility("default"))) void core_free(int mod, int kind, void *p) {
	using namespace core;
	if(!p) return;
	auto it = by_addr.find(p);
	if(it == by_addr.end()) {
		if(!window && !find_block(p)) { ::free(p); return; }
		mem.push_back({2, block_id(p), mod, kind});
		return;
	}
	auto & b = blocks[static_cast<size_t>(it->second)];
	if(!b.live) { mem.push_back({2, b.id, mod, kind}); return; }
	check_guards(b);
	memset(b.user, 0xDD, b.n);
	b.live = false;
	mem.push_back({1, b.id, mod, kind});
	if(life_on) life.push_back({21, b.id, 0, 0, 0});
}
__attribute__((visibility("default"))) void core_life(int code, const void *self, const void *src) {
	using namespace core;
	if(!life_on) return;
	LifeEv e{code, 0, 0, 0, 0};
	slot_of(self, e.b, e.s); slot_of(src, e.b2, e.s2);
	life.push_back(e);
}
__attribute__((visibility("default"))) int core_fault(int kind) { return core::fires(kind); }
__attribute__((visibility("default"))) void core_window(int on) { core::window = on; }
__attribute__((visibility("default"))) int core_in_window() { return core::window; }
}
