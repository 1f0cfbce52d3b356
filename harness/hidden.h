// Watches every variable that the library's headers define: whatever lives in namespace ptl (function-local
// statics, inline and static variables, thread-locals) in a writable section of the executable or a module.
// A library without hidden state has none that changes.  One change per variable is its initialisation.
#pragma once
#include <cstdlib>
#include <cstring>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
namespace hidden {
struct Var { std::string name; const unsigned char * p; std::size_t n; int module; std::size_t tls; std::vector<unsigned char> last; int changes; };
inline std::vector<Var> vars;
inline bool on = false, ready = false;
inline bool of_library(const char * s) {
	if(strncmp(s, "_Z", 2)) return false;
	s += 2;
	if(!strncmp(s, "GV", 2)) s += 2;
	while(*s == 'Z' || *s == 'N' || *s == 'K' || *s == 'L') ++s;
	return !strncmp(s, "3ptl", 4) || (!strncmp(s, "St4hashI", 8) && strstr(s, "3ptl")) || (!strncmp(s, "St", 2) && strstr(s, "tuple_") && strstr(s, "3ptl"));
}
inline int scan(dl_phdr_info * i, std::size_t, void *) {
	static int n; const int module = n++;
	const char * file = *i->dlpi_name ? i->dlpi_name : module ? nullptr : "/proc/self/exe";
	if(!file || strstr(file, "/lib/") || strstr(file, "linux-vdso")) return 0;
	const int fd = open(file, O_RDONLY); if(fd < 0) return 0;
	struct stat st; fstat(fd, &st);
	auto m = static_cast<const char *>(mmap(nullptr, static_cast<std::size_t>(st.st_size), PROT_READ, MAP_PRIVATE, fd, 0));
	close(fd);
	if(m == MAP_FAILED) return 0;
	const auto eh = reinterpret_cast<const ElfW(Ehdr) *>(m);
	const auto sh = reinterpret_cast<const ElfW(Shdr) *>(m + eh->e_shoff);
	for(int k = 0; k < eh->e_shnum; ++k) if(sh[k].sh_type == SHT_SYMTAB) {
		const auto sy = reinterpret_cast<const ElfW(Sym) *>(m + sh[k].sh_offset);
		const auto str = m + sh[sh[k].sh_link].sh_offset;
		for(std::size_t x = 0; x < sh[k].sh_size / sizeof *sy; ++x) {
			const auto ty = ELF64_ST_TYPE(sy[x].st_info);
			if((ty != STT_OBJECT && ty != STT_TLS) || !sy[x].st_size || sy[x].st_shndx >= eh->e_shnum || !(sh[sy[x].st_shndx].sh_flags & SHF_WRITE) || !of_library(str + sy[x].st_name)) continue;
			Var v{str + sy[x].st_name, nullptr, sy[x].st_size, module, 0, {}, 0};
			if(ty == STT_TLS) v.tls = sy[x].st_value; else v.p = reinterpret_cast<const unsigned char *>(i->dlpi_addr + sy[x].st_value);
			vars.push_back(v);
		}
	}
	munmap(const_cast<char *>(m), static_cast<std::size_t>(st.st_size));
	return 0;
}
inline std::vector<const unsigned char *> tls;
inline int tls_of(dl_phdr_info * i, std::size_t, void *) { tls.push_back(static_cast<const unsigned char *>(i->dlpi_tls_data)); return 0; }
// names of the variables that changed (again) since the last call
inline std::string changed() {
	if(!ready) {
		ready = true;
		on = getenv("PTL_HIDDEN") != nullptr;
		if(on) {
			dl_iterate_phdr(scan, nullptr);
			tls.clear(); dl_iterate_phdr(tls_of, nullptr);
			for(auto & v : vars) if(auto p = v.p ? v.p : tls[static_cast<std::size_t>(v.module)] ? tls[static_cast<std::size_t>(v.module)] + v.tls : nullptr) v.last.assign(p, p + v.n);
		}
	}
	if(!on || vars.empty()) return "";
	tls.clear(); dl_iterate_phdr(tls_of, nullptr);
	std::string r;
	for(auto & v : vars) {
		const auto p = v.p ? v.p : tls[static_cast<std::size_t>(v.module)] ? tls[static_cast<std::size_t>(v.module)] + v.tls : nullptr;
		if(!p) continue;
		if(v.last.empty()) { v.last.assign(p, p + v.n); continue; }
		if(!memcmp(v.last.data(), p, v.n)) continue;
		v.last.assign(p, p + v.n);
		if(++v.changes > 1) { if(!r.empty()) r += ' '; r += v.name; }
	}
	return r;
}
}
