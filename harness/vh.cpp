#include "vh.h"
#include <time.h>
#include <signal.h>
#include <ucontext.h>
#include <sys/syscall.h>
namespace vh {
static Status dummy;
Status *st = &dummy;
uint64_t evals, nontriv, trans, traces;
bool thorough, sampling;
std::unordered_set<uint64_t> states;
static int nsample, nviol;
static const Space *cur;
static uint64_t curidx;
static std::vector<std::string> samples;

std::string hex(const void *p, size_t n) {
	static const char *d = "0123456789abcdef"; std::string s; const uint8_t *b = (const uint8_t *)p;
	size_t m = n > 96 ? 96 : n;
	for (size_t i = 0; i < m; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
	if (m < n) s += "...(" + std::to_string(n) + " bytes)";
	return s;
}
static std::string esc(const char *s) {
	std::string o;
	for (; *s; s++) { if (*s == '"' || *s == '\\') { o += '\\'; o += *s; } else if ((unsigned char)*s < 32) o += ' '; else o += *s; }
	return o;
}
uint64_t case_hash; bool dumping;
void emit(const char *what, const void *p, size_t n) {
	case_hash = mix(hashb(p, n, case_hash ^ 1469598103934665603ULL), n); evals++; if (n) nontriv++;
	if (dumping) { printf("{\"ev\":\"emit\",\"what\":\"%s\",\"v\":\"%s\",\"h\":\"%016llx\"}\n", esc(what).c_str(), hex(p, n).c_str(), (unsigned long long)case_hash); }
}
void note(const char *fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(st->note, sizeof st->note, fmt, a); va_end(a); }
void sample(const char *fmt, ...) {
	if (!sampling) return;
	char b[900]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
	printf("{\"ev\":\"sample\",\"space\":\"%s\",\"case\":%llu,\"text\":\"%s\"}\n", cur->name, (unsigned long long)curidx, esc(b).c_str());
	sampling = false; nsample++;
}
void fail(const char *fmt, ...) {
	bool t = track_allocs; track_allocs = false; fail_at = -1; fail_rest = false; (void)t;
	char b[1800]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
	printf("{\"ev\":\"viol\",\"space\":\"%s\",\"case\":%llu,\"msg\":\"%s\"}\n", cur->name, (unsigned long long)curidx, esc(b).c_str());
	fflush(stdout);
	nviol++;
	throw CaseAbort();
}
}
using namespace vh;
// ---- enumerated CPUID answers: the instruction is made to trap and is answered with feature bits masked ----
static unsigned cpu_allow = 3; // bit 0: AES, bit 1: SHA extensions
static void arch_cpuid(int on) { syscall(SYS_arch_prctl, 0x1012, on); }
static void on_segv(int sig, siginfo_t *, void *uc) {
	ucontext_t *u = (ucontext_t *)uc; greg_t *g = u->uc_mcontext.gregs; const uint8_t *ip = (const uint8_t *)g[REG_RIP];
	if (g[REG_TRAPNO] != 13 || ip[0] != 0x0f || ip[1] != 0xa2) { signal(sig, SIG_DFL); return; }
	arch_cpuid(1);
	unsigned a = (unsigned)g[REG_RAX], b, c = (unsigned)g[REG_RCX], d, leaf = a;
	__asm__ volatile("cpuid" : "+a"(a), "=b"(b), "+c"(c), "=d"(d));
	arch_cpuid(0);
	if (leaf == 1 && !(cpu_allow & 1)) c &= ~(1u << 25);
	if (leaf == 7 && !(cpu_allow & 2)) b &= ~(1u << 29);
	g[REG_RAX] = a; g[REG_RBX] = b; g[REG_RCX] = c; g[REG_RDX] = d; g[REG_RIP] += 2;
}
static bool cpu_mask(int allow) {
	if (allow < 0 || allow == 3) return true;
	cpu_allow = allow; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, NULL);
	return syscall(SYS_arch_prctl, 0x1012, 0) == 0;
}
static bool hasprop(const char *list, const char *p) {
	std::string l = std::string(",") + list + ",", q = std::string(",") + p + ","; return l.find(q) != std::string::npos;
}
int main(int argc, char **argv) {
	const char *prop = NULL, *status = NULL, *one = NULL, *statef = NULL, *exclude = NULL, *only = NULL, *hashf = NULL; FILE *hf = NULL;
	long long onecase = -1; unsigned sh = 0, shn = 1; int maxviol = 5, cpu = -1; bool list = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&]() { return argv[++i]; };
		if (a == "--prop") prop = nx(); else if (a == "--tier") thorough = !strcmp(nx(), "thorough");
		else if (a == "--shard") { sscanf(nx(), "%u/%u", &sh, &shn); }
		else if (a == "--status") status = nx(); else if (a == "--space") one = nx();
		else if (a == "--case") onecase = atoll(nx()); else if (a == "--states") statef = nx();
		else if (a == "--exclude") exclude = nx(); else if (a == "--only") only = nx();
		else if (a == "--hashes") hashf = nx(); else if (a == "--dump") dumping = true;
		else if (a == "--list") list = true; else if (a == "--cpu") cpu = atoi(nx());
	}
	if (status) {
		int fd = open(status, O_RDWR | O_CREAT, 0644);
		if (fd < 0 || ftruncate(fd, sizeof(Status))) { perror(status); return 9; }
		st = (Status *)mmap(NULL, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
	}
	if (!list && !cpu_mask(cpu)) { printf("{\"ev\":\"nocpu\"}\n{\"ev\":\"end\",\"viol\":0}\n"); return 0; }
	setvbuf(stdout, NULL, _IOLBF, 1 << 16);
	for (auto &s : spaces()) {
		if (one) { if (strcmp(one, s.name)) continue; }
		else {
			if (prop && !hasprop(s.props, prop)) continue;
			if (s.tier == 1 && !thorough) continue;
			if (s.tier == 2 && thorough) continue;
			if (exclude && hasprop(exclude, s.name)) continue;
			if (only && !hasprop(only, s.name)) continue;
		}
		cur = &s;
		uint64_t n = s.count();
		if (list) { printf("%s %s %llu\n", s.props, s.name, (unsigned long long)n); continue; }
		evals = nontriv = trans = traces = 0; states.clear();
		uint64_t done = 0; int sv = nviol;
		struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
		snprintf(st->space, sizeof st->space, "%s", s.name);
		if (hashf) hf = fopen((std::string(hashf) + "." + s.name).c_str(), "wb");
		for (uint64_t k = onecase >= 0 ? (uint64_t)onecase : sh; k < n; k += shn) {
			curidx = k; st->cas = k; st->note[0] = 0; st->beat++;
			sampling = (k == 0 || k == n / 2 || k == n - 1);
			case_hash = 0;
			try { s.run(k); } catch (CaseAbort &) {}
			if (hf) { uint64_t r[2] = {k, case_hash}; fwrite(r, 16, 1, hf); }
			track_allocs = false; fail_at = -1; fail_rest = false;
			done++;
			if (onecase >= 0) break;
			if (nviol - sv >= maxviol) break;
		}
		if (hf) { fclose(hf); hf = NULL; }
		clock_gettime(CLOCK_MONOTONIC, &t1);
		if (statef && !states.empty()) {
			std::string f = std::string(statef) + "." + s.name; FILE *o = fopen(f.c_str(), "wb");
			if (o) { for (uint64_t h : states) fwrite(&h, 8, 1, o); fclose(o); }
		}
		printf("{\"ev\":\"space\",\"space\":\"%s\",\"total\":%llu,\"cases\":%llu,\"evals\":%llu,\"nontriv\":%llu,\"states\":%zu,\"trans\":%llu,\"traces\":%llu,\"secs\":%.2f,\"rule\":\"%s\"}\n",
			s.name, (unsigned long long)n, (unsigned long long)done, (unsigned long long)evals, (unsigned long long)nontriv, states.size(),
			(unsigned long long)trans, (unsigned long long)traces, (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9, esc(s.rule).c_str());
	}
	printf("{\"ev\":\"end\",\"viol\":%d}\n", nviol);
	return 0;
}
