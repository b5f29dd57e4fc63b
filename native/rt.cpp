// Native runtime of the specification primitives: replay and random exploration.
#include <regex>
#include "vc.hpp"
#include <vector>
#include <map>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <random>
#include <ctime>
#include <fstream>
#include <iostream>
#include <sstream>
#include <typeinfo>
#include <unordered_set>
#include <new>
#include <malloc.h>

namespace {
/// heap objects made by the code under test (not by this runtime)
template<typename T> struct Malloc {
	using value_type = T;
	Malloc() = default;
	template<typename U> Malloc(const Malloc<U>&) {}
	T* allocate(std::size_t n) { return (T*) std::malloc(n * sizeof(T)); }
	void deallocate(T* p, std::size_t) { std::free(p); }
	friend bool operator==(const Malloc&, const Malloc&) { return true; }
	friend bool operator!=(const Malloc&, const Malloc&) { return false; }
};
int inrt = 1;
std::unordered_set<void*, std::hash<void*>, std::equal_to<void*>, Malloc<void*>>& live() {
	static std::unordered_set<void*, std::hash<void*>, std::equal_to<void*>, Malloc<void*>> t; return t;
}
struct Rt { Rt() { ++inrt; } ~Rt() { --inrt; } };
void* get(std::size_t n) {
	void* p = std::malloc(n ? n : 1);
	if(!p) throw std::bad_alloc();
	if(!inrt) live().insert(p);
	return p;
}
void put(void* p) {
	if(!p) return;
	if(!inrt) std::memset(p, 0xdb, malloc_usable_size(p));
	if(!live().empty()) live().erase(p);
	std::free(p);
}

struct H { const char* n; void (*f)(); };
std::vector<H>& table() { static std::vector<H> t; return t; }
std::map<std::string, std::string> given;
std::vector<std::uint64_t> givenPicks;
bool replay = false, isfloat = false;
std::mt19937_64 rng;
std::map<std::string, int> seen;
std::vector<std::pair<std::string, std::string>> log_;
std::size_t npick = 0;
int mode = 0;
jmp_buf skip;
std::map<std::string, std::uint64_t> reach;
std::uint64_t ensured = 0;
const char* current = "";
bool quiet = false;
std::vector<std::uint8_t*> arrays;
bool enumerate = false;             // depth first over all choices, for a growing budget
std::vector<std::pair<std::uint64_t, std::uint64_t>> choice;
int depth = 0;
std::uint64_t nontrivial = 0;

std::string uniq(const char* n) {
	int k = seen[n]++;
	return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
void show() {
	if(enumerate) { for(auto& p : choice) std::printf("  pick = %lu\n", (unsigned long) p.first); }
	for(auto& p : log_) std::printf("  %s = %s\n", p.first.c_str(), p.second.c_str());
	std::fflush(stdout);
}
void onsig(int s) {
	if(s == SIGALRM) { std::printf("FAILED %s: the call does not end within 30 s\n", current); show(); std::_Exit(1); }
	std::printf("FAILED %s: signal %d\n", current, s); show(); std::_Exit(1);
}
double num(const std::string& s) {
	auto p = s.find('/');
	if(p == s.npos) return std::strtod(s.c_str(), nullptr);
	return (double)(std::strtold(s.substr(0, p).c_str(), nullptr) / std::strtold(s.substr(p + 1).c_str(), nullptr));
}
double rnd() {
	int k = rng() % 10;
	if(mode == 1) k = rng() % 4;        // small integers only
	if(mode == 2) k = 9;                // generic
	switch(k) {
		case 0: return 0.0;
		case 1: return (int)(rng() % 3) - 1;
		case 2: case 3: return (int)(rng() % 9) - 4;
		case 4: return ((int)(rng() % 33) - 16) / 4.0;
		case 5: return ((int)(rng() % 2001) - 1000) / 10.0;
		default: return ((double) (rng() >> 11) / 9007199254740992.0 - 0.5) * 8;
	}
}
std::uint64_t rbits(int w) {
	std::uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
	switch(rng() % 6) {
		case 0: return rng() % 4 & m;
		case 1: return (0 - rng() % 4) & m;
		case 2: return ((1ull << (w - 1)) + rng() % 5 - 2) & m;
		case 3: return (1ull << (rng() % w)) & m;
		default: return rng() & m;
	}
}
std::uint64_t bits(const char* n, int w) {
	Rt rt;
	auto u = uniq(n);
	std::uint64_t v = 0;
	if(replay) { auto it = given.find(u); v = it == given.end() ? 0 : std::strtoull(it->second.c_str(), nullptr, 0); }
	else v = rbits(w);
	if(w < 64) v &= (1ull << w) - 1;
	log_.push_back({u, std::to_string(v)});
	return v;
}
}

void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t) noexcept { put(p); }

using i128 = __int128;
static i128 chk(i128 a, i128 b, int op) {
	i128 r; bool o = op == 0 ? __builtin_mul_overflow(a, b, &r) : __builtin_add_overflow(a, b, &r);
	if(o) longjmp(skip, 1);
	return r;
}
static i128 gcd(i128 a, i128 b) { if(a < 0) a = -a; while(b) { i128 t = a % b; a = b; b = t; } return a ? a : 1; }
vc::Q::Q(i128 a, i128 b) : n(a), d(b) { auto g = gcd(a, b < 0 ? -b : b); n /= g; d /= g; if(d < 0) { n = -n; d = -d; } if(!n) d = 1; }
vc::Q::Q(double x) {
	int e = 0; while(x != std::floor(x) && e < 60) { x *= 2; ++e; }
	if(!(std::fabs(x) < 1e18)) longjmp(skip, 1);
	*this = Q((i128) (long long) x, (i128) 1 << e);
}
vc::Q vc::Q::prod(const Q& a, i128 m, i128 e) {
	if(e == 0) { std::printf("FAILED %s: division by zero\n", current); show(); std::_Exit(1); }
	auto g = gcd(a.n, e), h = gcd(m, a.d);
	return Q(chk(a.n / g, m / h, 0), chk(a.d / h, e / g, 0));
}
vc::Q vc::Q::sum(const Q& a, const Q& b, int s) {
	auto g = gcd(a.d, b.d);
	return Q(chk(chk(a.n, b.d / g, 0), s * chk(b.n, a.d / g, 0), 1), chk(a.d / g, b.d, 0));
}
vc::Q vc::anyQ(const char* name) {
	Rt rt;
	auto u = uniq(name); long long n = 0, d = 1;
	if(replay) {
		auto it = given.find(u);
		if(it != given.end()) {
			auto p = it->second.find('/');
			n = std::strtoll(it->second.c_str(), nullptr, 10);
			if(p != std::string::npos) d = std::strtoll(it->second.c_str() + p + 1, nullptr, 10);
			else { Q q(num(it->second)); n = (long long) q.n; d = (long long) q.d; }
		}
	} else {
		n = rng() % 3 ? (int)(rng() % 7) - 3 : (int)(rng() % 31) - 15;
		if(mode & 1 && rng() % 4 == 0) d = 1 + rng() % 4;
	}
	log_.push_back({u, std::to_string(n) + (d == 1 ? "" : "/" + std::to_string(d))});
	return Q(n, d);
}

vc::Reg::Reg(const char* n, void (*f)()) { table().push_back({n, f}); }
bool vc::replaying() { return replay; }
void vc::normalise(double* v, int n) {
	Rt rt;
	double s = 0;
	for(int i = 0; i < n; ++i) s += v[i] * v[i];
	if(s == 0) { v[0] = 1; s = 1; }
	s = std::sqrt(s);
	for(int i = 0; i < n; ++i) { v[i] /= s; log_[log_.size() - n + i].second = std::to_string(v[i]); }
}

extern "C" {
double vc_f64(const char* name) {
	Rt rt;
	auto u = uniq(name); double v;
	if(replay) { auto it = given.find(u); v = it == given.end() ? 0 : num(it->second); }
	else v = rnd();
	char b[64]; std::snprintf(b, sizeof b, "%.17g", v);
	log_.push_back({u, b});
	return v;
}
float vc_f32(const char* name) { isfloat = true; return (float) vc_f64(name); }
std::uint8_t vc_i8(const char* n) { return bits(n, 8); }
std::uint16_t vc_i16(const char* n) { return bits(n, 16); }
std::uint32_t vc_i32(const char* n) { return bits(n, 32); }
std::uint64_t vc_i64(const char* n) { return bits(n, 64); }
bool vc_i1(const char* n) { return bits(n, 8) & 1; }
void vc_assume(bool b) { if(!b) longjmp(skip, 1); }
void vc_ensure(bool b, const char* label) {
	++ensured;
	if(!b) { std::printf("FAILED %s: %s\n", current, label); show(); std::_Exit(1); }
}
std::uint64_t vc_pick(std::uint64_t n, const char* name) {
	Rt rt;
	std::uint64_t v = 0;
	if(replay) { if(npick < givenPicks.size()) v = givenPicks[npick]; if(v >= n) v = 0; }
	else if(enumerate) {
		if(npick >= choice.size()) choice.push_back({0, n});
		v = choice[npick].first;
	} else v = rng() % n;
	++npick;
	if(!enumerate) log_.push_back({name, std::to_string(v)});
	return v;
}
#ifndef VC_TOL
#define VC_TOL 1e-7
#endif
static double tol(double a, double b) {
	double m = std::max(std::fabs(a), std::fabs(b));
#ifdef VC_NOROUND
	static const std::regex exact(VC_NOROUND);
	if(std::regex_search(current, exact)) return VC_TOL * (1 + m); // no operation rounds to float
#endif
	return (isfloat ? 2e-4 : VC_TOL) * (1 + m);
}
bool vc_eq(double a, double b) { return a == b || std::fabs(a - b) <= tol(a, b); }
bool vc_le(double a, double b) { return a <= b + tol(a, b); }
bool vc_lt(double a, double b) { return a < b + tol(a, b); }
int vc_depth(int random) { return replay ? (random < 0 ? random : 1000) : enumerate ? depth : random; }
void vc_nontrivial() { ++nontrivial; }
void vc_reach(const char* l) { Rt rt; ++reach[l]; }
std::uint64_t vc_live() { return live().size(); }
void vc_noleak() { vc_ensure(live().empty(), "memory leak"); }
void vc_set_uncaught(std::uint32_t) {}
bool vc_split(bool b) { return b; }
void* vc_opaque(const char*) { std::abort(); }
double vc_let(double x) { return x; }
bool vc_symbolic() { return false; }
std::uint64_t vc_choose(std::uint64_t) { std::abort(); }
std::uint8_t* vc_bytes_heap(const char* name, std::uint64_t size) {
	if(size > (1u << 20)) longjmp(skip, 1);
	auto p = new std::uint8_t[size ? size : 1];
	Rt rt;
	auto u = uniq(name);
	for(std::uint64_t i = 0; i < size; ++i) {
		if(replay) { auto it = given.find(u + "[" + std::to_string(i) + "]"); p[i] = it == given.end() ? 0 : std::atoi(it->second.c_str()); }
		else p[i] = (std::uint8_t) rng();
	}
	std::string s; for(std::uint64_t i = 0; i < size && i < 64; ++i) { char b[8]; std::snprintf(b, 8, "%02x ", p[i]); s += b; }
	log_.push_back({u, s});
	return p;
}
std::uint8_t* vc_bytes(const char* name, std::uint64_t size) {
	Rt rt;
	auto p = vc_bytes_heap(name, size);
	arrays.push_back(p);
	return p;
}
}

static bool one(const H& h) {
	seen.clear(); log_.clear(); npick = 0; isfloat = false; current = h.n;
	static bool ran; ran = false;
	live().clear();
	static unsigned long cases; static std::time_t last;
	// renewed every few cases: a case takes microseconds
	if((++cases & 63) == 1) { auto t = std::time(nullptr); if(t != last) { last = t; alarm(30); } }
	if(!setjmp(skip)) {
		try { inrt = 0; h.f(); ran = true; }
		catch(const std::exception& e) { std::printf("FAILED %s: exception %s leaves the harness\n", h.n, e.what()); show(); std::_Exit(1); }
		catch(...) { std::printf("FAILED %s: exception leaves the harness\n", h.n); show(); std::_Exit(1); }
		if(ran) vc_reach(h.n);
	}
	inrt = 1;
	for(auto p : arrays) delete[] p;
	arrays.clear();
	return ran;
}

int main(int argc, char** argv) {
	std::signal(SIGSEGV, onsig); std::signal(SIGABRT, onsig); std::signal(SIGFPE, onsig); std::signal(SIGBUS, onsig); std::signal(SIGALRM, onsig);
	std::set_terminate([] { std::printf("FAILED %s: std::terminate\n", current); show(); std::_Exit(1); });
	std::string which; long n = 1000; unsigned long seed = 1; std::string file; double secs = 1e9;
	for(int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if(a == "--harness") which = argv[++i];
		else if(a == "--fuzz") n = std::atol(argv[++i]);
		else if(a == "--seed") seed = std::strtoul(argv[++i], nullptr, 0);
		else if(a == "--secs") secs = std::atof(argv[++i]);
		else if(a == "--list") { for(auto& h : table()) std::printf("%s\n", h.n); return 0; }
		else if(a == "--enum") { enumerate = true; secs = std::atof(argv[++i]); }
		else if(a == "--depth") n = std::atol(argv[++i]);
		else if(a == "--replay") { file = argv[++i]; replay = true; }
	}
	if(replay) {
		std::ifstream f(file); std::string l;
		while(std::getline(f, l)) {
			std::istringstream s(l); std::string k, a, b; s >> k;
			if(k == "harness") s >> which;
			else if(k == "pick") { s >> a; givenPicks.push_back(std::strtoull(a.c_str(), nullptr, 0)); }
			else if(k == "set") {
				// set <value> <name...>
				s >> b; std::getline(s, a); if(!a.empty()) a = a.substr(1); given[a] = b;
			} else if(k == "seed") { s >> a; seed = std::strtoul(a.c_str(), nullptr, 0); replay = false; n = 0; s >> n; }
		}
	}
	bool any = false;
	for(auto& h : table()) {
		if(!which.empty() && which != h.n) continue;
		any = true;
		if(replay) { if(!one(h)) { std::printf("SKIPPED %s\n", h.n); return 3; } continue; }
		long ok = 0;
		auto t0 = std::time(nullptr);
		if(enumerate) {
			// each budget starts over; what is reported is the last one completed
			timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
			long total = 0, complete = -1, runs = 0; std::uint64_t nt = 0;
			bool out = false;
			std::string s;
			for(depth = 0; depth <= n && !out; ++depth) {
				long k = 0; nontrivial = 0; choice.clear();
				while(true) {
					one(h); ++k; ++total;
					if(k % 1009 == 1) { s.clear(); for(auto& p : choice) s += std::to_string(p.first) + " "; }
					while(!choice.empty() && ++choice.back().first >= choice.back().second) choice.pop_back();
					if(choice.empty()) break;
					if((k & 255) == 0) {
						clock_gettime(CLOCK_MONOTONIC, &b);
						if((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9 > secs) { out = true; break; }
					}
				}
				if(!out) { complete = depth; runs = k; nt = nontrivial; }
			}
			std::printf("OK %s enumerated=%ld depth=%ld complete=%ld nontrivial=%lu checked=%lu sample=%s\n", h.n, total, complete, runs, (unsigned long) nt, (unsigned long) ensured, s.c_str());
			ensured = 0;
			continue;
		}
		for(long i = 0; i < n; ++i) {
			rng.seed(seed * 1000003 + i);
			mode = i % 4;
			ok += one(h);
			if((i & 63) == 0 && std::time(nullptr) - t0 > secs) break;
		}
		std::printf("OK %s runs=%ld checked=%lu\n", h.n, ok, (unsigned long) ensured);
		ensured = 0;
	}
	if(!any) { std::printf("no harness %s\n", which.c_str()); return 2; }
	if(replay) { std::printf("PASSED\n"); }
	return 0;
}
