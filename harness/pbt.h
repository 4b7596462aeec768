/*
 * pbt.h -- a small property-based testing engine.
 *
 * A case is a function of a sequence of bounded integer choices (Src). The sequence is drawn from a
 * generator seeded by (VERIF_SEED, property, case index); shrinking edits the recorded sequence and re-runs
 * the case, so every generator shrinks for free and a replay file is just the sequence.
 * Cases run in forked workers: a signal or sanitizer report in the code under test is a failing case like
 * any other, and shrinks like any other.
 */
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <array>
#include <algorithm>
#include <chrono>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

struct failure : std::runtime_error {
	using std::runtime_error::runtime_error;
};
struct discard {};		// the case is outside of the domain (counted)

inline uint64_t splitmix(uint64_t& s) {
	uint64_t z = (s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
inline uint64_t hash64(const void* data, size_t len, uint64_t h = 0xcbf29ce484222325ull) {
	const uint8_t* p = (const uint8_t*)data;
	for(size_t i = 0; i < len; ++i) {
		h = (h ^ p[i]) * 0x100000001b3ull;
	}
	return h ^ (h >> 29);
}

class Src {
public:
	std::vector<uint64_t> rec;		// choices made
	explicit Src(uint64_t seed) : state(seed) {}
	explicit Src(const std::vector<uint64_t>& in) : replay(true), in(in) {}

	// uniform in [0, n); n = 0 means all 64 bits
	uint64_t draw(uint64_t n) {
		uint64_t v = 0;
		if(replay) {
			v = pos < in.size() ? in[pos++] : 0;
			if(n && v >= n) {
				v %= n;
			}
		} else {
			v = splitmix(state);
			if(n) {
				v = uint64_t(((unsigned __int128)v * n) >> 64);
			}
		}
		rec.push_back(v);
		return v;
	}
	uint64_t range(uint64_t lo, uint64_t hi) {		// inclusive
		if(hi - lo == ~0ull) {
			return draw(0);
		}
		return lo + draw(hi - lo + 1);
	}
	bool flip() { return draw(2); }
	bool chance(unsigned percent) {		// shrinks to false
		return draw(100) >= 100 - std::min(percent, 100u);
	}
	size_t index(size_t n) { return draw(n); }
	template<typename T> const T& pick(const std::vector<T>& v) { return v.at(draw(v.size())); }
	template<typename T> T of(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
	template<typename T> T pick_weighted(std::initializer_list<std::pair<unsigned, T>> w) { uint64_t sum = 0; for(const auto& e : w) sum += e.first; uint64_t k = draw(sum); for(const auto& e : w) { if(k < e.first) return e.second; k -= e.first; } return w.begin()->second; }
	size_t weighted(std::initializer_list<unsigned> w) {
		unsigned total = 0;
		for(auto x : w) total += x;
		uint64_t r = draw(total);
		size_t i = 0;
		for(auto x : w) {
			if(r < x) return i;
			r -= x;
			i++;
		}
		return 0;
	}
	// small sizes are likely, all sizes up to max possible
	size_t size(size_t max) {
		if(max == 0) return 0;
		switch(draw(4)) {
			case 0: return range(0, std::min<size_t>(max, 2));
			case 1: return range(0, std::min<size_t>(max, 8));
			case 2: return range(0, std::min<size_t>(max, 40));
			default: return range(0, max);
		}
	}
	// integers of every magnitude, with the neighbourhood of powers of two over-represented
	uint64_t u64() {
		switch(draw(5)) {
			case 0: return range(0, 16);
			case 1: return range(0, 1000);
			case 2: {
				const auto k = draw(64);
				const auto d = draw(5);
				return (uint64_t(1) << k) + d - 2;
			}
			case 3: {
				const auto bits = range(1, 64);
				return draw(0) >> (64 - bits);
			}
			default: return draw(0);
		}
	}
	uint32_t u32() { return uint32_t(u64()); }
	std::vector<uint8_t> bytes(size_t n) {
		std::vector<uint8_t> out(n);
		const auto mode = draw(4);
		if(mode == 0) return out;
		if(mode == 1) {
			const auto b = draw(256);
			for(auto& x : out) x = b;
			return out;
		}
		for(size_t i = 0; i < n; i += 8) {
			auto v = draw(0);
			for(size_t k = 0; k < 8 && i + k < n; ++k) out[i + k] = uint8_t(v >> (8 * k));
		}
		return out;
	}
	template<size_t N> std::array<uint8_t, N> array() {
		const auto v = bytes(N);
		std::array<uint8_t, N> out = {};
		std::copy(v.begin(), v.end(), out.begin());
		return out;
	}
	std::string text(size_t n, const std::string& alphabet) {
		std::string s;
		for(size_t i = 0; i < n; ++i) s.push_back(alphabet[draw(alphabet.size())]);
		return s;
	}
	template<typename T> void shuffle(std::vector<T>& v) {
		for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[draw(i)]);
	}
private:
	bool replay = false;
	uint64_t state = 0;
	std::vector<uint64_t> in;
	size_t pos = 0;
};

class Ctx {
public:
	bool logging = false;
	std::ostringstream log;
	std::map<std::string, uint64_t>* labels = nullptr;
	std::set<std::string> seen;
	bool is_nontrivial = false;
	uint64_t key = 0;		// identity of the case for the distinct count (0: the choice sequence)

	void label(const std::string& name) {
		if(labels && seen.insert(name).second) (*labels)[name]++;
	}
	void count(const std::string& name, uint64_t n = 1) {
		if(labels) (*labels)["#" + name] += n;
	}
	void nontrivial(bool v = true) { is_nontrivial = is_nontrivial || v; }
};

#define PBT_NOTE(c, expr) do { if((c).logging) { (c).log << expr << "\n"; } } while(0)
#define NOTE(expr) PBT_NOTE(c, expr)
#define FAIL(expr) do { std::ostringstream _o; _o << expr; throw ::pbt::failure(_o.str()); } while(0)
#define CHECK_MSG(cond, expr) do { if(!(cond)) FAIL(expr << "  [" #cond "]"); } while(0)

template<typename T> std::string show(const T& v) { std::ostringstream o; o << v; return o.str(); }
inline std::string show(const std::vector<uint8_t>& v) {
	static const char* d = "0123456789abcdef";
	std::string s;
	for(size_t i = 0; i < v.size() && i < 96; ++i) { s += d[v[i] >> 4]; s += d[v[i] & 15]; }
	if(v.size() > 96) s += "...";
	return "<" + std::to_string(v.size()) + ">" + s;
}
template<size_t N> std::string show(const std::array<uint8_t, N>& v) { return show(std::vector<uint8_t>(v.begin(), v.end())); }
inline std::string show(bool v) { return v ? "true" : "false"; }

template<typename A, typename B> void check_eq(const A& got, const B& want, const std::string& what) {
	if(!(got == want)) FAIL(what << ": got " << show(got) << ", expected " << show(want));
}

using prop_t = std::function<void(Src&, Ctx&)>;

struct entry_t {
	prop_t fn;
	uint64_t cpu_limit = 60;		// CPU seconds one case may take before it counts as a hang
	uint64_t mem_mb = 0;			// address space one worker may add, 0 = no limit
	bool exhaustive = false;		// the case index enumerates a finite space (draw(0) #0 is the index)
	uint64_t total = 0;
};
inline std::map<std::string, entry_t>& registry() { static std::map<std::string, entry_t> r; return r; }
inline std::map<std::string, std::function<void()>>& findings() { static std::map<std::string, std::function<void()>> r; return r; }
inline std::function<void()>& setup() { static std::function<void()> f; return f; }

struct reg { reg(const std::string& name, prop_t fn, uint64_t cpu = 60, uint64_t mem = 0) { entry_t e; e.fn = fn; e.cpu_limit = cpu; e.mem_mb = mem; registry()[name] = e; } };
struct reg_finding { reg_finding(const std::string& name, std::function<void()> fn) { findings()[name] = fn; } };
struct reg_setup { reg_setup(std::function<void()> fn) { setup() = fn; } };

#define PROPERTY(name) static void prop_##name(pbt::Src&, pbt::Ctx&); \
	static pbt::reg reg_##name(#name, prop_##name); \
	static void prop_##name([[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Ctx& c)
// with a CPU limit per case (seconds) and a memory limit (MB): code that must not run away
#define PROPERTY_LIM(name, cpu, mem) static void prop_##name(pbt::Src&, pbt::Ctx&); \
	static pbt::reg reg_##name(#name, prop_##name, cpu, mem); \
	static void prop_##name([[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Ctx& c)
// a known finding: the function throws pbt::failure while the defect is present
#define FINDING(name) static void finding_##name(); static pbt::reg_finding regf_##name(#name, finding_##name); static void finding_##name()
#define SETUP static void setup_fn(); static pbt::reg_setup reg_setup_fn(setup_fn); static void setup_fn()

struct shared_t {
	volatile uint64_t current;
	volatile uint64_t failed;		// 1: a failure was reported through msg
	char msg[8192];
};

struct result_t {
	bool fail = false;
	std::string msg;
	bool operator!() const { return !fail; }
};

inline void limit_mem(uint64_t mb) {
	static bool done = false;
	if(!mb || done) return;
	done = true;
	uint64_t pages = 0;
	{ std::ifstream in("/proc/self/statm"); in >> pages; }
	struct rlimit r = {};
	r.rlim_cur = r.rlim_max = pages * uint64_t(sysconf(_SC_PAGESIZE)) + (mb << 20);
	setrlimit(RLIMIT_AS, &r);
}
inline void limit_cpu_s(uint64_t sec) {
	struct itimerval t = {};
	t.it_value.tv_sec = sec;
	setitimer(ITIMER_PROF, &t, nullptr);
}

inline void limit_cpu(const entry_t& e) { limit_mem(e.mem_mb); limit_cpu_s(e.cpu_limit); }

inline std::string describe_signal(int status, const std::string& err) {
	std::ostringstream o;
	if(WIFSIGNALED(status)) {
		const int sig = WTERMSIG(status);
		if(sig == SIGPROF) {
			o << "hang: the case used up its CPU time limit";
		} else {
			o << "crash: signal " << sig << " (" << strsignal(sig) << ")";
		}
	} else {
		o << "crash: exit code " << WEXITSTATUS(status);
	}
	auto pos = err.find("ERROR: AddressSanitizer");
	if(pos == std::string::npos) pos = err.find("runtime error");
	if(pos == std::string::npos) pos = err.find("terminate called");
	if(pos != std::string::npos) o << ": " << err.substr(pos, 1500);
	return o.str();
}

inline std::string scratch_dir(const std::string& set = "") {
	static std::string dir = "/tmp";
	if(!set.empty()) dir = set;
	return dir;
}

inline std::string read_file(const std::string& path) {
	std::ifstream in(path, std::ios::binary);
	return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}

// run one case in this process
inline result_t run_case(const entry_t& e, Src& s, Ctx& c) {
	result_t r;
	try {
		e.fn(s, c);
	} catch(const discard&) {
		c.is_nontrivial = false;
		c.count("discarded");
	} catch(const failure& ex) {
		r.fail = true;
		r.msg = ex.what();
	} catch(const std::exception& ex) {
		r.fail = true;
		r.msg = std::string("unexpected exception: ") + ex.what();
	} catch(...) {
		r.fail = true;
		r.msg = "unexpected exception of unknown type";
	}
	return r;
}

struct driver_t {
	std::string name;
	entry_t e;
	uint64_t seed = 1;
	std::string work;		// directory for fail files, created by caller

	uint64_t case_seed(uint64_t index) const {
		uint64_t h = hash64(name.data(), name.size(), seed * 0x9e3779b97f4a7c15ull + 1);
		h ^= index * 0xd6e8feb86659fd93ull;
		splitmix(h);
		return h;
	}

	// run one recorded case in a forked child; rec_out gets the (normalized) choices
	result_t run_isolated(const std::vector<uint64_t>& choices, std::vector<uint64_t>* rec_out, std::string* log_out, const uint64_t* index = nullptr) {
		auto* sh = (shared_t*)mmap(nullptr, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		memset((void*)sh, 0, sizeof(*sh));
		const std::string base = work + "/iso." + std::to_string(getpid());
		const std::string err = base + ".err", recf = base + ".rec", logf = base + ".log";
		unlink(recf.c_str());
		unlink(logf.c_str());
		fflush(stdout); fflush(stderr);
		const pid_t pid = fork();
		if(pid == 0) {
			setpgid(0, 0);
			int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
			if(!getenv("PBT_KEEP_ERR")) { dup2(fd, 2); dup2(fd, 1); }
			limit_cpu(e);
			Src s = index ? Src(case_seed(*index)) : Src(choices);
			Ctx c;
			c.logging = log_out;
			const auto r = run_case(e, s, c);
			limit_cpu_s(0);
			{
				std::ofstream o(recf);
				for(auto v : s.rec) o << v << "\n";
			}
			if(log_out) {
				std::ofstream o(logf);
				o << c.log.str();
			}
			if(r.fail) {
				strncpy(sh->msg, r.msg.c_str(), sizeof(sh->msg) - 1);
				sh->failed = 1;
			}
			fflush(stdout);
			_exit(r.fail ? 1 : 0);
		}
		int status = 0;
		const auto t0 = std::chrono::steady_clock::now();
		bool stuck = false;
		while(true) {
			const auto p = waitpid(pid, &status, WNOHANG);
			if(p == pid) break;
			const double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
			if(el > e.cpu_limit + 60) { kill(-pid, SIGKILL); kill(pid, SIGKILL); stuck = true; waitpid(pid, &status, 0); break; }
			usleep(el < 0.01 ? 200 : 2000);
		}
		result_t r;
		if(stuck) {
			r.fail = true;
			r.msg = "hang: the case did not end (deadlock)";
		} else if(sh->failed) {
			r.fail = true;
			r.msg = sh->msg;
		} else if(!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
			r.fail = true;
			r.msg = describe_signal(status, read_file(err));
		}
		if(rec_out) {
			rec_out->clear();
			std::ifstream in(recf);
			uint64_t v;
			while(in >> v) rec_out->push_back(v);
			if(rec_out->empty()) *rec_out = choices;
		}
		if(log_out) *log_out = read_file(logf);
		munmap((void*)sh, sizeof(*sh));
		unlink(err.c_str()); unlink(recf.c_str()); unlink(logf.c_str());
		return r;
	}

	// a crashed case has no recording; recover it by drawing from its seed (long enough for any case)
	std::vector<uint64_t> raw_choices(uint64_t index, size_t n) {
		return {};
	}

	std::vector<uint64_t> shrink(std::vector<uint64_t> best, double budget_s, result_t& res, int& attempts) {
		const auto t0 = std::chrono::steady_clock::now();
		auto over = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget_s; };
		auto less = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
			return a.size() != b.size() ? a.size() < b.size() : a < b;
		};
		auto attempt = [&](const std::vector<uint64_t>& cand) {
			if(over()) return false;
			attempts++;
			std::vector<uint64_t> rec;
			const auto r = run_isolated(cand, &rec, nullptr);
			if(r.fail) {
				auto x = less(rec, cand) ? rec : cand;
				if(less(x, best)) {
					best = x;
					res = r;
					return true;
				}
			}
			return false;
		};
		bool progress = true;
		while(progress && !over()) {
			progress = false;
			for(size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1; k /= 2) {
				for(size_t i = best.size(); i-- > 0 && !over();) {
					if(i + k > best.size()) continue;
					auto cand = best;
					cand.erase(cand.begin() + i, cand.begin() + i + k);
					if(attempt(cand)) progress = true;
				}
				if(k == 1) break;
			}
			for(size_t k = 8; k >= 2; k /= 2) {
				for(size_t i = 0; i + k <= best.size() && !over(); ++i) {
					auto cand = best;
					bool any = false;
					for(size_t j = 0; j < k; ++j) { any |= cand[i + j]; cand[i + j] = 0; }
					if(any && attempt(cand)) progress = true;
				}
			}
			for(size_t i = 0; i < best.size() && !over(); ++i) {
				if(best[i] == 0) continue;
				auto cand = best;
				cand[i] = 0;
				if(attempt(cand)) { progress = true; continue; }
				// binary search towards the smallest failing value
				uint64_t lo = 0, hi = best[i];
				while(lo + 1 < hi && !over()) {
					const uint64_t mid = lo + (hi - lo) / 2;
					cand = best;
					if(i >= cand.size()) break;
					cand[i] = mid;
					if(attempt(cand)) { hi = mid; progress = true; if(i >= best.size() || best[i] != mid) break; }
					else lo = mid;
				}
			}
		}
		return best;
	}
};

struct stats_t {
	uint64_t evals = 0;
	std::map<std::string, uint64_t> labels;
	std::vector<uint64_t> keys;
	std::vector<std::string> samples;
};

inline std::string json_str(const std::string& in) {
	std::string o = "\"";
	for(unsigned char ch : in) {
		if(ch == '"') o += "\\\"";
		else if(ch == '\\') o += "\\\\";
		else if(ch == '\n') o += "\\n";
		else if(ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", ch); o += b; }
		else o += ch;
	}
	return o + "\"";
}

inline int usage() {
	fprintf(stderr, "usage: --list | --prop NAME --seed N --cases N --time S --jobs N --out FILE --work DIR | --replay FILE | --finding NAME\n");
	return 2;
}

inline int run_prop(const std::string& name, uint64_t seed, uint64_t cases, double time_s, int jobs, const std::string& out, const std::string& work) {
	auto it = registry().find(name);
	if(it == registry().end()) {
		fprintf(stderr, "no such property: %s\n", name.c_str());
		return 2;
	}
	driver_t d;
	d.name = name;
	d.e = it->second;
	d.seed = seed;
	d.work = work;
	jobs = std::max<uint64_t>(std::min<uint64_t>(jobs, cases), 1);
	auto* sh = (shared_t*)mmap(nullptr, sizeof(shared_t) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset((void*)sh, 0, sizeof(shared_t) * jobs);
	const auto t0 = std::chrono::steady_clock::now();
	auto elapsed = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
	std::vector<pid_t> pids(jobs, -1);
	for(int w = 0; w < jobs; ++w) {
		fflush(stdout); fflush(stderr);
		const pid_t pid = fork();
		if(pid == 0) {
			setpgid(0, 0);
			const std::string err = work + "/w" + std::to_string(w) + ".err";
			int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
			dup2(fd, 2); dup2(fd, 1);
			stats_t st;
			std::set<uint64_t> keys;
			int rc = 0;
			for(uint64_t i = w; i < cases; i += jobs) {
				if(time_s > 0 && elapsed() > time_s) break;
				sh[w].current = i + 1;
				Src s(d.case_seed(i));
				Ctx c;
				c.labels = &st.labels;
				c.logging = st.samples.size() < 1;
				limit_cpu(d.e);
				const auto r = run_case(d.e, s, c);
				limit_cpu_s(0);
				st.evals++;
				if(r.fail) {
					std::ofstream o(work + "/w" + std::to_string(w) + ".fail");
					o << i << "\n";
					for(auto v : s.rec) o << v << "\n";
					strncpy(sh[w].msg, r.msg.c_str(), sizeof(sh[w].msg) - 1);
					sh[w].failed = 1;
					rc = 1;
					break;
				}
				if(c.is_nontrivial) {
					keys.insert(c.key ? c.key : hash64(s.rec.data(), s.rec.size() * 8));
					if(c.logging && st.samples.size() < 1) {
						auto t = c.log.str();
						if(t.size() > 1500) t = t.substr(0, 1500) + "...";
						st.samples.push_back("case " + std::to_string(i) + ": " + t);
					}
				}
			}
			{
				std::ofstream o(work + "/w" + std::to_string(w) + ".stats");
				o << st.evals << "\n" << keys.size() << "\n";
				for(auto k : keys) o << k << "\n";
				o << st.labels.size() << "\n";
				for(const auto& l : st.labels) o << l.second << " " << l.first << "\n";
				for(const auto& t : st.samples) o << json_str(t) << "\n";
			}
			fflush(stdout);
			_exit(rc);
		}
		pids[w] = pid;
	}
	// collect
	std::vector<int> status(jobs, -1);
	std::vector<bool> stuck(jobs, false);
	std::vector<uint64_t> last(jobs, 0);
	std::vector<double> since(jobs, 0);
	int left = jobs;
	bool failed = false;
	while(left) {
		for(int w = 0; w < jobs; ++w) {
			if(pids[w] < 0) continue;
			int stt = 0;
			if(waitpid(pids[w], &stt, WNOHANG) == pids[w]) {
				status[w] = stt;
				pids[w] = -1;
				left--;
				if(!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) failed = true;
				continue;
			}
			if(sh[w].current != last[w]) { last[w] = sh[w].current; since[w] = elapsed(); }
			if(elapsed() - since[w] > 2 * d.e.cpu_limit + 120) {
				kill(-pids[w], SIGKILL);
				kill(pids[w], SIGKILL);
				waitpid(pids[w], &stt, 0);
				stuck[w] = true;
				failed = true;
				pids[w] = -1;
				left--;
			}
		}
		if(failed) {
			// give the others a moment, then stop them: one failure is enough
			for(int w = 0; w < jobs; ++w) if(pids[w] >= 0) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); pids[w] = -2; }
			break;
		}
		if(left) usleep(2000);
	}
	std::ostringstream js;
	uint64_t evals = 0;
	std::set<uint64_t> keys;
	std::map<std::string, uint64_t> labels;
	std::vector<std::string> samples;
	for(int w = 0; w < jobs; ++w) {
		std::ifstream in(work + "/w" + std::to_string(w) + ".stats");
		uint64_t n = 0, k = 0;
		if(!(in >> n)) {
			evals += (sh[w].current ? (sh[w].current - 1 - w) / jobs : 0);
			continue;
		}
		evals += n;
		in >> k;
		for(uint64_t i = 0; i < k; ++i) { uint64_t v; in >> v; keys.insert(v); }
		in >> k;
		for(uint64_t i = 0; i < k; ++i) { uint64_t v; std::string l; in >> v; std::getline(in, l); labels[l.substr(1)] += v; }
		std::string line;
		while(std::getline(in, line)) if(!line.empty()) samples.push_back(line);
	}
	int rc = 0;
	std::string replay, message, fail_log;
	if(failed) {
		for(int w = 0; w < jobs && rc == 0; ++w) {
			if(status[w] == -1 && !stuck[w]) continue;
			if(!stuck[w] && WIFEXITED(status[w]) && WEXITSTATUS(status[w]) == 0) continue;
			std::vector<uint64_t> choices;
			result_t res;
			res.fail = true;
			const uint64_t index = sh[w].current - 1;
			bool have = false;
			if(sh[w].failed) {
				std::ifstream in(work + "/w" + std::to_string(w) + ".fail");
				uint64_t v;
				in >> v;
				while(in >> v) choices.push_back(v);
				res.msg = sh[w].msg;
				have = true;
			} else {
				res.msg = stuck[w] ? "hang (deadlock)" : describe_signal(status[w], read_file(work + "/w" + std::to_string(w) + ".err"));
			}
			std::vector<uint64_t> rec;
			int confirmed = 0;
			if(have) {
				for(int k = 0; k < 3; ++k) if(d.run_isolated(choices, &rec, nullptr).fail) confirmed++;
			} else {
				for(int k = 0; k < 3; ++k) {
					auto r = d.run_isolated({}, nullptr, nullptr, &index);
					if(r.fail) confirmed++;
					if(stuck[w] || r.msg.find("hang") == 0) { break; }
				}
			}
			if(!confirmed) {
				printf("NOT-REPRODUCED prop=%s case=%llu: %s\n", name.c_str(), (unsigned long long)index, res.msg.c_str());
				continue;
			}
			if(!have) {
				// record the choices of the crashing case: a child writes each draw as it happens
				choices.clear();
				const std::string f = work + "/crash.rec";
				// any case draws fewer than 2^18 choices from its seed: hand them over as raw 64-bit values is not
				// possible because draws are scaled, so the child logs them through a shared mapping
				struct map_t { volatile uint64_t n; uint64_t v[1 << 20]; };
				auto* m = (map_t*)mmap(nullptr, sizeof(map_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
				const pid_t pid = fork();
				if(pid == 0) {
					int fd = open("/dev/null", O_WRONLY);
					dup2(fd, 2); dup2(fd, 1);
					limit_cpu(d.e);
					struct LogSrc : Src { using Src::Src; };
					Src s(d.case_seed(index));
					s.rec.reserve(1 << 20);
					// the recording vector lives in private memory; mirror it from a signal handler on death
					static Src* g_s; static map_t* g_m;
					g_s = &s; g_m = m;
					auto dump = [](int) {
						const size_t n = std::min<size_t>(g_s->rec.size(), 1 << 20);
						memcpy((void*)g_m->v, g_s->rec.data(), n * 8);
						g_m->n = n;
						_exit(3);
					};
					for(int sig : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF}) signal(sig, dump);
					stack_t ss = {};
					ss.ss_size = 1 << 16;
					ss.ss_sp = malloc(ss.ss_size);
					sigaltstack(&ss, nullptr);
					for(int sig : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF}) {
						struct sigaction sa = {};
						sa.sa_handler = dump;
						sa.sa_flags = SA_ONSTACK;
						sigaction(sig, &sa, nullptr);
					}
					Ctx c;
					run_case(d.e, s, c);
					dump(0);
				}
				waitpid(pid, nullptr, 0);
				choices.assign(m->v, m->v + m->n);
				munmap((void*)m, sizeof(map_t));
				(void)f;
			}
			int attempts = 0;
			const bool hang = res.msg.find("hang") == 0;
			std::vector<uint64_t> best = choices;
			if(!choices.empty() && !hang) {
				best = d.shrink(choices, 60, res, attempts);
			}
			std::string log;
			result_t fin = best.empty() && !have ? d.run_isolated({}, nullptr, &log, &index) : d.run_isolated(best, nullptr, &log);
			if(!fin.fail && !best.empty()) {		// shrunk case is flaky: fall back
				best = choices;
				fin = d.run_isolated(best, nullptr, &log);
			}
			if(fin.fail) res = fin;
			message = res.msg;
			fail_log = log;
			replay = work + "/../replay_" + name + "_" + std::to_string(seed) + "_" + std::to_string(index) + ".txt";
			std::ofstream o(replay);
			o << "prop " << name << "\nseed " << seed << "\nindex " << index << "\nfrom_index " << (best.empty() && !have ? 1 : 0) << "\nchoices " << best.size() << "\n";
			for(auto v : best) o << v << " ";
			o << "\n# " << res.msg << "\n# shrink attempts: " << attempts << ", " << choices.size() << " -> " << best.size() << " choices\n# --- log of the case ---\n" << log;
			rc = 1;
		}
	}
	js << "{\"prop\": " << json_str(name) << ", \"seed\": " << seed << ", \"evaluations\": " << evals << ", \"requested\": " << cases
		<< ", \"distinct_nontrivial\": " << keys.size() << ", \"wall_s\": " << elapsed() << ", \"failed\": " << (rc ? "true" : "false");
	js << ", \"labels\": {";
	bool first = true;
	for(const auto& l : labels) { js << (first ? "" : ", ") << json_str(l.first) << ": " << l.second; first = false; }
	js << "}, \"samples\": [";
	first = true;
	for(size_t i = 0; i < samples.size() && i < 4; ++i) { js << (first ? "" : ", ") << samples[i]; first = false; }
	js << "]";
	if(rc) js << ", \"replay\": " << json_str(replay) << ", \"message\": " << json_str(message) << ", \"log\": " << json_str(fail_log.substr(0, 4000));
	js << "}\n";
	std::ofstream(out) << js.str();
	return rc;
}

inline int run_replay(const std::string& file, const std::string& work) {
	std::ifstream in(file);
	std::string word, name;
	uint64_t seed = 1, index = 0, n = 0;
	int from_index = 0;
	in >> word >> name >> word >> seed >> word >> index >> word >> from_index >> word >> n;
	std::vector<uint64_t> choices(n);
	for(auto& v : choices) in >> v;
	auto it = registry().find(name);
	if(it == registry().end()) { fprintf(stderr, "no such property: %s\n", name.c_str()); return 2; }
	driver_t d;
	d.name = name; d.e = it->second; d.seed = seed; d.work = work;
	int fails = 0;
	std::string log;
	result_t r;
	for(int k = 0; k < 3; ++k) {
		r = from_index ? d.run_isolated({}, nullptr, &log, &index) : d.run_isolated(choices, nullptr, &log);
		if(r.fail) fails++;
	}
	printf("%s\nprop=%s replay: %d of 3 runs fail: %s\n", log.c_str(), name.c_str(), fails, r.msg.c_str());
	return fails == 3 ? 1 : 0;
}

inline int main(int argc, char** argv) {
	std::string prop, out = "/dev/stdout", work = "/tmp/pbt_work", replay, finding;
	uint64_t seed = 1, cases = 1000;
	double time_s = 0;
	int jobs = 8;
	bool list = false;
	for(int i = 1; i < argc; ++i) {
		const std::string a = argv[i];
		auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if(a == "--prop") prop = next();
		else if(a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
		else if(a == "--cases") cases = strtoull(next().c_str(), nullptr, 10);
		else if(a == "--time") time_s = atof(next().c_str());
		else if(a == "--jobs") jobs = atoi(next().c_str());
		else if(a == "--out") out = next();
		else if(a == "--work") work = next();
		else if(a == "--replay") replay = next();
		else if(a == "--finding") finding = next();
		else if(a == "--list") list = true;
		else return usage();
	}
	if(list) {
		for(const auto& e : registry()) printf("%s\n", e.first.c_str());
		for(const auto& e : findings()) printf("finding %s\n", e.first.c_str());
		return 0;
	}
	(void)!system(("mkdir -p '" + work + "'").c_str());
	scratch_dir(work);
	if(setup()) setup()();
	if(!finding.empty()) {
		auto it = findings().find(finding);
		if(it == findings().end()) return 2;
		// isolated: the finding may be a crash
		const pid_t pid = fork();
		if(pid == 0) {
			limit_cpu_s(60);
			try { it->second(); } catch(const failure& ex) { printf("PRESENT %s\n", ex.what()); fflush(stdout); _exit(1); }
			catch(const std::exception& ex) { printf("PRESENT unexpected exception: %s\n", ex.what()); fflush(stdout); _exit(1); }
			_exit(0);
		}
		int status = 0;
		waitpid(pid, &status, 0);
		if(WIFEXITED(status) && WEXITSTATUS(status) == 0) return 0;
		if(!WIFEXITED(status)) printf("PRESENT %s\n", describe_signal(status, "").c_str());
		return 1;
	}
	if(!replay.empty()) return run_replay(replay, work);
	if(prop.empty()) return usage();
	return run_prop(prop, seed, cases, time_s, jobs, out, work);
}

} // pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main(argc, argv); }
#endif
