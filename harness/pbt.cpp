#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

static uint64_t mix(uint64_t z) {
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static uint64_t hash_str(std::string const& s, uint64_t h = 1469598103934665603ull) {
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return h;
}

uint64_t Gen::next() { state_ += 0x9e3779b97f4a7c15ull; return mix(state_); }

uint64_t Gen::below(uint64_t n) {
	++pos_;
	if (pos_ > 200000) discard("choice budget");
	if (replay_) {
		uint64_t v = pos_ <= choices.size() ? choices[pos_ - 1] : 0;
		return n == 0 ? v : (v < n ? v : n - 1);
	}
	uint64_t v = n == 0 ? next() : (n == 1 ? 0 : next() % n);
	choices.push_back(v);
	return v;
}
bool Gen::chance(unsigned p) { return below(100) >= 100 - p; }
size_t Gen::weighted(std::initializer_list<unsigned> w) {
	uint64_t tot = 0; for (auto x : w) tot += x;
	uint64_t r = below(tot); size_t i = 0;
	for (auto x : w) { if (r < x) return i; r -= x; ++i; }
	return w.size() - 1;
}
int Gen::small_int(int mag) { uint64_t v = below(2 * uint64_t(mag) + 1); int k = int((v + 1) / 2); return (v % 2) ? k : -k; }

namespace {

enum Status : int { Running = 0, Pass = 1, Fail = 2, Discarded = 3, Inconclusive = 4 };
constexpr size_t MaxChoices = 60000;

struct Slot {                                 // shared between a worker and its case process
	std::atomic<int> status;
	int nontrivial;
	uint64_t checks;
	uint64_t nchoices;
	uint64_t choices[MaxChoices];
	char msg[6000];
	char notes[12000];
	char labels[3000];
};

struct Outcome {
	int status = Running;
	bool nontrivial = false;
	uint64_t checks = 0;
	std::vector<uint64_t> choices;
	std::string msg, notes;
	std::vector<std::string> labels;
	double wall = 0;
};

template<class T> T* shared(size_t n = 1) {
	void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
	return static_cast<T*>(p);
}
void put(char* dst, size_t cap, std::string const& s) { size_t n = std::min(cap - 1, s.size()); memcpy(dst, s.data(), n); dst[n] = 0; }

std::string scratch_root;

void publish(Slot* sl, Gen& g) {
	sl->nontrivial = g.nontrivial_;
	sl->checks = g.checks;
	sl->nchoices = std::min<size_t>(g.choices.size(), MaxChoices);
	for (size_t i = 0; i < sl->nchoices; ++i) sl->choices[i] = g.choices[i];
	put(sl->notes, sizeof sl->notes, g.notes);
	std::string l; for (auto& x : g.labels) { l += x; l += '\n'; }
	put(sl->labels, sizeof sl->labels, l);
}

// On a crash the case process publishes what it had drawn and noted so far.
Gen* live_gen = nullptr; Slot* live_slot = nullptr;
void on_crash(int sig) {
	if (live_gen && live_slot) { publish(live_slot, *live_gen); }
	if (sig == SIGXCPU) { put(live_slot->msg, sizeof live_slot->msg, "CPU limit exceeded (no termination)"); live_slot->status = Inconclusive; _exit(0); }
	signal(sig, SIG_DFL); raise(sig);
}

Outcome run_case(Sub const& sub, Slot* sl, Gen proto, unsigned cpu, int errfd, std::string const& workdir) {
	auto t0 = std::chrono::steady_clock::now();
	sl->status = Running; sl->nontrivial = 0; sl->checks = 0; sl->nchoices = 0; sl->msg[0] = sl->notes[0] = sl->labels[0] = 0;
	std::vector<uint64_t> given = proto.choices;
	pid_t pid = fork();
	if (pid == 0) {
		rlimit rl{cpu, cpu + 5}; setrlimit(RLIMIT_CPU, &rl);
		rlimit as{6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &as);
		rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
		if (ftruncate(errfd, 0)) {}
		lseek(errfd, 0, SEEK_SET);
		dup2(errfd, 2);
		int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
		if (!workdir.empty() && chdir(workdir.c_str())) {}
		static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
		struct sigaction sa{}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
		for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGXCPU}) sigaction(s, &sa, nullptr);
		Gen g = proto; live_gen = &g; live_slot = sl;
		int st = Pass;
		try { sub.body(g); }
		catch (Failure const& f) { st = Fail; put(sl->msg, sizeof sl->msg, f.msg); }
		catch (DiscardCase const& d) { st = Discarded; put(sl->msg, sizeof sl->msg, d.why); }
		catch (std::exception const& e) { st = Fail; put(sl->msg, sizeof sl->msg, std::string("unexpected exception: ") + e.what()); }
		catch (...) { st = Fail; put(sl->msg, sizeof sl->msg, "unexpected exception of unknown type"); }
		live_gen = nullptr;
		publish(sl, g);
		sl->status = st;
		_exit(0);
	}
	int ws = 0; while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
	Outcome o;
	o.status = sl->status;
	o.nontrivial = sl->nontrivial; o.checks = sl->checks;
	o.choices.assign(sl->choices, sl->choices + sl->nchoices);
	o.msg = sl->msg; o.notes = sl->notes;
	std::istringstream is(sl->labels); for (std::string l; std::getline(is, l);) o.labels.push_back(l);
	if (o.status == Running) {
		if (WIFSIGNALED(ws) && (WTERMSIG(ws) == SIGXCPU || WTERMSIG(ws) == SIGKILL)) {
			o.status = Inconclusive; o.msg = WTERMSIG(ws) == SIGXCPU ? "CPU limit exceeded (no termination)" : "killed";
			if (o.choices.empty()) o.choices = given;
		} else {
			std::string err; char buf[3000]; lseek(errfd, 0, SEEK_SET); ssize_t n = read(errfd, buf, sizeof buf); if (n > 0) err.assign(buf, n);
			o.status = Fail;
			std::ostringstream s; s << "process died: " << (WIFSIGNALED(ws) ? strsignal(WTERMSIG(ws)) : "exit") << " " << (WIFEXITED(ws) ? WEXITSTATUS(ws) : 0) << "  stderr: " << err;
			o.msg = s.str();
			if (o.choices.empty()) o.choices = given;
		}
	}
	o.wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	return o;
}

std::string jesc(std::string const& s) {
	std::string r; for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c; }
	return r;
}

struct SubStats {
	uint64_t evaluations = 0, pass = 0, discarded = 0, inconclusive = 0, checks = 0, nontrivial = 0;
	double maxwall = 0;
	std::set<uint64_t> distinct;
	std::map<std::string, uint64_t> labels, discards;
	std::vector<std::string> samples;
	std::vector<std::string> inconclusive_notes;
};

// worker -> parent record, appended to a per-worker file
void write_rec(FILE* f, uint64_t idx, Outcome const& o) {
	auto ws = [&](std::string const& s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); };
	fwrite(&idx, 8, 1, f); uint64_t st = o.status, nt = o.nontrivial; fwrite(&st, 8, 1, f); fwrite(&nt, 8, 1, f); fwrite(&o.checks, 8, 1, f); fwrite(&o.wall, 8, 1, f);
	uint64_t h = 7; for (auto c : o.choices) h = mix(h ^ mix(c)); fwrite(&h, 8, 1, f);
	ws(o.msg); bool keep = o.status == Fail || o.status == Inconclusive || (o.nontrivial && idx < 400);
	ws(keep ? o.notes : std::string());
	uint64_t nc = (o.status == Fail || o.status == Inconclusive) ? o.choices.size() : 0; fwrite(&nc, 8, 1, f); if (nc) fwrite(o.choices.data(), 8, nc, f);
	std::string l; for (auto& x : o.labels) { l += x; l += '\n'; } ws(l);
}
struct Rec { uint64_t idx, hash; Outcome o; };
bool read_rec(FILE* f, Rec& r) {
	auto rs = [&](std::string& s) { uint64_t n; if (fread(&n, 8, 1, f) != 1) return false; s.resize(n); return n == 0 || fread(&s[0], 1, n, f) == n; };
	uint64_t st, nt; if (fread(&r.idx, 8, 1, f) != 1) return false;
	if (fread(&st, 8, 1, f) != 1 || fread(&nt, 8, 1, f) != 1 || fread(&r.o.checks, 8, 1, f) != 1 || fread(&r.o.wall, 8, 1, f) != 1 || fread(&r.hash, 8, 1, f) != 1) return false;
	r.o.status = int(st); r.o.nontrivial = nt;
	if (!rs(r.o.msg) || !rs(r.o.notes)) return false;
	uint64_t nc; if (fread(&nc, 8, 1, f) != 1) return false; r.o.choices.resize(nc); if (nc && fread(r.o.choices.data(), 8, nc, f) != nc) return false;
	std::string l; if (!rs(l)) return false; r.o.labels.clear(); std::istringstream is(l); for (std::string x; std::getline(is, x);) r.o.labels.push_back(x);
	return true;
}

int make_errfd() { return memfd_create("err", 0); }

} // namespace

int run_main(Suite const& suite, int argc, char** argv) {
	auto T0 = std::chrono::steady_clock::now();
	auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); };
	std::string tier = "quick", out, replay, replay_dir = ".", only;
	uint64_t seed = 1; unsigned jobs = 8; double scale = 1; double wall_cap = 0; long one = -1; bool verbose = false, nostop = false;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i]; auto val = [&] { return std::string(argv[++i]); };
		if (a == "--tier") tier = val(); else if (a == "--seed") seed = std::stoull(val()); else if (a == "--out") out = val();
		else if (a == "--replay") replay = val(); else if (a == "--replay-dir") replay_dir = val(); else if (a == "--sub") only = val();
		else if (a == "--jobs") jobs = std::stoul(val()); else if (a == "--scale") scale = std::stod(val()); else if (a == "--cap") wall_cap = std::stod(val());
		else if (a == "--case") one = std::stol(val()); else if (a == "--verbose") verbose = true; else if (a == "--keep-going") nostop = true;
	}
	bool thorough = tier == "thorough";
	if (wall_cap == 0) wall_cap = thorough ? 2400 : 240;
	char tmpl[] = "/tmp/pbt.XXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; } scratch_root = tmpl;
	auto cleanup = [&] { std::string c = "rm -rf '" + scratch_root + "'"; if (system(c.c_str())) {} };
	std::vector<std::string> dirs; for (unsigned w = 0; w < std::max(jobs, 1u); ++w) { dirs.push_back(scratch_root + "/w" + std::to_string(w)); mkdir(dirs.back().c_str(), 0700); }

	if (!replay.empty()) { // replay file: first line property, second sub-check, third the choices
		std::ifstream f(replay); std::string prop, sub; std::getline(f, prop); std::getline(f, sub); std::string line; std::getline(f, line);
		std::istringstream is(line); std::vector<uint64_t> ch; for (uint64_t x; is >> x;) ch.push_back(x);
		int rc = 3;
		for (auto& s : suite.subs) if (s.name == sub) {
			Slot* sl = shared<Slot>(); Outcome o = run_case(s, sl, Gen(ch), 4 * s.cpu_limit, make_errfd(), dirs[0]);
			std::cout << "status " << o.status << "\n" << o.msg << "\n--- case ---\n" << o.notes << std::endl;
			rc = (o.status == Fail || (o.status == Inconclusive && s.hang_is_violation)) ? 1 : 0;
			if (rc) std::cout << "VIOLATION property=" << suite.property << " replay=" << replay << std::endl;
		}
		cleanup(); return rc;
	}

	unsigned violations = 0, known_present = 0;
	std::map<std::string, SubStats> stats; std::vector<std::string> viol_msgs;

	// known findings: each probe runs in its own process
	std::vector<std::string> known_lines;
	for (auto& k : suite.known) {
		if (!only.empty()) continue;
		pid_t pid = fork();
		if (pid == 0) { rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core); rlimit rl{20, 25}; setrlimit(RLIMIT_CPU, &rl); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1);
			if (chdir(dirs[0].c_str())) {}
			bool b = true; try { b = k.still_fails(); } catch (...) { b = true; } _exit(b ? 10 : 11); }
		int ws; waitpid(pid, &ws, 0);
		bool present = !(WIFEXITED(ws) && WEXITSTATUS(ws) == 11);
		if (present) { ++known_present; known_lines.push_back(k.id + ": " + k.what); std::cout << "KNOWN-FINDING: property=" << suite.property << " " << k.id << ": " << k.what << std::endl; }
	}

	double total_weight = 0; for (auto& s : suite.subs) if (only.empty() || s.name == only) total_weight += 1;
	for (auto& sub : suite.subs) {
		if (!only.empty() && sub.name != only) continue;
		auto& st = stats[sub.name];
		uint64_t n = uint64_t((thorough ? sub.thorough : sub.quick) * scale); if (n == 0) n = 1;
		uint64_t base = mix(seed * 0x2545F4914F6CDD1Dull ^ hash_str(suite.property + "/" + sub.name));
		auto case_seed = [&](uint64_t i) { return mix(base ^ mix(i)); };
		if (one >= 0) {
			Slot* sl = shared<Slot>(); Outcome o = run_case(sub, sl, Gen(case_seed(one)), 4 * sub.cpu_limit, make_errfd(), dirs[0]);
			std::cout << sub.name << " case " << one << " status " << o.status << " wall " << o.wall << "\n" << o.msg << "\n" << o.notes << std::endl; continue;
		}
		// the first cases of every run are the smallest ones: empty choice list = simplest value of everything
		std::atomic<int>* stop = shared<std::atomic<int>>(); *stop = 0;
		std::atomic<uint64_t>* nextc = shared<std::atomic<uint64_t>>(); *nextc = 0;
		std::vector<pid_t> pids; std::vector<std::string> files;
		double sub_deadline = elapsed() + (wall_cap - elapsed());
		fflush(stdout); std::cout.flush();
		for (unsigned w = 0; w < jobs; ++w) {
			files.push_back(scratch_root + "/rec" + std::to_string(w));
			pid_t p = fork();
			if (p == 0) {
				FILE* f = fopen(files[w].c_str(), "wb"); Slot* sl = shared<Slot>(); int efd = make_errfd();
				while (!*stop) {
					uint64_t i = (*nextc)++; if (i >= n) break;
					if (elapsed() > sub_deadline) break;
					Outcome o = i == 0 ? run_case(sub, sl, Gen(std::vector<uint64_t>{}), sub.cpu_limit, efd, dirs[w]) : run_case(sub, sl, Gen(case_seed(i)), sub.cpu_limit, efd, dirs[w]);
					if (o.status == Inconclusive && sub.hang_is_violation) { // confirm with a four times larger budget
						Outcome o2 = i == 0 ? run_case(sub, sl, Gen(std::vector<uint64_t>{}), 4 * sub.cpu_limit, efd, dirs[w]) : run_case(sub, sl, Gen(case_seed(i)), 4 * sub.cpu_limit, efd, dirs[w]);
						if (o2.status == Inconclusive && o2.msg.find("CPU limit") != std::string::npos) { o2.status = Fail; o2.msg = "does not terminate: " + o2.msg; }
						o = o2;
						if (o.choices.empty()) { // a hung case cannot publish; regenerate lazily through its seed on replay
							o.choices.clear(); }
					}
					write_rec(f, i, o);
					if (o.status == Fail) { fflush(f); if (!nostop) *stop = 1; }
				}
				fclose(f); _exit(0);
			}
			pids.push_back(p);
		}
		for (auto p : pids) { int ws; waitpid(p, &ws, 0); }
		std::vector<Rec> fails;
		for (auto& fn : files) {
			FILE* f = fopen(fn.c_str(), "rb"); if (!f) continue; Rec r;
			while (read_rec(f, r)) {
				++st.evaluations; st.checks += r.o.checks; st.maxwall = std::max(st.maxwall, r.o.wall);
				for (auto& l : r.o.labels) ++st.labels[l];
				switch (r.o.status) {
					case Pass: ++st.pass; break;
					case Discarded: ++st.discarded; ++st.discards[r.o.msg.substr(0, 60)]; break;
					case Inconclusive: ++st.inconclusive; if (st.inconclusive_notes.size() < 3) st.inconclusive_notes.push_back("case " + std::to_string(r.idx)); break;
					case Fail: fails.push_back(r); break;
				}
				if (r.o.status == Pass && r.o.nontrivial) { ++st.nontrivial; st.distinct.insert(r.hash); if (!r.o.notes.empty() && st.samples.size() < 3) st.samples.push_back(r.o.notes.substr(0, 900)); }
			}
			fclose(f); unlink(fn.c_str());
		}
		if (verbose || nostop) {
			std::cerr << sub.name << ": n=" << st.evaluations << " pass=" << st.pass << " nontrivial=" << st.nontrivial << " distinct=" << st.distinct.size() << " discarded=" << st.discarded << " inconcl=" << st.inconclusive << " fails=" << fails.size() << " checks=" << st.checks << " maxwall=" << st.maxwall << " t=" << elapsed() << "\n";
			for (auto& l : st.labels) std::cerr << "    " << l.first << ": " << l.second << "\n";
			for (auto& l : st.discards) std::cerr << "    discard " << l.first << ": " << l.second << "\n";
			for (auto& l : st.inconclusive_notes) std::cerr << "    inconclusive " << l << "\n";
		}
		if (fails.empty()) continue;
		std::sort(fails.begin(), fails.end(), [](Rec const& a, Rec const& b) { return a.idx < b.idx; });
		if (nostop) { std::map<std::string, std::pair<int, uint64_t>> m; for (auto& r : fails) { std::string k; for (char ch : r.o.msg.substr(0, 400)) { if (isdigit((unsigned char)ch)) { if (k.empty() || k.back() != '#') k += '#'; } else k += ch; } auto& e = m[k.substr(0, 110)]; if (!e.first++) e.second = r.idx; }
			int shown = 0; for (auto& e : m) if (shown++ < 15) std::cerr << "    FAIL x" << e.second.first << " (case " << e.second.second << "): " << e.first << "\n"; }

		Slot* sl = shared<Slot>(); int efd = make_errfd();
		bool reported = false;
		for (size_t fi = 0; fi < fails.size() && fi < 4 && !reported; ++fi) {
			Rec& r = fails[fi];
			bool hang = r.o.msg.rfind("does not terminate", 0) == 0;
			unsigned cpu = hang ? 2 * sub.cpu_limit : sub.cpu_limit;
			auto bad = [&](Outcome& o) { if (o.status == Inconclusive && hang) o.status = Fail; return o.status == Fail; };
			Outcome best = r.o;
			std::vector<uint64_t> cur = r.o.choices;
			bool have_choices = !cur.empty() || r.idx == 0;
			if (have_choices && !hang) {
				double t_sh = elapsed(); unsigned budget = 1500;
				auto try_ = [&](std::vector<uint64_t> const& c) {
					if (budget == 0 || elapsed() - t_sh > 40) return false; --budget;
					Outcome o = run_case(sub, sl, Gen(c), cpu, efd, dirs[0]);
					if (!bad(o)) return false;
					best = o; cur = c; if (best.choices.size() && best.choices.size() < cur.size()) {} return true;
				};
				for (bool progress = true; progress && budget;) {
					progress = false;
					for (size_t k = std::max<size_t>(1, cur.size() / 2); k >= 1; k /= 2) { // drop chunks
						for (size_t i = 0; i + k <= cur.size();) { auto c = cur; c.erase(c.begin() + i, c.begin() + i + k); if (try_(c)) progress = true; else i += k; }
						if (k == 1) break;
					}
					for (size_t k = std::max<size_t>(1, cur.size() / 4); k >= 1; k /= 2) { // zero chunks
						for (size_t i = 0; i + k <= cur.size(); i += k) { bool any = false; for (size_t j = i; j < i + k; ++j) any |= cur[j] != 0; if (!any) continue;
							auto c = cur; std::fill(c.begin() + i, c.begin() + i + k, 0); if (try_(c)) progress = true; }
						if (k == 1) break;
					}
					for (size_t i = 0; i < cur.size(); ++i) { // lower single values
						uint64_t lo = 0; while (cur[i] > lo && budget) { uint64_t m = lo + (cur[i] - lo) / 2; auto c = cur; c[i] = m; if (try_(c)) { progress = true; } else lo = m + 1; }
					}
					while (!cur.empty() && cur.back() == 0) cur.pop_back();
				}
			}
			int again = 0;
			for (int k = 0; k < 3; ++k) { Outcome o = have_choices ? run_case(sub, sl, Gen(cur), cpu, efd, dirs[0]) : run_case(sub, sl, Gen(case_seed(r.idx)), cpu, efd, dirs[0]); if (bad(o)) { ++again; best.msg = o.msg; best.notes = o.notes; } }
			if (again < 3) { st.inconclusive++; st.inconclusive_notes.push_back("case " + std::to_string(r.idx) + " failed once but not on replay: " + r.o.msg); std::cerr << "not reproducible: " << r.o.msg << "\n"; continue; }
			if (!have_choices) { // regenerate the choice list without running the body is impossible; record the generated prefix via the seed
				cur.clear(); }
			std::string rp = replay_dir + "/" + suite.property + "-" + sub.name + ".replay";
			std::ofstream f(rp); f << suite.property << "\n" << sub.name << "\n"; for (auto c : cur) f << c << " ";
			f << "\n# seed " << seed << " case " << r.idx << " tier " << tier << "\n# " << best.msg << "\n# --- case ---\n" << best.notes << "\n"; f.close();
			++violations; reported = true;
			std::cout << "sub-check " << sub.name << " case " << r.idx << ": " << best.msg << "\n--- shrunk case ---\n" << best.notes << "\n";
			std::cout << "VIOLATION property=" << suite.property << " replay=" << rp << std::endl;
			viol_msgs.push_back(sub.name + ": " + best.msg);
		}
	}
	uint64_t ev = 0, dn = 0, chk = 0, disc = 0, inc = 0; for (auto& p : stats) { ev += p.second.evaluations; dn += p.second.distinct.size(); chk += p.second.checks; disc += p.second.discarded; inc += p.second.inconclusive; }
	if (!out.empty()) {
		std::ofstream f(out);
		f << "{\n \"property\": \"" << suite.property << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << dn << ",\n  \"oracle_comparisons\": " << chk << ",\n  \"discarded\": " << disc << ",\n  \"inconclusive\": " << inc << ",\n  \"rule\": \"";
		std::string rule = "Cases are choice sequences drawn from a splitmix64 stream keyed by VERIF_SEED, property, sub-check and case number; each runs in its own process; distinct = different choice sequences. Per sub-check: ";
		for (auto& s : suite.subs) rule += "[" + s.name + "] " + s.rule + " ";
		f << jesc(rule) << "\",\n  \"subchecks\": {";
		bool first = true; for (auto& s : suite.subs) { auto it = stats.find(s.name); if (it == stats.end()) continue; auto& t = it->second; if (!first) f << ","; first = false;
			f << "\n   \"" << jesc(s.name) << "\": {\"evaluations\": " << t.evaluations << ", \"passed\": " << t.pass << ", \"nontrivial\": " << t.nontrivial << ", \"distinct_nontrivial\": " << t.distinct.size() << ", \"discarded\": " << t.discarded << ", \"inconclusive\": " << t.inconclusive << ", \"oracle_comparisons\": " << t.checks << ", \"labels\": {";
			bool f2 = true; for (auto& l : t.labels) { if (!f2) f << ", "; f2 = false; f << "\"" << jesc(l.first) << "\": " << l.second; } f << "}}"; }
		f << "\n  },\n  \"samples\": ["; first = true;
		for (auto& s : suite.subs) { auto it = stats.find(s.name); if (it == stats.end()) continue; unsigned k = 0; for (auto& x : it->second.samples) { if (k++ == 2) break; if (!first) f << ","; first = false; f << "\n   \"" << jesc(s.name + ": " + x) << "\""; } }
		f << "\n  ]\n },\n \"known_findings_present\": ["; first = true; for (auto& k : known_lines) { if (!first) f << ", "; first = false; f << "\"" << jesc(k) << "\""; }
		f << "],\n \"assumptions\": ["; first = true; for (auto& a : suite.assumptions) { if (!first) f << ", "; first = false; f << "\"" << jesc(a) << "\""; }
		f << "],\n \"wall_s\": " << elapsed() << ",\n \"violations\": " << violations << "\n}\n";
	}
	std::cout << suite.property << " " << tier << " seed=" << seed << ": " << ev << " cases, " << dn << " distinct non-trivial, " << chk << " comparisons, " << disc << " discarded, " << inc << " inconclusive, " << violations << " violations, " << elapsed() << " s" << std::endl;
	cleanup();
	return violations ? 1 : 0;
}

} // namespace pbt
