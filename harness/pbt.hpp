// A small property-based-testing engine: choice-sequence generation, one forked process per
// case, integrated shrinking on the choice sequence, deterministic seeding from VERIF_SEED.
#pragma once
#include <cstdint>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
struct DiscardCase { std::string why; };

// Source of every random decision of a case. Generating: draws from a seeded splitmix stream
// and records. Replaying: reads the recorded list; past its end every draw is 0 (= simplest).
class Gen {
public:
	std::vector<uint64_t> choices;
	Gen(uint64_t seed) : state_(seed), replay_(false) {}
	Gen(std::vector<uint64_t> c) : choices(std::move(c)), state_(0), replay_(true) {}

	uint64_t below(uint64_t n);                       // uniform in [0,n), 0 simplest
	int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo) + 1)); } // lo simplest
	bool chance(unsigned percent);                    // false simplest
	size_t weighted(std::initializer_list<unsigned> w); // index 0 simplest
	int small_int(int mag);                           // 0 simplest, then +-1, ...
	template<class V> auto& pick(V& v) { return v[below(v.size())]; }
	uint64_t bits() { return below(0); }              // full 64 bit

	// bookkeeping, all reported in the evidence
	void nontrivial() { nontrivial_ = true; }
	void label(std::string const& s) { labels.push_back(s); }
	void note(std::string const& s) { notes += s; notes += '\n'; }
	void count(uint64_t n = 1) { checks += n; }

	bool nontrivial_ = false;
	std::vector<std::string> labels;
	std::string notes;
	uint64_t checks = 0;
	size_t pos() const { return pos_; }
	bool overflow() const { return pos_ > 60000; }
private:
	uint64_t next();
	uint64_t state_;
	bool replay_;
	size_t pos_ = 0;
};

[[noreturn]] inline void fail(std::string const& m) { throw Failure{m}; }
[[noreturn]] inline void discard(std::string const& m) { throw DiscardCase{m}; }

#define PBT_CHECK(cond, msg) do { g.count(); if (!(cond)) { std::ostringstream pbt_o_; pbt_o_ << msg << "   [" #cond "]"; ::pbt::fail(pbt_o_.str()); } } while (0)

struct Sub {
	std::string name;
	std::string rule;                 // what is generated and what makes a case non-trivial
	unsigned quick, thorough;         // case counts
	std::function<void(Gen&)> body;
	unsigned cpu_limit = 30;          // seconds of CPU for one case
	bool hang_is_violation = true;
};

// A deterministic probe of one recorded known finding: returns true while the defect is present.
struct Known { std::string id; std::string what; std::function<bool()> still_fails; };

struct Suite {
	std::string property;
	std::vector<Sub> subs;
	std::vector<Known> known;
	std::vector<std::string> assumptions;
};

int run_main(Suite const& s, int argc, char** argv);

} // namespace pbt
