// mc.h - a small explicit explorer for real C++ code.
//
// A harness registers scenarios. A scenario body is a function that drives the
// real code and asks mc::choose(n) for every nondeterministic decision
// (operation, argument, environment answer, schedule). The explorer re-runs the
// body once for EVERY sequence of choices (depth-first, backtracking on the
// last choice that still has an untried alternative), so the set of executions
// is exhausted, never sampled. Work is sharded over forked workers; the
// current choice sequence lives in memory shared with the supervising parent,
// so that a crash, a sanitizer report, a failed assertion or a hang is turned
// into a replayable counterexample.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {
struct Violation {};
struct Discard {};

/// Options of a scenario.
struct Opt {
  bool leaks = true;          ///< every execution must free what it allocates
  double exec_limit = 60;     ///< seconds one execution may take
  int split = 4;              ///< number of leading choices used for sharding
  bool fork_each = false;     ///< every execution in a child of its own
};

/// Registers a scenario (call from mc_register()).
void scenario(const char *Name, std::function<void()> Body, Opt O = Opt());

/// True for the thorough tier.
bool thorough();
/// A scratch directory (use names with the process identifier inside).
const std::string &tmp();
/// Picks a bound according to the tier.
template <class T> T bound(T Quick, T Thorough) {
  return thorough() ? Thorough : Quick;
}

/// Nondeterministic choice in [0, N). Choices after the bound on deviations
/// are not restricted: every value is explored.
int choose(int N);
/// As choose(), but a bound on the number of non-zero answers applies: when
/// the budget of the current execution is used up the answer is 0.
int deviate(int N);
/// Sets the budget for deviate() in this execution.
void budget(int N);
int budget_left();

/// True if labels are being recorded (replay or sample collection).
bool verbose();
/// One transition of the real code. The label is only rendered if verbose().
void op(const char *Fmt, ...) __attribute__((format(printf, 1, 2)));
/// A free remark in the trace, which is not a transition.
void note(const char *Fmt, ...) __attribute__((format(printf, 1, 2)));
/// Counts transitions without a label.
void step(uint64_t N = 1);
/// A canonical state that has been reached and checked.
void state(const std::string &Canon);
/// State caching: true if this (canonical) state has been expanded before by
/// this worker with at least the same number of remaining steps.
bool seen(const std::string &Canon, int Remaining);
/// Identifies the choices which this execution has made so far.
uint64_t path();
/// True if the last choice has not been made, with all choices before it, in
/// the previous execution of this worker (so that what follows is new).
bool fresh();
/// An observed outcome, used to show that executions differ.
void outcome(const std::string &O);
/// This execution compared the real code with the reference to its end.
void validated(uint64_t N = 1);
/// Abandon this execution (it is outside of the alphabet).
[[noreturn]] void discard();
/// Reports a violation. \param Sig identifies the failure for known findings.
[[noreturn]] void fail(const char *Sig, const char *Fmt, ...)
    __attribute__((format(printf, 2, 3)));
/// As fail(), but does not throw: remembers the first failure, which is raised
/// when the execution ends (for use in callbacks and other threads).
void fail_later(const char *Sig, const char *Fmt, ...)
    __attribute__((format(printf, 2, 3)));
bool failed();
/// As fail(), but ends the process at once (any thread, any place).
[[noreturn]] void fatal(const char *Sig, const char *Fmt, ...)
    __attribute__((format(printf, 2, 3)));

/// Live heap blocks (0 if the build has no allocation hooks).
int64_t live_blocks();
/// Stops counting allocations of this thread (harness bookkeeping).
struct NoCount { NoCount(); ~NoCount(); };
/// True inside of NoCount.
bool internal();

/// Escapes a string for messages.
std::string show(const std::string &S);
std::string fmt(const char *Fmt, ...) __attribute__((format(printf, 1, 2)));
} // namespace mc

#define MC_CHECK(Cond, Sig, ...) do { if (!(Cond)) ::mc::fail(Sig, __VA_ARGS__); } while (0)

/// Defined by every harness.
void mc_register();
#endif
