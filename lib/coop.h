// coop.h - a cooperative scheduler for real multithreaded C++ code.
//
// The functions of pthreads which the code under test and the standard library
// call (mutexes, condition variables, threads, sleeps, futexes) are interposed
// in the executable of a harness. Inside of coop::run() exactly one thread
// runs at any time, and before each of these operations (and at explicit
// points of the harness, i.e. fake system calls) the explorer decides which of
// the enabled threads goes on. Switching away from a thread which could go on
// costs one unit of mc::budget(), a spurious wakeup of a waiting thread does
// so, too. Without an enabled thread the execution is a deadlock.
//
// Executions which reach a state with the same happens-before history of all
// threads have the same future; they are explored once (see mc::seen()).
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include "mc.h"

namespace coop {
struct Opt {
  int preemptions = 2;   ///< preemptions and spurious wakeups per execution
  bool preempt = true;   ///< false: threads are only switched if one waits
  bool spurious = true;  ///< explore spurious wakeups
  bool polls = false;    ///< thread 0 reads what others do without operations
  int fixed = 0;         ///< one schedule only: a waiting thread is followed by
                         ///< the first (1) or the last (2) one, or the next
                         ///< thread goes on after each step (3)
  int max_steps = 20000; ///< an execution with more steps does not terminate
};

/// Runs Main as the first thread. \return false if the execution has been
/// abandoned (the rest has been explored before, results mean nothing).
bool run(const std::function<void()> &Main, Opt O = Opt());

/// True between the begin and the end of run() in its threads.
bool active();
/// Identifier of the current thread (0 is Main).
int self();
/// Number of threads created so far, and of those which have not finished.
int created();
int alive();

/// A scheduling point before an operation on Object, whose effect on it is
/// ordered with all other operations on the same object.
void point(const void *Object, const char *What);
/// As point(), the thread is not enabled until Ready() is true.
void wait(const void *Object, const std::function<bool()> &Ready, const char *What);
/// A choice of the environment of the current thread.
int choose(int N);
/// A choice of the environment, where values other than 0 cost budget.
int deviate(int N);
/// The execution has been abandoned, what happens now is not recorded.
bool abandoned();

/// Called if nothing can go on (before the deadlock is reported).
extern std::function<std::string()> describe;
/// The next creation of a thread fails if this returns true.
extern std::function<bool()> create_fails;
} // namespace coop
#endif
