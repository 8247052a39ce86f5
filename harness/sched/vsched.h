// A deterministic scheduler for multi-threaded programs.
//
// The functions of libc and libpthread through which threads interact are
// defined here, in the executable, and take precedence over the real ones. Only
// one thread runs at a time; which one goes on is decided here, at every such
// call and, in code compiled with -fsanitize=thread (whose runtime is replaced
// by this one), at memory accesses. Time is virtual: it advances when no thread
// can go on. Executions are functions of a seed.
#ifndef VSCHED_H_
#define VSCHED_H_

#include <cstdint>
#include <functional>
#include <string>

namespace vs {

struct options {
  int spurious = 0;     // Per mille: spurious wakeups of condition variables.
  int eintr = 0;        // Per mille: calls of poll() interrupted by a signal.
  int partial = 0;      // Per cent: reads and writes transfer less than asked.
  int drift = 0;         // Time, in ns, that passes when poll() has nothing to report at once.
  bool races = true;    // Report data races.
  std::uint64_t max_steps = 400000;
};

// Runs n executions of body in child processes, with seeds first, first + 1...,
// jobs at a time, and writes one line each to the file: {"seed":S,"end":E,
// "ev":[events]}, where E is "done", "stuck" if no thread could ever go on,
// "race", "freed" (used after being freed), "hang" or "crash". Only one of
// several executions with the same events is written. Returns 0 if all went well.
int run(std::uint64_t first, std::uint64_t n, int jobs, const std::string& file,
        const options& opt, const std::function<void(std::uint64_t)>& body,
        const std::string& header = "");

// For the program:
std::uint64_t random(std::uint64_t n);  // Choices of the program, by seed.
std::int64_t now_ms();                  // Virtual time since the start.
int self();                             // Thread number; the first is 0.
// Adds an event; text has the fields of a JSON object. "th" and "now" are added.
void log(const std::string& text);
// Likewise, and returns its number; events may be changed later.
int log_index(const std::string& text);
void amend(int index, const std::string& text);
int fresh();                            // 1, 2, 3...
void yield();                           // Others may go on.
// Blocks until f() is true; it's called by other threads whenever they stop.
void wait_until(const std::function<bool()>& f);
void quit(const std::string& end);      // Ends the execution.
// Threads created from now on are in the background: an execution in which only
// these could go on at a later time isn't kept up by them.
std::uint64_t steps();
void set_partial(int percent);
// Closing fd shuts down twin, a duplicate of it.
void set_twin(int fd, int twin);
void set_eintr(int permille);

}  // namespace vs

#endif  // VSCHED_H_
