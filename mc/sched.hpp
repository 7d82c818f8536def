// A controlled scheduler for real threads: exactly one runs at a time, and at
// every point where threads can affect each other (atomics, locks, points named
// by the harness) the explorer chooses who continues, with a bounded number of
// preemptions. Plain accesses need no points: happens-before races between them
// are reported, and without a race their order is fixed by the points.
//
// The code under test is compiled with -fsanitize=thread; sched.cpp provides
// the runtime. Runs inside mc::Isolated only.
#pragma once

#include <functional>
#include <string>
#include <vector>

namespace sched {

/// Runs the bodies on real threads until all are finished.
void Run(const std::vector<std::function<void()>>& bodies, int preemptions);
/// A schedule point of the harness or of the environment.
void Point(const char* what);
/// 1-based number of the calling thread, 0 outside Run.
int Me();
/// Sequence number: a global order of events.
int64_t Tick();
/// Turns the race detector off; plain accesses to globals become schedule points.
void DetectRaces(bool on);
/// Schedule points passed so far.
int64_t Points();

}  // namespace sched
