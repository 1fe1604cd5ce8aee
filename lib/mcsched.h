// Controlled scheduler for code compiled with -fsanitize=thread instrumentation whose callbacks are implemented here.
//
// The "threads" of a scenario are fibers of one process. Before every atomic operation (and lock operation) the scheduler
// asks the explorer which thread continues, so all interleavings of the visible operations are enumerated, up to the
// preemption bound. Between visible operations every plain memory access is checked with vector clocks: two accesses to the
// same bytes, one of them a write, that are not ordered by the happens-before relation of the C++ memory model are reported
// as a race. A program without races is decided completely by the interleavings of its visible operations.
// Memory comes from an arena that is never reused within one execution, so an access to released memory is always seen.
#pragma once
#include "mc.h"

namespace sched
{
	// runs the bodies as concurrent threads; returns when all have ended. preemptions < 0: no bound
	void run(mc::Ctx& c, std::vector<std::function<void()>> bodies, int preemptions, uint64_t stateSeed);
	// until the end of the execution, what the race detector reports in a thread is the known finding with that key
	void known(const char* key);
	int self(); // the running thread, 0 for the scenario itself
}
