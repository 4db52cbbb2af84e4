/* Runtime for the library compiled with thread-sanitizer instrumentation: threads run one at a time, switch only
 * where the schedule says, and every access to memory is checked for conflicts between unsynchronised threads. */
#pragma once
#include "env.hpp"
namespace ts {
const int MAXT = 3;
/* Points at which a schedule may switch. */
enum { P_CALLBACK = 1, P_STATIC = 2, P_ENTRY = 4 };
struct Schedule {
	int first = 0;                               /* thread that starts */
	struct Pre { long at; int to; };             /* at the at-th point, switch to the to-th other live thread */
	std::vector<Pre> pre;
	int points = P_CALLBACK | P_STATIC;
};
struct Result {
	long steps = 0; int taken = 0; std::string race; long accesses = 0, shared = 0;
	long points[MAXT] = {0, 0, 0};
};
/* Run the tasks under the schedule, each on a thread of its own. */
Result run(int worker, const Schedule &s, const std::vector<std::function<void()>> &tasks);
void point(int kind);                            /* a scheduling point */
int self();                                      /* number of the running task, -1 outside */
}
