// Queued actions: the job queue by itself and the engine in job-queue and detached mode.
//@run prop=C18 name=queue-order kind=conc q=0,1,2 t=0,1,2,3 covers=end define=SCEN=0
//@run prop=C18 name=queue-nested kind=conc q=0,1,2 t=0,1,2,3 covers=end define=SCEN=1
//@run prop=C18 name=queue-producers kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=2
//@run prop=C18,C06 name=engine-queue kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=3
//@run prop=C06 name=actions-pending kind=conc q=0 t=0,1 covers=end,pending define=SCEN=31
//@run prop=C18 name=engine-queue-input kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=4
//@run prop=C19 name=pause-ops kind=conc q=0,1 t=0,1,2 covers=paused,resumed,kept define=SCEN=5,NOPS=4 tdefine=NOPS=5
//@run prop=C19 name=pause-ops-long kind=conc q=0 t=0 covers=paused,resumed,kept define=SCEN=5,NOPS=6 tdefine=NOPS=8
//@run prop=C19 name=pause-running kind=conc q=0,1,2 t=0,1,2,3 covers=end,kept,done define=SCEN=6
//@run prop=C19 name=pause-while-adding kind=conc q=0,1,2 t=0,1,2,3 covers=end,kept define=SCEN=7
//@run prop=C23 name=clear-pending kind=conc q=0,1,2 t=0,1,2 covers=end,ran,pending define=SCEN=8,HOW=0
//@run prop=C23 name=mode-pending kind=conc q=0,1 t=0,1,2 covers=end,ran define=SCEN=8,HOW=1
//@run prop=C23 name=destroy-pending kind=conc q=0,1,2 t=0,1,2 covers=end,ran define=SCEN=8,HOW=2
//@run prop=C23,C22 name=count-after-drop kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=9
//@run prop=C23 name=action-uses-engine kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=10
//@run prop=C22 name=wait-gate kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=11
//@run prop=C22 name=wait-overlap kind=conc early=2 q=0,1 t=0,1,2,3 covers=end,during define=SCEN=12
//@run prop=C22 name=wait-overlap-inputs kind=conc early=2 q=0,1 t=0,1,2 covers=end,during define=SCEN=30
//@run prop=C22 name=wait-selfloop kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=13
//@run prop=C22 name=wait-sync kind=seq covers=fired,end define=SCEN=14
//@run prop=C22 name=wait-loop-input kind=conc early=2 q=0,1,2 t=0,1,2,3 covers=end define=SCEN=15
//@run prop=C19 name=pause-endless kind=conc q=0,1 t=0,1,2 covers=end,ran define=SCEN=16
//@run prop=C22 name=exit-action-pending kind=conc q=0 t=0,1 covers=end define=SCEN=17
#include "common.h"
#include "snap.h"
#include "PTN_Engine/JobQueue/JobQueue.h"
#include <chrono>
#include <memory>
#include <optional>
#include <thread>
using namespace std::chrono_literals;
static const auto FOREVER = 24h * 365;
// what jobs do: order of start, mutual exclusion, thread
struct Jobs
{
	SymCell started, finished, active, overlap, onCaller, at[16];
	long caller = sym_tid();
	Jobs() { for (auto &x : at) x.set(-1); }
	void begin(long id)
	{
		if (active.inc() != 0) overlap.set(1);
		const long n = started.inc();
		if (n < 16) at[n].set(id);
		if (sym_engine() && sym_tid() == caller) onCaller.set(1);
	}
	void end()
	{
		active.dec();
		finished.inc();
	}
	auto job(long id) { return [this, id] { begin(id); std::this_thread::yield(); end(); }; }
	bool inOrder(long n) const
	{
		bool ok = started.get() == n && finished.get() == n;
		for (long i = 0; i < n && ok; i++) ok = at[i].get() == i;
		return ok;
	}
	bool prefix() const
	{
		for (long i = 0; i < started.get(); i++) if (at[i].get() != i) return false;
		return true;
	}
};

#if SCEN == 0
int main()
{
	Jobs j;
	const long n = SYM_TIER ? 4 : 3;
	{
		JobQueue q;
		for (long i = 0; i < n; i++) q.addJob(j.job(i));
		if (sym_choice("idle", 2)) sym_idle(0);
		const long before = j.started.get();
		q.addJob(j.job(n));
		sym_idle(0);
		CHECKP(18, j.inOrder(n + 1), "every job is run exactly once, in the order of issue");
		(void)before;
	}
	CHECKP(18, j.overlap.get() == 0, "two jobs never run at the same time");
	CHECKP(18, j.onCaller.get() == 0, "no job runs on the thread that issued it");
	sym_cover("end");
}
#elif SCEN == 1
// Jobs that issue jobs.
int main()
{
	Jobs j;
	JobQueue q;
	SymCell next;
	next.set(2);
	q.addJob([&] { j.begin(0); q.addJob([&] { j.begin(100); j.end(); }); j.end(); });
	q.addJob([&] { j.begin(1); j.end(); });
	sym_idle(0);
	CHECKP(18, j.started.get() == 3 && j.finished.get() == 3, "every job is run exactly once, also when issued by a job");
	CHECKP(18, j.at[0].get() == 0, "the job issued first runs first");
	CHECKP(18, j.at[1].get() == 1 || j.at[2].get() == 1, "every job is run");
	q.addJob([&] { j.begin(3); j.end(); });
	sym_idle(0);
	CHECKP(18, j.started.get() == 4 && j.at[3].get() == 3, "and so is a job added later");
	CHECKP(18, j.overlap.get() == 0, "two jobs never run at the same time");
	sym_cover("end");
}
#elif SCEN == 2
// Two producers: nothing is lost and the jobs of each keep their order.
int main()
{
	Jobs j;
	JobQueue q;
	std::thread th([&] { q.addJob(j.job(10)); q.addJob(j.job(11)); });
	q.addJob(j.job(20));
	q.addJob(j.job(21));
	th.join();
	sym_idle(0);
	CHECKP(18, j.started.get() == 4 && j.finished.get() == 4, "no job is lost");
	long pos[30] = {};
	for (long i = 0; i < 4; i++) pos[j.at[i].get()] = i + 1;
	CHECKP(18, pos[10] && pos[11] && pos[20] && pos[21], "every job runs once");
	CHECKP(18, pos[10] < pos[11] && pos[20] < pos[21], "jobs run in the order in which their thread issued them");
	CHECKP(18, j.overlap.get() == 0, "two jobs never run at the same time");
	sym_cover("end");
}
#elif SCEN == 3
// The actions of firings in job-queue mode: exits, then entries, firing by firing.
int main()
{
	Jobs j;
	PTN_Engine e(TO::JOB_QUEUE);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1, .onExitAction = j.job(0) });
	e.createPlace({ .name = "B", .onEnterAction = j.job(1), .onExitAction = j.job(2) });
	e.createPlace({ .name = "C", .onEnterAction = j.job(3) });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
	e.createTransition({ .name = "U", .activationArcs = { arc("B") }, .destinationArcs = { arc("C") } });
	e.execute(false, sym_ostream());
	sym_idle(2);
	CHECKP(18, j.inOrder(4), "the actions are run in the order of issue, once each");
	CHECKP(6, j.inOrder(4), "the actions are run in the order of the firings, exits first, once each");
	CHECKP(18, j.overlap.get() == 0, "two actions never run at the same time");
	CHECKP(18, j.onCaller.get() == 0, "no action runs on the thread that started the net");
	e.stop();
	sym_cover("end");
}
#elif SCEN == 4
// Entry actions of external input in job-queue mode, stopped or running.
int main()
{
	Jobs j;
	SymCell ids;
	PTN_Engine e(TO::JOB_QUEUE);
	e.createPlace({ .name = "A", .onEnterAction = [&] { j.begin(ids.inc()); j.end(); }, .onExitAction = [&] { j.begin(ids.inc()); j.end(); }, .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
	e.setEventLoopSleepDuration(FOREVER);
	const bool run = sym_choice("run", 2);
	if (run) e.execute(false, sym_ostream());
	e.incrementInputPlace("A");
	if (sym_choice("idle", 2)) sym_idle(0);
	e.incrementInputPlace("A");
	sym_idle(0);
	CHECKP(18, j.started.get() == (run ? 4 : 2) && j.finished.get() == j.started.get(), "every action issued is run exactly once");
	CHECKP(18, j.overlap.get() == 0, "two actions never run at the same time");
	CHECKP(18, j.onCaller.get() == 0, "no action runs on the thread that gave the input");
	e.stop();
	sym_cover("end");
}
#elif SCEN == 5
// Every sequence of NOPS calls of pause, resume and add.
int main()
{
	Jobs j;
	long n = 0;
	bool active = true;
	{
		JobQueue q;
		for (int i = 0; i < NOPS; i++)
		{
			switch (sym_choice("op", 4))
			{
			case 0:
			{
				q.deactivate();
				active = false;
				const long s = j.started.get();
				CHECKP(19, j.finished.get() == s, "when the queue has been paused no job is running");
				sym_idle(0);
				CHECKP(19, j.started.get() == s, "no job starts while the queue is paused");
				sym_cover("paused");
				if (s < n) sym_cover("kept");
				break;
			}
			case 1:
				q.activate();
				if (!active) sym_cover("resumed");
				active = true;
				break;
			case 2:
				q.addJob(j.job(n++));
				break;
			case 3:
			{
				const long s = j.started.get();
				sym_idle(0);
				if (active) CHECKP(19, j.inOrder(n), "jobs are run, in order, while the queue is active");
				else CHECKP(19, j.started.get() == s, "no job starts while the queue is paused");
				break;
			}
			}
			CHECKP(19, q.isActive() == active, "the queue reports whether it is paused");
		}
		q.activate();
		sym_idle(0);
		CHECKP(19, j.inOrder(n), "jobs added while paused or not yet started are run after resuming, in order");
	}
	CHECKP(19, j.overlap.get() == 0, "two jobs never run at the same time");
}
#elif SCEN == 6
// Pausing at any moment while several jobs are worked on.
int main()
{
	Jobs j;
	JobQueue q;
	for (long i = 0; i < 3; i++) q.addJob(j.job(i));
	if (sym_choice("idle", 2)) sym_idle(0);
	q.deactivate();
	const long s = j.started.get();
	CHECKP(19, j.finished.get() == s, "when the queue has been paused no job is running");
	CHECKP(19, j.prefix(), "the jobs so far ran in order");
	q.addJob(j.job(3));
	sym_idle(0);
	CHECKP(19, j.started.get() == s, "no job starts while the queue is paused");
	if (s < 3) sym_cover("kept");
	if (s == 3) sym_cover("done");
	q.deactivate();
	q.activate();
	if (sym_choice("again", 2)) { q.deactivate(); q.activate(); }
	sym_idle(0);
	CHECKP(19, j.inOrder(4), "the remaining jobs are run after resuming, in order");
	sym_cover("end");
}
#elif SCEN == 7
// Another thread adds jobs while the queue is paused and resumed.
int main()
{
	Jobs j;
	JobQueue q;
	std::thread th([&] { q.addJob(j.job(0)); q.addJob(j.job(1)); });
	q.deactivate();
	const long s = j.started.get();
	CHECKP(19, j.finished.get() == s, "when the queue has been paused no job is running");
	th.join();
	sym_idle(0);
	CHECKP(19, j.started.get() == s, "no job starts while the queue is paused, also when added meanwhile by another thread");
	if (s < 2) sym_cover("kept");
	q.activate();
	sym_idle(0);
	CHECKP(19, j.inOrder(2), "the jobs are run after resuming, in order");
	sym_cover("end");
}
#elif SCEN == 8
// Actions own memory that must be alive when they run; the net is cleared, the mode changed or the engine destroyed at any moment.
int main()
{
	SymCell started, finished, gone;
	auto mk = [&] { return [&started, &finished, data = std::make_shared<std::vector<int>>(3, 5)] { started.inc(); std::this_thread::yield(); if ((*data)[1] == 5 && (*data)[2] == 5) finished.inc(); }; };
	std::optional<PTN_Engine> o;
	const bool detached = sym_choice("detached", 2);
	o.emplace(detached ? TO::DETACHED : TO::JOB_QUEUE);
	PTN_Engine &e = *o;
	if (sym_choice("named", 2))
	{
		e.registerAction("in", mk());
		e.createPlace({ .name = "A", .onEnterActionFunctionName = "in", .input = true });
	}
	else
		e.createPlace({ .name = "A", .onEnterAction = mk(), .onExitAction = mk(), .input = true });
	e.createPlace({ .name = "B", .onEnterAction = mk() });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
	e.incrementInputPlace("A");
	e.incrementInputPlace("A");
#if HOW == 0
	e.clearNet();
	if (started.get() < 2) sym_cover("pending");
#elif HOW == 1
	static const TO modes[] = { TO::SINGLE_THREAD, TO::EVENT_LOOP, TO::JOB_QUEUE, TO::DETACHED };
	const TO m = modes[sym_choice("m", 4)];
	e.setActionsThreadOption(m);
	CHECKP(23, e.getNumberOfTokens("A") == 2, "the marking does not depend on pending actions");
#else
	o.reset();
#endif
	sym_idle(1);
	CHECKP(23, started.get() == finished.get() && started.get() <= 2, "each action runs to its end or never starts");
	if (detached) CHECKP(23, started.get() == 2, "detached actions run to their end");
	if (started.get()) sym_cover("ran");
	sym_cover("end");
}
#elif SCEN == 9
// A transition that waits for actions fires also after pending actions have been dropped or moved on.
int main()
{
	static const TO modes[] = { TO::SINGLE_THREAD, TO::EVENT_LOOP, TO::JOB_QUEUE, TO::DETACHED };
	PTN_Engine e(sym_choice("detached", 2) ? TO::DETACHED : TO::JOB_QUEUE);
	e.createPlace({ .name = "A", .onEnterAction = [] { std::this_thread::yield(); }, .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .requireNoActionsInExecution = true });
	e.incrementInputPlace("A");
	e.incrementInputPlace("A");
	const TO m = modes[sym_choice("m", 4)];
	e.setActionsThreadOption(m);
	sym_idle(1);
	e.execute(false, sym_ostream());
	if (m != TO::SINGLE_THREAD) sym_idle(3);
	CHECKP(23, e.getNumberOfTokens("B") == 2, "dropped actions do not stay counted as in execution");
	CHECKP(22, e.getNumberOfTokens("B") == 2 && e.getNumberOfTokens("A") == 0, "the transition fires once no action is in execution any more");
	e.stop();
	sym_cover("end");
}
#elif SCEN == 10
// An action that uses the engine is being run while the engine is changed or destroyed.
int main()
{
	SymCell ran, answered;
	auto o = std::make_unique<PTN_Engine>(TO::JOB_QUEUE);
	PTN_Engine *p = o.get();
	p->createPlace({ .name = "A", .onEnterAction = [&, p] { ran.inc(); (void)p->getNumberOfTokens("B"); answered.inc(); }, .input = true });
	p->createPlace({ .name = "B", .input = true });
	p->incrementInputPlace("A");
	if (sym_choice("destroy", 2)) o.reset();
	else p->setActionsThreadOption(TO::SINGLE_THREAD);
	CHECKP(23, ran.get() == answered.get(), "each issued action has run to its end or is dropped");
	sym_idle(0);
	CHECKP(23, ran.get() == answered.get() && ran.get() <= 1, "each issued action runs to its end or is dropped before it starts");
	sym_cover("end");
}
#elif SCEN == 11
// The entry actions wait at a gate; the transition must wait for all of them, and then fire.
int main()
{
	SymCell gate, done, early;
	const bool detached = sym_choice("detached", 2);
	PTN_Engine e(detached ? TO::DETACHED : TO::JOB_QUEUE);
	const uint64_t shape = sym_choice("shape", SYM_TIER ? 4 : 2);
	const bool two = shape == 1 || shape == 2;
	auto act = [&] { while (!gate.get()) std::this_thread::sleep_for(300ms); done.inc(); };
	e.createPlace({ .name = "A", .onEnterAction = act, .input = true });
	e.createPlace({ .name = "A2", .initialNumberOfTokens = two ? 0u : 2u, .onEnterAction = act, .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A2"), arc("A") }, .destinationArcs = { arc("B") }, .additionalConditions = { [&] { if (done.get() < (two ? 2 : 1)) early.set(1); return true; } }, .requireNoActionsInExecution = true });
	const bool first = shape == 0 || shape == 2;
	e.setEventLoopSleepDuration(300ms);
	if (!first) e.execute(false, sym_ostream());
	e.incrementInputPlace("A");
	if (two) e.incrementInputPlace("A2");
	if (first) e.execute(false, sym_ostream());
	std::this_thread::sleep_for(350ms);
	CHECKP(22, e.getNumberOfTokens("B") == 0, "the transition does not fire while an entry action is executed or waiting to be executed");
	gate.set(1);
	std::this_thread::sleep_for(650ms);
	CHECKP(22, e.getNumberOfTokens("B") == 1 && e.getNumberOfTokens("A") == 0, "it fires once they have finished");
	e.stop();
	sym_cover("end");
}
#elif SCEN == 12
// Input at any moment while the loop tries the transition: never a firing between the issue of an entry action and its end.
int main()
{
	SymCell bad, during;
	const bool detached = sym_choice("detached", 2);
	PTN_Engine e(detached ? TO::DETACHED : TO::JOB_QUEUE);
	PTN_Engine *p = &e;
	e.createPlace({ .name = "A", .initialNumberOfTokens = sym_choice("a", 2), .onEnterAction = [&, p] {
		const uint64_t a0 = p->getNumberOfTokens("A");
		std::this_thread::yield();
		during.inc();
		if (p->getNumberOfTokens("A") < a0) bad.set(1);
	}, .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .requireNoActionsInExecution = true });
	const uint64_t a = e.getNumberOfTokens("A");
	e.execute(false, sym_ostream());
	e.incrementInputPlace("A");
	sym_idle(2);
	CHECKP(22, bad.get() == 0, "the transition does not fire while an entry action of its input place is being executed");
	CHECKP(22, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == a + 1, "it fires once they have finished");
	if (during.get()) sym_cover("during");
	e.stop();
	sym_cover("end");
}
#elif SCEN == 30
// The same with several input places: the action may belong to any of them.
int main()
{
	SymCell bad, during;
	const bool detached = sym_choice("detached", 2);
	const uint64_t at = sym_choice("at", 3);
	PTN_Engine e(detached ? TO::DETACHED : TO::JOB_QUEUE);
	PTN_Engine *p = &e;
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1, .onEnterAction = [&, p] {
		const uint64_t a0 = p->getNumberOfTokens("A");
		std::this_thread::yield();
		during.inc();
		if (p->getNumberOfTokens("A") < a0) bad.set(1);
	}, .input = true });
	e.createPlace({ .name = "C", .initialNumberOfTokens = 5, .onEnterAction = [] {} });
	e.createPlace({ .name = "D", .initialNumberOfTokens = 5 });
	e.createPlace({ .name = "B" });
	std::vector<ArcProperties> in = { arc("C", 2), arc("D") };
	in.insert(in.begin() + at, arc("A"));
	e.createTransition({ .name = "T", .activationArcs = in, .destinationArcs = { arc("B") }, .requireNoActionsInExecution = true });
	e.execute(false, sym_ostream());
	e.incrementInputPlace("A");
	sym_idle(2);
	CHECKP(22, bad.get() == 0, "the transition does not fire while an entry action of any of its input places is being executed");
	CHECKP(22, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == 2 && e.getNumberOfTokens("C") == 1 && e.getNumberOfTokens("D") == 3, "it fires once they have finished");
	if (during.get()) sym_cover("during");
	e.stop();
	sym_cover("end");
}
#elif SCEN == 13
// A place that is input and output of the transition.
int main()
{
	SymCell entries, running, bad;
	static const TO modes[] = { TO::EVENT_LOOP, TO::JOB_QUEUE, TO::DETACHED };
	PTN_Engine e(modes[sym_choice("mode", 3)]);
	e.createPlace({ .name = "G", .initialNumberOfTokens = 2 });
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1, .onEnterAction = [&] { running.inc(); entries.inc(); std::this_thread::yield(); running.dec(); } });
	e.createTransition({ .name = "T", .activationArcs = { arc("A"), arc("G") }, .destinationArcs = { arc("A") }, .additionalConditions = { [&] { if (running.get()) bad.set(1); return true; } }, .requireNoActionsInExecution = true });
	e.execute(false, sym_ostream());
	sym_idle(4);
	CHECKP(22, bad.get() == 0, "the transition does not fire while the entry action of its place is being executed");
	CHECKP(22, entries.get() == 2 && e.getNumberOfTokens("G") == 0 && e.getNumberOfTokens("A") == 1, "the transition fires as often as it can, also with a place on both sides");
	e.stop();
	sym_cover("end");
}
#elif SCEN == 14
// Synchronous runs: waiting for actions never changes the result.
int main()
{
	static const char *const PN[] = { "A", "B" };
	RefNet<2, 1> n;
	uint64_t entries[2] = {}, want[2] = {};
	const uint64_t budget = sym_choice("budget", 3);
	PTN_Engine e(TO::SINGLE_THREAD);
	for (int p = 0; p < 2; p++)
	{
		n.tok[p] = sym_u64("tok");
		const uint64_t kind = sym_choice("kind", 5);
		n.tr[0].act[p] = { kind == 1 || kind == 3, 1 + sym_choice("w", 2) };
		n.tr[0].dst[p] = { kind == 2 || kind == 3, 1 };
		n.tr[0].inh[p] = { kind == 4, 1 };
		e.createPlace({ .name = PN[p], .initialNumberOfTokens = n.tok[p], .onEnterAction = [&entries, p] { entries[p]++; }, .onExitAction = [] {} });
	}
	e.createPlace({ .name = "G", .initialNumberOfTokens = budget });
	auto tp = n.properties(0, "T", PN);
	tp.activationArcs.push_back(arc("G"));
	tp.requireNoActionsInExecution = true;
	e.createTransition(tp);
	bool over = false;
	uint64_t left = budget;
	while (left && n.enabled(0) && !over)
	{
		over = n.overflows(0);
		if (over) break;
		n.fire(0);
		left--;
		for (int p = 0; p < 2; p++) want[p] += n.tr[0].dst[p].on;
		sym_cover("fired");
	}
	const bool f = fails([&] { e.execute(); });
	CHECKP(22, f == over, "a run fails only by overflow");
	CHECKP(22, (e.getNumberOfTokens("A") == n.tok[0]) & (e.getNumberOfTokens("B") == n.tok[1]) & (e.getNumberOfTokens("G") == left), "the transition fires whenever it is enabled");
	CHECKP(22, entries[0] == want[0] && entries[1] == want[1], "the entry actions run once per firing");
	sym_cover("end");
}
#elif SCEN == 15
// External input to the input place of a waiting transition while the loop tries it: nobody waits for the other forever.
int main()
{
	SymCell runs;
	static const TO modes[] = { TO::EVENT_LOOP, TO::JOB_QUEUE };
	PTN_Engine e(modes[sym_choice("mode", 2)]);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1, .onEnterAction = [&] { runs.inc(); }, .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .requireNoActionsInExecution = true });
	e.execute(false, sym_ostream());
	e.incrementInputPlace("A");
	sym_idle(3);
	CHECKP(22, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == 2 && runs.get() == 1, "input and firing both take place");
	e.stop();
	sym_cover("end");
}
#elif SCEN == 16
// Work that never ends, because every job adds the next: pausing stops it all the same, and resuming goes on with it.
static SymCell g_ran;
static JobQueue *g_queue;
static void endless()
{
	g_ran.inc();
	std::this_thread::sleep_for(1ms);
	g_queue->addJob(endless);
}
int main()
{
	JobQueue q;
	g_queue = &q;
	q.addJob(endless);
	if (sym_choice("wait", 2)) std::this_thread::sleep_for(3ms);
	q.deactivate();
	const long s = g_ran.get();
	std::this_thread::sleep_for(5ms);
	CHECKP(19, g_ran.get() == s, "no job starts while the queue is paused, also when the jobs add jobs");
	q.activate();
	std::this_thread::sleep_for(5ms);
	q.deactivate();
	CHECKP(19, g_ran.get() > s, "the job that was kept is run after resuming");
	if (s) sym_cover("ran");
	sym_cover("end");
}
#elif SCEN == 17
// An exit action of the place takes as long as it likes: only entry actions are waited for.
int main()
{
	SymCell go, done;
	PTN_Engine e(sym_choice("queue", 2) ? TO::JOB_QUEUE : TO::DETACHED);
	const bool both = sym_choice("both", 2);
	const uint64_t tok = both ? 2 : 1 + sym_choice("tok", 2);
	e.createPlace({ .name = "A", .initialNumberOfTokens = tok, .onEnterAction = both ? ActionFunction([] {}) : nullptr, .onExitAction = [&] { while (!go.get()) std::this_thread::sleep_for(1ms); done.inc(); }, .input = true });
	e.createPlace({ .name = "B" });
	e.createPlace({ .name = "C", .initialNumberOfTokens = 1 });
	e.createPlace({ .name = "D" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A"), arc("C") }, .destinationArcs = { arc("B") } });
	e.createTransition({ .name = "U", .activationArcs = { arc("A"), arc("B") }, .destinationArcs = { arc("D") }, .requireNoActionsInExecution = true });
	e.setEventLoopSleepDuration(5ms);
	e.execute(false, sym_ostream());
	if (tok == 1) e.incrementInputPlace("A");
	std::this_thread::sleep_for(100ms);
	CHECKP(22, e.getNumberOfTokens("D") == 1, "a transition fires once no entry action is in execution, whatever the exit actions do");
	go.set(1);
	e.stop();
	std::this_thread::sleep_for(100ms);
	CHECKP(22, done.get() == 2, "the exit actions end when they end");
	sym_cover("end");
}
#elif SCEN == 31
// Inputs and firings while earlier actions of the same places have not finished: every action is run all the same, once each.
int main()
{
	SymCell go, count[6];
	static const TO modes[] = { TO::JOB_QUEUE, TO::DETACHED, TO::EVENT_LOOP };
	const uint64_t mode = sym_choice("mode", 3), tokens = sym_choice("tokens", 2), inputs = 1 + sym_choice("inputs", 2);
	const bool early = mode != 2 && sym_choice("before-running", 2);
	PTN_Engine e(modes[mode]);
	auto act = [&](int i, bool hold) -> ActionFunction {
		return [&count, &go, i, hold] {
			while (hold && !go.get()) std::this_thread::sleep_for(50ms);
			count[i].inc();
		};
	};
	e.createPlace({ .name = "A", .initialNumberOfTokens = tokens, .onEnterAction = act(0, mode != 2), .onExitAction = act(1, false), .input = true });
	e.createPlace({ .name = "B", .onEnterAction = act(2, false), .onExitAction = act(3, false) });
	e.createPlace({ .name = "C", .onEnterAction = act(4, false) });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B", 2) } });
	e.createTransition({ .name = "U", .activationArcs = { arc("B", 2) }, .destinationArcs = { arc("C") } });
	e.setEventLoopSleepDuration(FOREVER);
	if (early) e.incrementInputPlace("A");
	e.execute(false, sym_ostream());
	for (uint64_t i = early; i < inputs; i++) e.incrementInputPlace("A");
	const uint64_t fired = tokens + inputs;
	std::this_thread::sleep_for(200ms);
	CHECKP(6, e.getNumberOfTokens("C") == fired, "every firing takes place");
	if (!count[0].get()) sym_cover("pending");
	go.set(1);
	std::this_thread::sleep_for(200ms);
	CHECKP(6, (uint64_t)count[0].get() == inputs, "the entry action runs once per input, whatever is still in execution");
	bool once = true;
	for (int i = 1; i < 5; i++) once = once && (uint64_t)count[i].get() == fired;
	CHECKP(6, once, "every entry and exit action runs once per firing, whatever is still in execution");
	e.stop();
	sym_cover("end");
}
#endif
