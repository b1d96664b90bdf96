// The system refuses to create threads, or runs out of memory, at any one or several points.
//@run prop=C33 name=start-refused kind=conc q=0,1 t=0,1,2 covers=refused,restart-refused,end define=SCEN=0
//@run prop=C33 name=queue-refused kind=conc q=0,1 t=0,1,2 covers=late,all define=SCEN=1
//@run prop=C33 name=engine-queue-refused kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=2
//@run prop=C33 name=detached-refused kind=conc q=0,1 t=0,1,2 covers=refused,accepted define=SCEN=3
//@run prop=C33 name=pause-refused kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=4
//@run prop=C34 name=memory-edit kind=seq native=0 covers=threw,worked,registered define=SCEN=5
//@run prop=C34 name=memory-run kind=seq native=0 covers=threw,worked define=SCEN=6
//@run prop=C34 name=memory-conc kind=conc q=0 t=0,1 covers=threw,worked define=SCEN=7
//@run prop=C34 name=memory-queue kind=conc q=0,1 t=0,1,2 covers=threw,worked define=SCEN=8
//@run prop=C34 name=memory-mode kind=conc q=0 t=0,1 covers=threw,worked define=SCEN=10
//@run prop=C34 name=memory-input kind=conc q=0 t=0,1 covers=threw,worked define=SCEN=9
#include "common.h"
#include "snap.h"
#include "PTN_Engine/JobQueue/JobQueue.h"
#include <chrono>
#include <memory>
#include <new>
#include <optional>
#include <thread>
using namespace std::chrono_literals;
static const auto FOREVER = 24h * 365;
static const TO ASYNC[] = { TO::EVENT_LOOP, TO::JOB_QUEUE, TO::DETACHED };

#if SCEN == 0
// Any of the starts may be refused, as often as the system likes.
int main()
{
	{
		const uint64_t mode = sym_choice("mode", 3);
		PTN_Engine e(ASYNC[mode]);
		e.createPlace({ .name = "A", .input = true });
		e.createPlace({ .name = "B" });
		e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
		e.setEventLoopSleepDuration(FOREVER);
		uint64_t given = 0;
		for (int round = 0; round < 2; round++)
		{
			e.incrementInputPlace("A");
			given++;
			const uint64_t was = e.getNumberOfTokens("A");
			sym_faults(1, 0);
			const bool refused = fails([&] { e.execute(false, sym_ostream()); });
			sym_faults(0, 0);
			if (!refused)
			{
				CHECKP(33, e.isEventLoopRunning(), "a started engine is running");
				sym_idle(0);
				CHECKP(33, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == given, "a start that is not refused is a complete one");
				e.stop();
				CHECKP(33, !e.isEventLoopRunning(), "a stopped engine is not running");
				continue;
			}
			sym_cover(round && was == 1 ? "restart-refused" : "refused");
			CHECKP(33, !e.isEventLoopRunning(), "an engine that was not started is not running");
			CHECKP(33, e.getNumberOfTokens("A") == was && e.getNumberOfTokens("B") == given - was, "nothing has moved");
			e.stop();
			CHECKP(33, !fails([&] { e.addArc(arc("B", 1, "T", AT::INHIBITOR)); e.removeArc(arc("B", 1, "T", AT::INHIBITOR)); }), "the net can be changed");
			CHECKP(33, !fails([&] { e.setActionsThreadOption(ASYNC[(mode + 1) % 3]); }), "the mode can be changed");
		}
		if (sym_choice("last", 2))
		{
			CHECKP(33, !fails([&] { e.execute(false, sym_ostream()); }), "a later start works");
			e.incrementInputPlace("A");
			sym_idle(0);
			CHECKP(33, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == given + 1, "a later run is a complete one");
			if (sym_choice("stop", 2)) e.stop();
		}
	}
	sym_cover("end");
}
#elif SCEN == 1
// The worker of a queue cannot be started: its jobs wait for the next opportunity.
int main()
{
	SymCell started, active, at[4];
	bool overlap = false;
	auto job = [&](long id) { return [&, id] { if (active.inc()) sym_fail("two jobs at the same time"); const long n = started.inc(); if (n < 4) at[n].set(id); active.dec(); }; };
	{
		JobQueue q;
		q.activate();
		sym_faults(3, 0);
		for (long i = 0; i < 3; i++) CHECKP(33, !fails([&] { q.addJob(job(i)); }), "a job is accepted although no thread can be started");
		sym_idle(0);
		sym_faults(0, 0);
		const long sofar = started.get();
		sym_cover(sofar == 3 ? "all" : "late");
		if (sym_choice("how", 2)) q.addJob(job(3));
		else
		{
			q.deactivate();
			q.activate();
			q.addJob(job(3));
		}
		sym_idle(0);
		CHECKP(33, started.get() == 4, "every job is run once");
		for (long i = 0; i < 4; i++) CHECKP(33, at[i].get() == i, "jobs are run in order");
		if (sym_choice("end", 2)) q.deactivate();
	}
	(void)overlap;
}
#elif SCEN == 2
// The same in the engine: input is accepted and moves on, the actions follow when a thread can be started again.
int main()
{
	SymCell n, at[8];
	auto act = [&](long id) { return [&, id] { const long k = n.inc(); if (k < 8) at[k].set(id); }; };
	{
		PTN_Engine e(TO::JOB_QUEUE);
		e.createPlace({ .name = "A", .onEnterAction = act(1), .onExitAction = act(2), .input = true });
		e.createPlace({ .name = "B", .onEnterAction = act(3) });
		e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
		e.setEventLoopSleepDuration(FOREVER);
		e.execute(false, sym_ostream());
		sym_faults(4, 0);
		CHECKP(33, !fails([&] { e.incrementInputPlace("A"); }), "input is accepted");
		sym_idle(0);
		CHECKP(33, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == 1, "the token moves");
		sym_faults(0, 0);
		e.incrementInputPlace("A");
		sym_idle(0);
		CHECKP(33, e.getNumberOfTokens("B") == 2, "the token moves");
		CHECKP(33, n.get() == 6, "every action is run once");
		for (long i = 0; i < 6; i++) CHECKP(33, at[i].get() == 1 + i % 3, "actions are run in order");
		e.stop();
	}
	sym_cover("end");
}
#elif SCEN == 3
// An entry action that cannot get its thread: the error reaches whoever gave the input, and nothing stays behind.
int main()
{
	SymCell n;
	{
		PTN_Engine e(TO::DETACHED);
		e.createPlace({ .name = "A", .onEnterAction = [&] { n.inc(); }, .input = true });
		e.createPlace({ .name = "B" });
		e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .requireNoActionsInExecution = true });
		e.setEventLoopSleepDuration(FOREVER);
		const bool running = sym_choice("running", 2);
		if (running) e.execute(false, sym_ostream());
		sym_faults(2, 0);
		uint64_t lo = 0;
		for (int i = 0; i < 2; i++)
		{
			const bool refused = fails([&] { e.incrementInputPlace("A"); });
			sym_cover(refused ? "refused" : "accepted");
			lo += !refused;
		}
		sym_faults(0, 0);
		sym_idle(0);
		if (!running) e.execute(false, sym_ostream());
		e.incrementInputPlace("A");
		lo++;
		sym_idle(1);
		CHECKP(33, n.get() == (long)lo, "an action whose thread was refused is not run, the others are");
		CHECKP(33, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") >= lo && e.getNumberOfTokens("B") <= 3, "accepted input moves on, also through transitions that wait for actions");
		CHECKP(33, e.isEventLoopRunning(), "the engine runs on");
		e.stop();
	}
}
#elif SCEN == 4
// Pausing, resuming and destroying a queue whose worker could not be started.
int main()
{
	SymCell n;
	{
		JobQueue q;
		if (sym_choice("active", 2)) q.activate();
		sym_faults(2, 0);
		q.addJob([&] { n.inc(); });
		for (int i = 0; i < 2; i++)
		{
			if (sym_choice("op", 2)) CHECKP(33, !fails([&] { q.activate(); }), "resuming returns");
			else q.deactivate();
		}
		sym_faults(0, 0);
		if (sym_choice("resume", 2))
		{
			q.deactivate();
			sym_idle(0);
			const long k = n.get();
			q.activate();
			q.addJob([&] { n.inc(); });
			sym_idle(0);
			CHECKP(33, n.get() == 2 && k <= 1, "every job is run once");
		}
	}
	CHECKP(33, n.get() <= 2, "no job is run twice");
	sym_cover("end");
}
#elif SCEN == 5
// Every editing or querying call, with any one allocation of it failing: the net is as before the call or as after it, nothing stays locked.
// a function whose copies need memory
struct Big
{
	SymCell *n;
	uint64_t fill[5];
	void operator()() const { n->inc(); }
};
struct BigCondition
{
	SymCell *n;
	uint64_t fill[5];
	bool operator()() const { n->inc(); return true; }
};
static SymCell other;
static std::unique_ptr<PTN_Engine> net(SymCell &n)
{
	auto p = std::make_unique<PTN_Engine>(TO::SINGLE_THREAD);
	PTN_Engine &e = *p;
	e.registerAction("act", Big{ &n });
	e.registerCondition("cond", BigCondition{ &n });
	e.createPlace({ .name = "A", .initialNumberOfTokens = 2, .onEnterActionFunctionName = "act", .input = true });
	e.createPlace({ .name = "B" });
	e.createPlace({ .name = "D", .initialNumberOfTokens = 1 });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .additionalConditionsNames = { "cond" } });
	return p;
}
static void op(PTN_Engine &e, uint64_t k)
{
	switch (k)
	{
	case 0: e.createPlace({ .name = "C", .onEnterActionFunctionName = "act" }); break;
	case 1: e.createTransition({ .name = "U", .activationArcs = { arc("A"), arc("B", 2) }, .destinationArcs = { arc("B") }, .inhibitorArcs = { arc("A") }, .additionalConditionsNames = { "cond" } }); break;
	case 2: e.createTransition({ .name = "U", .activationArcs = { arc("A") }, .additionalConditions = { BigCondition{ &other } } }); break;
	case 3: e.addArc(arc("B", 3, "T", AT::INHIBITOR)); break;
	case 4: e.addArc(arc("B", 3, "T", AT::ACTIVATION)); break;
	case 5: e.removeArc(arc("B", 1, "T", AT::DESTINATION)); break;
	case 6: e.clearNet(); break;
	case 7: e.registerAction("other", Big{ &other }); break;
	case 8: e.registerCondition("other", BigCondition{ &other }); break;
	case 9: e.incrementInputPlace("A"); break;
	case 10: e.setActionsThreadOption(TO::JOB_QUEUE); break;
	case 11: (void)e.getEventLoopSleepDuration(); (void)e.getActionsThreadOption(); (void)e.isEventLoopRunning(); break;
	case 12: e.printState(sym_ostream()); break;
	case 13: e.getPlacesProperties(); break;
	case 14: e.getTransitionsProperties(); break;
	case 15: e.setEventLoopSleepDuration(5ms); break;
	case 16: e.addArc(arc("D", 1, "T", AT::BIDIRECTIONAL)); break;
	}
}
int main()
{
	SymCell n, m;
	auto e = net(n), twin = net(m);
	const uint64_t k = sym_choice("op", 17);
	const Snapshot before(*e);
	op(*twin, k);
	const Snapshot after(*twin);
	sym_faults(0, 1);
	bool threw = false;
	try { op(*e, k); } catch (const std::exception &) { threw = true; }
	sym_faults(0, 0);
	sym_cover(threw ? "threw" : "worked");
	const Snapshot now(*e);
	CHECKP(34, threw ? now == before || now == after : now == after, "the net is as before or as after the call");
	if (k == 7 || k == 8)
	{
		// registered or not, but nothing in between
		const bool again = !fails([&] { op(*e, k); });
		CHECKP(34, !again || threw, "a function that has been registered stays so");
		const long c = other.get();
		CHECKP(34, !fails([&] {
			e->createPlace({ .name = "X", .onEnterActionFunctionName = k == 7 ? "other" : "", .input = true });
			e->createPlace({ .name = "Y" });
			e->createTransition({ .name = "V", .activationArcs = { arc("X") }, .destinationArcs = { arc("Y") }, .additionalConditionsNames = k == 7 ? std::vector<std::string>() : std::vector<std::string>{ "other" } });
			e->incrementInputPlace("X");
			e->execute();
		}), "the function can be used");
		CHECKP(34, e->getNumberOfTokens("Y") == 1 && (k == 7 ? other.get() == c + 1 : other.get() > c), "the function is the one registered");
		sym_cover("registered");
	}
	else if (threw && now == before)
		CHECKP(34, !fails([&] { op(*e, k); }) && after == Snapshot(*e), "the call can be made again");
	CHECKP(34, !fails([&] { if (e->getActionsThreadOption() != TO::SINGLE_THREAD) e->setActionsThreadOption(TO::SINGLE_THREAD); if (now.place("A")) e->execute(); }), "the net can be run");
	CHECKP(34, !fails([&] { e->clearNet(); e->createPlace({ .name = "A", .onEnterActionFunctionName = "act", .input = true }); e->incrementInputPlace("A"); }), "the engine can be used again");
}
#elif SCEN == 6
// A synchronous run, with any one allocation of it failing.
int main()
{
	SymCell in, out;
	PTN_Engine e(TO::SINGLE_THREAD);
	const bool wait = sym_choice("wait", 2);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 2, .onExitAction = [&] { out.inc(); } });
	e.createPlace({ .name = "B", .onEnterAction = [&] { in.inc(); } });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .requireNoActionsInExecution = wait });
	sym_faults(0, 1);
	const bool threw = fails([&] { e.execute(); });
	sym_faults(0, 0);
	sym_cover(threw ? "threw" : "worked");
	CHECKP(34, e.getNumberOfTokens("A") + e.getNumberOfTokens("B") == 2, "no token is lost or made");
	CHECKP(34, !fails([&] { e.execute(); }), "a later run works");
	CHECKP(34, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == 2, "a later run is a complete one");
	CHECKP(34, in.get() <= 2 && out.get() <= 2, "no action is run twice");
}
#elif SCEN == 7
// Starting, with any one allocation of the start failing.
int main()
{
	PTN_Engine e(ASYNC[sym_choice("mode", 3)]);
	e.createPlace({ .name = "A", .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
	e.setEventLoopSleepDuration(FOREVER);
	sym_config("no_preempt", 1);
	sym_faults(0, 1);
	const bool threw = fails([&] { e.execute(false, sym_ostream()); });
	sym_faults(0, 0);
	sym_config("no_preempt", 0);
	sym_cover(threw ? "threw" : "worked");
	CHECKP(34, e.isEventLoopRunning() == !threw, "the engine is running if the start worked");
	e.stop();
	CHECKP(34, !fails([&] { e.execute(false, sym_ostream()); }), "a later start works");
	e.incrementInputPlace("A");
	sym_idle(0);
	CHECKP(34, e.getNumberOfTokens("B") == 1, "a later run is a complete one");
}
#elif SCEN == 8
// Adding, pausing and resuming jobs, with any one allocation failing.
int main()
{
	SymCell n, m;
	uint64_t lo = 0, hi = 0;
	bool threw = false;
	{
		JobQueue q;
		q.activate();
		if (sym_choice("warm", 2))
		{
			q.addJob([&] { n.inc(); });
			sym_idle(0);
			lo++;
			hi++;
		}
		const std::function<void()> job = [&] { n.inc(); };
		auto guarded = [&](auto f) {
			sym_faults(0, 1);
			const bool failed = fails(f);
			sym_faults(0, 0);
			sym_cover(failed ? "threw" : "worked");
			threw |= failed;
			return failed;
		};
		// only the thread that makes the call is short of memory
		sym_config("no_preempt", 1);
		hi++;
		lo += !guarded([&] { q.addJob(job); });
		sym_config("no_preempt", 0);
		if (sym_choice("pause", 2))
		{
			q.deactivate();
			q.activate();
		}
		q.addJob([&] { m.inc(); });
		sym_idle(0);
		CHECKP(34, m.get() == 1, "a later job is run");
		CHECKP(34, n.get() >= (long)lo && n.get() <= (long)hi, "an accepted job is run, none twice");
	}
}
#elif SCEN == 9
// Input with an action, in every mode, with any one allocation failing.
int main()
{
	SymCell in;
	{
		PTN_Engine e(ASYNC[sym_choice("mode", 3)]);
		e.createPlace({ .name = "A", .onEnterAction = [&] { in.inc(); }, .input = true });
		e.createPlace({ .name = "B" });
		e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .requireNoActionsInExecution = true });
		e.setEventLoopSleepDuration(FOREVER);
		sym_config("no_preempt", 1);
		sym_faults(0, 1);
		const bool threw = fails([&] { e.incrementInputPlace("A"); });
		sym_faults(0, 0);
		sym_config("no_preempt", 0);
		sym_cover(threw ? "threw" : "worked");
		const uint64_t a = e.getNumberOfTokens("A");
		CHECKP(34, threw ? a <= 1 : a == 1, "the token is there or not");
		CHECKP(34, !fails([&] { e.incrementInputPlace("A"); e.execute(false, sym_ostream()); }), "later input and a run work");
		sym_idle(1);
		CHECKP(34, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == a + 1, "all input moves on, also through transitions that wait for actions");
		CHECKP(34, in.get() >= 2 - threw && in.get() <= 2, "the action of accepted input is run once");
		e.stop();
	}
}
#elif SCEN == 10
// Changing the mode, with any one allocation failing: reported mode and behaviour agree.
int main()
{
	static const TO ALL[] = { TO::SINGLE_THREAD, TO::EVENT_LOOP, TO::JOB_QUEUE, TO::DETACHED };
	SymCell decides, acts[2], n;
	{
		const TO from = ALL[sym_choice("from", 4)], to = ALL[sym_choice("to", 4)];
		PTN_Engine e(from);
		// input, as opposed to tokens, starts actions under the executor in use
		e.createPlace({ .name = "A", .initialNumberOfTokens = 2, .onExitAction = [&] { const long i = n.get(); n.inc(); if (i < 2) acts[i].set(sym_tid()); } });
		e.createPlace({ .name = "B" });
		e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .additionalConditions = { [&] { decides.set(sym_tid()); return true; } }, .requireNoActionsInExecution = true });
		e.setEventLoopSleepDuration(FOREVER);
		sym_config("no_preempt", 1);
		sym_faults(0, 1);
		const bool threw = fails([&] { e.setActionsThreadOption(to); });
		sym_faults(0, 0);
		sym_config("no_preempt", 0);
		sym_cover(threw ? "threw" : "worked");
		const TO now = e.getActionsThreadOption();
		CHECKP(34, threw ? now == from || now == to : now == to, "the mode is as before or as after the call");
		CHECKP(34, !fails([&] { e.execute(false, sym_ostream()); }), "a run works");
		CHECKP(34, now != TO::SINGLE_THREAD || e.getNumberOfTokens("B") == 2, "a synchronous run is complete when it returns");
		sym_idle(1);
		CHECKP(34, e.getNumberOfTokens("B") == 2 && n.get() == 2, "the net runs to its end");
		const bool synchronous = decides.get() == (long)sym_tid(), inPlace = acts[0].get() == decides.get(), together = acts[0].get() == acts[1].get();
		CHECKP(34, synchronous == (now == TO::SINGLE_THREAD), "the net is run as reported");
		CHECKP(34, inPlace == (now == TO::SINGLE_THREAD || now == TO::EVENT_LOOP), "actions are run as reported");
		CHECKP(34, now != TO::DETACHED || !together, "detached actions get a thread each");
		e.stop();
	}
}
#endif
