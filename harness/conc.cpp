// The running engine: start, stop, restart, input, rest, modes. All interleavings within the preemption bound.
//@run prop=C17 name=wake kind=conc q=0,1,2 t=0,1,2,3 covers=end define=SCEN=0
//@run prop=C17 name=wake-early kind=conc early=2 q=1 t=1,2 covers=end define=SCEN=0
//@run prop=C17 name=wake-chain kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=1
//@run prop=C17,C20 name=wake-two-threads kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=2
//@run prop=C17 name=wake-weights kind=conc q=0,1 t=0,1,2 covers=end,one define=SCEN=3
//@run prop=C15 name=stop kind=conc early=2 q=0,1,2 t=0,1,2,3 covers=end,stopped-early,stopped-late define=SCEN=4
//@run prop=C15 name=stop-livelock kind=conc q=0,1,2 t=0,1,2,3 covers=end define=SCEN=5
//@run prop=C15 name=destroy kind=conc q=0,1 t=0,1,2,3 covers=end define=SCEN=6
//@run prop=C15,C14 name=stop-from-two kind=conc q=0,1 t=0,1,2,3 covers=end define=SCEN=7
//@run prop=C15 name=stop-latency kind=conc q=0,1,2 t=0,1,2,3 covers=end define=SCEN=8
//@run prop=C16 name=restart kind=conc early=2 q=0,1,2 t=0,1,2,3 covers=end define=SCEN=9
//@run prop=C16,C17 name=restart-input kind=conc q=0,1,2 t=0,1,2 covers=end define=SCEN=10
//@run prop=C16 name=restart-complete kind=conc q=0 t=0,1 covers=end,sync-again,async-again define=SCEN=17,RUNS=3,LESS=0
//@run prop=C16 name=restart-complete-sched kind=conc q=1 t=1,2 covers=end,async-again define=SCEN=17,RUNS=2,LESS=1 tdefine=RUNS=3
//@run prop=C14 name=state-ops kind=conc q=0 t=0 covers=running,stopped,rejected define=SCEN=11,NOPS=3 tdefine=NOPS=4
//@run prop=C14 name=state-ops-sched kind=conc q=1 t=1,2 covers=running,stopped,rejected define=SCEN=11,NOPS=2 tdefine=NOPS=3
//@run prop=C14 name=guards kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=12
//@run prop=C29 name=sleep-value kind=conc q=0,1 t=0,1,2 covers=end,huge,negative define=SCEN=13
//@run prop=C29 name=sleep-while-resting kind=conc q=0,1,2 t=0,1,2,3 covers=end define=SCEN=14
//@run prop=C25 name=modes kind=conc q=0,1 t=0,1,2 covers=single,loop,detached,queue define=SCEN=15
//@run prop=C25 name=mode-change kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=16
#include "common.h"
#include "snap.h"
#include <chrono>
#include <memory>
#include <mutex>
#include <thread>
using namespace std::chrono_literals;
static TO asyncMode()
{
	static const TO m[] = { TO::JOB_QUEUE, TO::EVENT_LOOP, TO::DETACHED };
	return m[sym_choice("mode", 3)];
}
// A -> T -> B
static void simple(PTN_Engine &e, uint64_t a = 0, uint64_t w = 1)
{
	e.createPlace({ .name = "A", .initialNumberOfTokens = a, .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A", w) }, .destinationArcs = { arc("B") } });
}
static const auto FOREVER = 24h * 365;

#if SCEN == 0
// Inputs at any moment relative to the loop's work and rest; no time passes, so only wake-ups can lead to the firings.
int main()
{
	PTN_Engine e(asyncMode());
	simple(e);
	e.setEventLoopSleepDuration(FOREVER);
	const uint64_t before = sym_choice("before", 2), after = 1 + sym_choice("after", 2);
	for (uint64_t i = 0; i < before; i++) e.incrementInputPlace("A");
	e.execute(false, sym_ostream());
	if (sym_choice("let-it-rest", 2)) sym_idle(0);
	for (uint64_t i = 0; i < after; i++) e.incrementInputPlace("A");
	sym_idle(0);
	CHECKP(17, e.getNumberOfTokens("A") == 0, "every accepted input is consumed without further input or time passing");
	CHECKP(17, e.getNumberOfTokens("B") == before + after, "the number of firings is the number of inputs");
	sym_cover("end");
	e.stop();
}
#elif SCEN == 1
// The firing of one transition enables the next; each of them must happen.
int main()
{
	PTN_Engine e(TO::JOB_QUEUE);
	e.createPlace({ .name = "A", .input = true });
	e.createPlace({ .name = "B" });
	e.createPlace({ .name = "C" });
	e.createPlace({ .name = "D", .initialNumberOfTokens = 1 });
	e.createTransition({ .name = "U", .activationArcs = { arc("B") }, .destinationArcs = { arc("C") } });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
	e.createTransition({ .name = "V", .activationArcs = { arc("D"), arc("C") }, .destinationArcs = { arc("D") } });
	e.setEventLoopSleepDuration(FOREVER);
	e.execute(false, sym_ostream());
	e.incrementInputPlace("A");
	if (sym_choice("second", 2)) e.incrementInputPlace("A");
	sym_idle(0);
	CHECKP(17, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == 0 && e.getNumberOfTokens("C") == 0, "everything an input leads to happens");
	CHECKP(17, e.getNumberOfTokens("D") == 1, "no token is lost or made up");
	sym_cover("end");
}
#elif SCEN == 2
// Inputs from two threads to one running net.
int main()
{
	PTN_Engine e(TO::JOB_QUEUE);
	simple(e);
	e.createPlace({ .name = "A2", .input = true });
	e.createTransition({ .name = "U", .activationArcs = { arc("A2") }, .destinationArcs = { arc("B") } });
	e.setEventLoopSleepDuration(FOREVER);
	e.execute(false, sym_ostream());
	const bool same = sym_choice("same-place", 2);
	std::thread th([&] { e.incrementInputPlace(same ? "A" : "A2"); });
	e.incrementInputPlace("A");
	th.join();
	sym_idle(0);
	CHECKP(17, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("A2") == 0 && e.getNumberOfTokens("B") == 2, "every input of every thread is consumed");
	CHECKP(20, e.getNumberOfTokens("A") + e.getNumberOfTokens("A2") + e.getNumberOfTokens("B") == 2, "no input is lost when several threads give input");
	sym_cover("end");
}
#elif SCEN == 3
// A transition that needs several tokens, an initial marking, and an inhibited or additional condition opened by input.
int main()
{
	PTN_Engine e(TO::EVENT_LOOP);
	const uint64_t w = 1 + sym_choice("w", 3), a = sym_choice("a", 2), n = 1 + sym_choice("n", 3);
	simple(e, a, w);
	e.setEventLoopSleepDuration(FOREVER);
	e.execute(false, sym_ostream());
	for (uint64_t i = 0; i < n; i++) e.incrementInputPlace("A");
	sym_idle(0);
	CHECKP(17, e.getNumberOfTokens("B") == (a + n) / w && e.getNumberOfTokens("A") == (a + n) % w, "the transition fires as often as the input allows");
	if ((a + n) / w) sym_cover("one");
	sym_cover("end");
}
#elif SCEN == 4
// stop at any moment: it returns, nothing fires afterwards, tokens added meanwhile stay.
int main()
{
	SymCell fired;
	PTN_Engine e(asyncMode());
	e.createPlace({ .name = "A", .initialNumberOfTokens = 2, .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .additionalConditions = { [&] { fired.inc(); return true; } } });
	e.setEventLoopSleepDuration(sym_choice("forever", 2) ? PTN_Engine::EventLoopSleepDuration(FOREVER) : PTN_Engine::EventLoopSleepDuration(10ms));
	e.execute(false, sym_ostream());
	e.stop();
	const uint64_t a = e.getNumberOfTokens("A"), b = e.getNumberOfTokens("B"), f = fired.get();
	CHECKP(15, a + b == 2, "no token is lost by stopping");
	CHECKP(15, !e.isEventLoopRunning(), "a stopped engine does not run");
	sym_cover(a ? "stopped-early" : "stopped-late");
	e.incrementInputPlace("A");
	sym_idle(3);
	CHECKP(15, e.getNumberOfTokens("A") == a + 1 && e.getNumberOfTokens("B") == b, "no token moves once stop has returned");
	CHECKP(15, (uint64_t)fired.get() == f, "no transition is attempted once stop has returned");
	e.stop();
	e.execute(false, sym_ostream());
	sym_idle(3);
	CHECKP(15, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == 3, "tokens added while stopped are used by the next run");
	sym_cover("end");
}
#elif SCEN == 5
// A net that never comes to rest can be stopped all the same.
int main()
{
	SymCell conditions;
	PTN_Engine e(asyncMode());
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
	e.createTransition({ .name = "U", .activationArcs = { arc("B") }, .destinationArcs = { arc("A") }, .additionalConditions = { [&] { conditions.inc(); std::this_thread::sleep_for(1ms); return true; } } });
	e.execute(false, sym_ostream());
	if (sym_choice("wait", 2)) std::this_thread::sleep_for(5ms);
	e.stop();
	const uint64_t a = e.getNumberOfTokens("A"), b = e.getNumberOfTokens("B");
	const long n = conditions.get();
	CHECKP(15, a + b == 1, "the token is in one of the two places");
	std::this_thread::sleep_for(10ms);
	CHECKP(15, e.getNumberOfTokens("A") == a && e.getNumberOfTokens("B") == b && conditions.get() == n, "nothing fires once stop has returned");
	sym_cover("end");
}
#elif SCEN == 6
// Destroying a running engine at any moment; user functions are not called afterwards.
int main()
{
	SymCell gone, late;
	auto alive = std::make_unique<int>(1);
	int *p = alive.get();
	const TO mode = sym_choice("queue", 2) ? TO::JOB_QUEUE : TO::EVENT_LOOP;
	auto act = [p, &gone, &late] { if (gone.get()) late.inc(); else *p += 1; };
	{
		PTN_Engine e(mode);
		e.createPlace({ .name = "A", .initialNumberOfTokens = 1, .onExitAction = act, .input = true });
		e.createPlace({ .name = "B", .onEnterAction = act });
		e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .additionalConditions = { [&] { if (gone.get()) late.inc(); return true; } } });
		e.setEventLoopSleepDuration(FOREVER);
		const uint64_t c0 = sym_clock();
		e.execute(false, sym_ostream());
		if (sym_choice("input", 2)) e.incrementInputPlace("A");
		if (sym_choice("idle", 2)) sym_idle(0);
		(void)c0;
	}
	gone.set(1);
	alive.reset();
	sym_idle(3);
	CHECKP(15, late.get() == 0, "no action or condition runs once the engine is gone");
	sym_cover("end");
}
#elif SCEN == 7
// Two threads stop the same engine.
int main()
{
	PTN_Engine e(asyncMode());
	simple(e, 1);
	e.setEventLoopSleepDuration(FOREVER);
	e.execute(false, sym_ostream());
	std::thread th([&] { e.stop(); });
	e.stop();
	CHECKP(14, !e.isEventLoopRunning(), "after stop the engine does not report to be running");
	CHECKP(15, !e.isEventLoopRunning(), "after stop the engine does not report to be running");
	th.join();
	e.stop();
	CHECKP(15, e.getNumberOfTokens("A") + e.getNumberOfTokens("B") == 1, "no token is lost");
	sym_cover("end");
}
#elif SCEN == 8
// stop and destruction do not wait for the rest of the loop to be over.
int main()
{
	const uint64_t c0 = sym_clock();
	{
		PTN_Engine e(asyncMode());
		simple(e);
		e.setEventLoopSleepDuration(FOREVER);
		e.execute(false, sym_ostream());
		if (sym_choice("idle", 2)) sym_idle(0);
		if (sym_choice("stop", 2))
		{
			e.stop();
			CHECKP(15, sym_clock() - c0 < 60'000'000'000ull, "stop does not wait for a resting loop");
		}
	}
	CHECKP(15, sym_clock() - c0 < 60'000'000'000ull, "destruction does not wait for a resting loop");
	sym_cover("end");
}
#elif SCEN == 9
// start, stop, start, stop, ... without pause.
int main()
{
	PTN_Engine e(asyncMode());
	simple(e, 2);
	e.setEventLoopSleepDuration(FOREVER);
	const int runs = SYM_TIER ? 4 : 3;
	for (int i = 0; i < runs; i++)
	{
		e.execute(false, sym_ostream());
		CHECKP(16, e.isEventLoopRunning(), "every start is a real one");
		if (i + 1 < runs) e.stop();
	}
	sym_idle(0);
	CHECKP(16, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == 2, "every run is a complete one: the tokens are used by then");
	e.stop();
	CHECKP(16, !e.isEventLoopRunning(), "and every stop too");
	sym_cover("end");
}
#elif SCEN == 10
// Input before, during and after each of two runs.
int main()
{
	PTN_Engine e(sym_choice("queue", 2) ? TO::JOB_QUEUE : TO::EVENT_LOOP);
	simple(e);
	e.setEventLoopSleepDuration(FOREVER);
	uint64_t n = 0;
	auto input = [&](const char *when) { if (sym_choice(when, 2)) { e.incrementInputPlace("A"); n++; } };
	e.execute(false, sym_ostream());
	input("during");
	e.stop();
	input("between");
	e.execute(false, sym_ostream());
	input("again");
	sym_idle(0);
	CHECKP(16, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == n, "no input is lost by restarting");
	CHECKP(17, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == n, "no input is lost by restarting");
	sym_cover("end");
}
#elif SCEN == 11
// Every sequence of NOPS calls; the engine's state follows the model.
int main()
{
	static const TO modes[] = { TO::JOB_QUEUE, TO::EVENT_LOOP, TO::DETACHED, TO::SINGLE_THREAD };
	TO mode = modes[sym_choice("mode", 4)];
	PTN_Engine e(mode);
	simple(e, 1);
	e.setEventLoopSleepDuration(FOREVER);
	bool running = false, net = true, inh = false;
	for (int i = 0; i < NOPS; i++)
	{
		bool failed = false, want = false;
		switch (sym_choice("op", 8))
		{
		case 0:
			failed = fails([&] { e.execute(false, sym_ostream()); });
			want = running;
			if (!failed) running = mode != TO::SINGLE_THREAD;
			break;
		case 1:
			failed = fails([&] { e.stop(); });
			running = false;
			break;
		case 2:
			failed = fails([&] { e.clearNet(); });
			want = running;
			if (!failed) net = inh = false;
			break;
		case 3:
			failed = fails([&] { e.addArc(arc("B", 1, "T", AT::INHIBITOR)); });
			want = running || !net || inh;
			if (!failed) inh = true;
			break;
		case 4:
			failed = fails([&] { e.removeArc(arc("B", 1, "T", AT::INHIBITOR)); });
			want = running || !net || !inh;
			if (!failed) inh = false;
			break;
		case 5:
		{
			const TO m = modes[sym_choice("new-mode", 4)];
			failed = fails([&] { e.setActionsThreadOption(m); });
			want = running;
			if (!failed) mode = m;
			break;
		}
		case 6:
			failed = fails([&] { e.incrementInputPlace("A"); });
			want = !net;
			break;
		case 7:
			sym_idle(0);
			break;
		}
		CHECKP(14, failed == want, "a call fails exactly when the state of the engine forbids it");
		CHECKP(14, e.isEventLoopRunning() == running, "the engine reports to be running from start to stop");
		CHECKP(14, e.getActionsThreadOption() == mode, "a rejected mode change has no effect");
		const Snapshot s(e);
		CHECKP(14, s.places.size() == (net ? 2 : 0) && s.transitions.size() == (net ? 1 : 0), "a rejected change of the structure has no effect");
		if (net) CHECKP(14, s.transitions[0].inhibitorArcs.size() == (inh ? 1 : 0) && s.transitions[0].activationArcs.size() == 1 && s.transitions[0].destinationArcs.size() == 1, "a rejected change of an arc has no effect");
		sym_cover(running ? "running" : "stopped");
		if (failed) sym_cover("rejected");
	}
	e.stop();
	CHECKP(14, !e.isEventLoopRunning(), "stop ends the run");
}
#elif SCEN == 12
// The loop works and rests while the guards are tried.
int main()
{
	PTN_Engine e(TO::JOB_QUEUE);
	simple(e, 2);
	e.execute(false, sym_ostream());
	CHECKP(14, e.isEventLoopRunning(), "running right after a successful start");
	CHECKP(14, fails([&] { e.execute(false, sym_ostream()); }), "starting a running engine fails");
	switch (sym_choice("op", 4))
	{
	case 0: CHECKP(14, fails([&] { e.clearNet(); }), "clearing a running net fails"); break;
	case 1: CHECKP(14, fails([&] { e.addArc(arc("B", 1, "T", AT::ACTIVATION)); }), "adding an arc to a running net fails"); break;
	case 2: CHECKP(14, fails([&] { e.removeArc(arc("A", 1, "T", AT::ACTIVATION)); }), "removing an arc from a running net fails"); break;
	case 3: CHECKP(14, fails([&] { e.setActionsThreadOption(TO::DETACHED); }), "changing the mode of a running net fails"); break;
	}
	CHECKP(14, e.isEventLoopRunning() && e.getActionsThreadOption() == TO::JOB_QUEUE, "a rejected request does not stop the engine");
	sym_idle(1);
	CHECKP(14, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == 2, "the net behaves as before the rejected request");
	CHECKP(14, e.isEventLoopRunning(), "still running");
	e.stop();
	CHECKP(14, !e.isEventLoopRunning(), "stopped");
	sym_cover("end");
}
#elif SCEN == 13
// Every 64-bit sleep duration.
int main()
{
	PTN_Engine e(TO::EVENT_LOOP);
	simple(e, 1);
	using D = PTN_Engine::EventLoopSleepDuration;
	CHECKP(29, e.getEventLoopSleepDuration() == D(100), "initially 100 ms");
	const long d = (long)sym_u64("duration");
	e.setEventLoopSleepDuration(D(d));
	CHECKP(29, e.getEventLoopSleepDuration().count() == d, "the duration reported is the one set");
	sym_assume((d > 10) | (d < 0)); // very short rests only make the exploration longer
	if (d > 100000000000000l) sym_cover("huge");
	if (d < 0) sym_cover("negative");
	if (d >= 0)
	{
		e.execute(false, sym_ostream());
		e.incrementInputPlace("A");
		sym_idle(1);
		CHECKP(29, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == 2, "what fires does not depend on the duration");
		CHECKP(29, e.getEventLoopSleepDuration().count() == d, "running does not change it");
		e.stop();
	}
	sym_cover("end");
}
#elif SCEN == 14
// Setting and reading the duration while the loop works or rests.
int main()
{
	PTN_Engine e(TO::JOB_QUEUE);
	simple(e, 1);
	using D = PTN_Engine::EventLoopSleepDuration;
	e.setEventLoopSleepDuration(FOREVER);
	e.execute(false, sym_ostream());
	const uint64_t c0 = sym_clock();
	if (sym_choice("idle", 2)) sym_idle(0);
	e.setEventLoopSleepDuration(D(7));
	CHECKP(29, sym_clock() - c0 < 60'000'000'000ull, "setting the duration does not wait for the end of the rest");
	CHECKP(29, e.getEventLoopSleepDuration() == D(7), "the duration reported is the one set last");
	const uint64_t c1 = sym_clock();
	e.setEventLoopSleepDuration(D(3'600'000));
	CHECKP(29, sym_clock() - c1 < 60'000'000'000ull, "setting the duration does not wait for it either");
	e.setEventLoopSleepDuration(D(7));
	std::thread th([&] { e.setEventLoopSleepDuration(D(9)); });
	const D d = e.getEventLoopSleepDuration();
	CHECKP(29, d == D(7) || d == D(9), "the duration reported is one that was set");
	th.join();
	CHECKP(29, e.getEventLoopSleepDuration() == D(9), "the duration reported is the one set last");
	sym_idle(1);
	CHECKP(29, e.getNumberOfTokens("B") == 1, "the net runs as usual");
	sym_cover("end");
}
#elif SCEN == 15
// Where actions run, how often, and the resulting marking, in each mode.
int main()
{
	static const TO modes[] = { TO::SINGLE_THREAD, TO::EVENT_LOOP, TO::DETACHED, TO::JOB_QUEUE };
	static const char *const names[] = { "single", "loop", "detached", "queue" };
	const size_t m = sym_choice("mode", 4);
	const bool viaSetter = sym_choice("via-setter", 2);
	SymCell loopTid, exits, entries, otherThread[4];
	for (auto &x : otherThread) x.set(-1);
	loopTid.set(-1);
	PTN_Engine e(viaSetter ? modes[(m + 1) % 4] : modes[m]);
	const uint64_t a = 1 + (SYM_TIER ? sym_choice("a", 2) : 0);
	e.createPlace({ .name = "A", .initialNumberOfTokens = a, .onExitAction = [&] { otherThread[exits.inc() & 1].set(sym_tid()); } });
	e.createPlace({ .name = "B", .onEnterAction = [&] { otherThread[2 + (entries.inc() & 1)].set(sym_tid()); } });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .additionalConditions = { [&] { loopTid.set(sym_tid()); return true; } } });
	if (viaSetter) e.setActionsThreadOption(modes[m]);
	CHECKP(25, e.getActionsThreadOption() == modes[m], "the mode reported is the one set last");
	e.execute(false, sym_ostream());
	if (modes[m] == TO::SINGLE_THREAD)
	{
		CHECKP(25, !e.isEventLoopRunning(), "a synchronous run is over when execute returns");
		CHECKP(25, exits.get() == (long)a && entries.get() == (long)a, "all actions have run when execute returns");
	}
	else
		sym_idle(2);
	CHECKP(25, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == a, "the final marking does not depend on the mode");
	CHECKP(25, exits.get() == (long)a && entries.get() == (long)a, "every action runs exactly once");
	if (sym_engine())
		for (int i = 0; i < 4; i++)
		{
			const long t = otherThread[i].get();
			if (t < 0) continue;
			if (modes[m] == TO::SINGLE_THREAD) CHECKP(25, t == 0, "single-thread mode: actions run on the caller's thread");
			else if (modes[m] == TO::EVENT_LOOP) CHECKP(25, t == loopTid.get() && t != 0, "event-loop mode: the actions of firings run on the loop's thread");
			else CHECKP(25, t != 0 && t != loopTid.get(), "actions run on another thread");
		}
	sym_cover(names[m]);
	e.stop();
}
#elif SCEN == 16
// The mode of a stopped engine is changed between runs; net and marking stay.
int main()
{
	static const TO modes[] = { TO::SINGLE_THREAD, TO::EVENT_LOOP, TO::DETACHED, TO::JOB_QUEUE };
	SymCell runs;
	const TO m1 = modes[sym_choice("m1", 4)], m2 = modes[sym_choice("m2", 4)];
	PTN_Engine e(m1);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1, .onExitAction = [&] { runs.inc(); }, .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
	e.execute(false, sym_ostream());
	if (m1 != TO::SINGLE_THREAD) { sym_idle(1); e.stop(); }
	e.incrementInputPlace("A");
	const Snapshot before(e);
	e.setActionsThreadOption(m2);
	CHECKP(25, e.getActionsThreadOption() == m2, "the mode reported is the one set last");
	CHECKP(25, before == Snapshot(e), "changing the mode keeps net and marking");
	e.execute(false, sym_ostream());
	if (m2 != TO::SINGLE_THREAD) sym_idle(1);
	CHECKP(25, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == 2, "the run in the new mode ends in the marking of the firing rule");
	CHECKP(25, runs.get() == 2, "every action runs exactly once, also after the mode has changed");
	e.stop();
	sym_cover("end");
}
#elif SCEN == 17
// Each run is as good as the first one: actions run, conditions are asked, transitions wait for actions, input is taken.
int main()
{
	static const TO modes[] = { TO::SINGLE_THREAD, TO::EVENT_LOOP, TO::DETACHED, TO::JOB_QUEUE };
	SymCell entered, left, asked, arrived;
	size_t m = LESS ? 3 - 2 * sym_choice("mode", 2) : sym_choice("mode", 4);
	PTN_Engine e(modes[m]);
	e.createPlace({ .name = "I", .onEnterAction = [&] { entered.inc(); }, .onExitAction = [&] { left.inc(); }, .input = true });
	e.createPlace({ .name = "Q", .onEnterAction = [&] { arrived.inc(); } });
	e.createPlace({ .name = "R" });
	e.createTransition({ .name = "T", .activationArcs = { arc("I") }, .destinationArcs = { arc("Q") }, .additionalConditions = { [&] { asked.inc(); return true; } } });
	e.createTransition({ .name = "W", .activationArcs = { arc("Q") }, .destinationArcs = { arc("R") }, .requireNoActionsInExecution = true });
	e.setEventLoopSleepDuration(1ms);
	for (long run = 1; run <= RUNS; run++)
	{
		if (!LESS && run > 1 && sym_choice("change-mode", 2)) { m = (m + 1) % 4; e.setActionsThreadOption(modes[m]); }
		const bool sync = modes[m] == TO::SINGLE_THREAD, early = sync || LESS || sym_choice("input-first", 2);
		const long askedBefore = asked.get();
		if (early) e.incrementInputPlace("I");
		e.execute(false, sym_ostream());
		if (!early) e.incrementInputPlace("I");
		if (!sync) sym_idle(6);
		CHECKP(16, e.isEventLoopRunning() == !sync, "every start is a real one");
		CHECKP(16, e.getNumberOfTokens("I") == 0 && e.getNumberOfTokens("Q") == 0 && e.getNumberOfTokens("R") == (uint64_t)run, "every run fires what can fire");
		CHECKP(16, entered.get() == run && left.get() == run && arrived.get() == run, "in every run the actions are run");
		CHECKP(16, asked.get() > askedBefore, "in every run the conditions are asked");
		e.stop();
		CHECKP(16, !e.isEventLoopRunning(), "and every stop is one");
		if (run > 1 && sync) sym_cover("sync-again");
		if (run > 1 && !sync) sym_cover("async-again");
	}
	sym_cover("end");
}
#endif
