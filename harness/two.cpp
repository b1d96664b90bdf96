// Several engines in one program: none of them notices the others.
//@run prop=C35 name=calls kind=seq covers=end,destroyed define=SCEN=0,NOPS=2 tdefine=NOPS=3 ttime=900
//@run prop=C35 name=running kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=1
//@run prop=C35 name=threads kind=conc q=0,1 t=0,1,2,3 covers=end define=SCEN=2
//@run prop=C35 name=pending kind=conc q=0 t=0,1 covers=end define=SCEN=3
#include "common.h"
#include "snap.h"
#include <chrono>
#include <memory>
#include <thread>
using namespace std::chrono_literals;
static const auto FOREVER = 24h * 365;
static const TO MODES[] = { TO::JOB_QUEUE, TO::EVENT_LOOP, TO::DETACHED, TO::SINGLE_THREAD };

#if SCEN == 0
// Calls on one engine; the other, of the same description, is as it was and works as if it were alone.
struct Net
{
	std::string log;
	PTN_Engine e{ TO::SINGLE_THREAD };
	Net(uint64_t tok, uint64_t w)
	{
		e.registerAction("f", [this] { log += 'f'; });
		e.registerCondition("c", [this] { return log.size() < 5; });
		e.createPlace({ .name = "A", .initialNumberOfTokens = tok, .onEnterActionFunctionName = "f", .input = true });
		e.createPlace({ .name = "B", .onEnterAction = [this] { log += 'b'; } });
		e.createTransition({ .name = "T", .activationArcs = { arc("A", w) }, .destinationArcs = { arc("B", w) }, .additionalConditionsNames = { "c" } });
	}
};
int main()
{
	const uint64_t tok = sym_u64("tok"), w = sym_u64("w");
	sym_assume((w != 0) & (tok < w) & (w - tok == 1)); // one more input lets T fire
	std::unique_ptr<Net> a, b;
	if (sym_choice("first", 2)) a = std::make_unique<Net>(3, 1);
	b = std::make_unique<Net>(tok, w);
	if (!a) a = std::make_unique<Net>(3, 1);
	const Snapshot before(b->e);
	for (int i = 0; i < NOPS && a; i++)
	{
		PTN_Engine &e = a->e;
		fails([&] {
			switch (sym_choice("op", 14))
			{
			case 0: e.incrementInputPlace("A"); break;
			case 1: e.execute(); break;
			case 2: e.clearNet(); break;
			case 3: e.addArc(arc("B", 3, "T", AT::INHIBITOR)); break;
			case 4: e.removeArc(arc("A", 1, "T", AT::ACTIVATION)); break;
			case 5: e.registerAction("g", [] {}); e.registerCondition("d", [] { return true; }); break;
			case 6: e.createPlace({ .name = "C", .initialNumberOfTokens = 9 }); break;
			case 7: e.createTransition({ .name = "U", .activationArcs = { arc("A", 2) } }); break;
			case 8: e.setEventLoopSleepDuration(7ms); break;
			case 9: e.setActionsThreadOption(TO::EVENT_LOOP); break;
			case 10: e.stop(); break;
			case 11: e.printState(sym_ostream()); break;
			case 12: a.reset(); sym_cover("destroyed"); break;
			default: a.reset(); a = std::make_unique<Net>(3, 1); break;
			}
		});
	}
	PTN_Engine &e = b->e;
	CHECKP(35, Snapshot(e) == before && b->log.empty(), "what is done to one engine leaves the net of the other alone");
	CHECKP(35, e.getActionsThreadOption() == TO::SINGLE_THREAD && e.getEventLoopSleepDuration() == PTN_Engine(TO::SINGLE_THREAD).getEventLoopSleepDuration() && !e.isEventLoopRunning(), "and its settings too");
	const std::string other = a ? a->log : "";
	e.registerAction("g", [] {});
	e.registerCondition("d", [] { return true; });
	e.createPlace({ .name = "C", .initialNumberOfTokens = 1 });
	e.createTransition({ .name = "U", .activationArcs = { arc("C") } });
	e.incrementInputPlace("A");
	e.execute();
	CHECKP(35, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == w && e.getNumberOfTokens("C") == 0 && b->log == "fb", "it works as if it were alone");
	CHECKP(35, !a || a->log == other, "and leaves the first one alone in turn");
	PTN_Engine c(TO::SINGLE_THREAD);
	CHECKP(35, c.getPlacesProperties().empty() && c.getTransitionsProperties().empty(), "a new engine is empty");
	sym_cover("end");
}
#else
static void simple(PTN_Engine &e)
{
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1, .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
	e.setEventLoopSleepDuration(FOREVER);
}
#if SCEN == 1
// Two running engines; what happens to the first does not keep the second from working.
int main()
{
	const uint64_t m = sym_choice("modes", 3);
	auto a = std::make_unique<PTN_Engine>(MODES[m]);
	PTN_Engine b(MODES[(m + (SYM_TIER ? sym_choice("other", 3) : 0)) % 3]);
	SymCell acts;
	simple(*a);
	simple(b);
	b.createPlace({ .name = "C", .onEnterAction = [&] { acts.inc(); }, .input = true });
	a->execute(false, sym_ostream());
	b.execute(false, sym_ostream());
	switch (sym_choice("op", 5))
	{
	case 0: a->incrementInputPlace("A"); break;
	case 1: a->stop(); break;
	case 2: a.reset(); break;
	case 3: a->stop(); a->clearNet(); simple(*a); a->execute(false, sym_ostream()); break;
	default: break;
	}
	CHECKP(35, b.isEventLoopRunning(), "the other engine runs on");
	b.incrementInputPlace("A");
	b.incrementInputPlace("C");
	sym_idle(0);
	CHECKP(35, b.getNumberOfTokens("A") == 0 && b.getNumberOfTokens("B") == 2 && b.getNumberOfTokens("C") == 1, "the other engine consumes its input");
	CHECKP(35, acts.get() == 1, "the other engine runs its actions");
	b.stop();
	CHECKP(35, !b.isEventLoopRunning(), "the other engine can be stopped");
	if (a && a->isEventLoopRunning())
	{
		a->incrementInputPlace("A");
		sym_idle(0);
		CHECKP(35, a->getNumberOfTokens("A") == 0 && a->isEventLoopRunning(), "the first engine runs on when the other has been stopped");
	}
	sym_cover("end");
}
#elif SCEN == 2
// Two threads, each with an engine of its own, need not know of each other.
static uint64_t work(int k, TO mode, SymCell &acts)
{
	PTN_Engine e(mode);
	e.registerAction("f", [&] { acts.inc(); });
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1u + k, .onEnterActionFunctionName = "f", .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
	if (mode == TO::SINGLE_THREAD)
	{
		e.createPlace({ .name = "C", .initialNumberOfTokens = 1 });
		e.createTransition({ .name = "U", .activationArcs = { arc("C") }, .destinationArcs = { arc("B") } });
	}
	e.incrementInputPlace("A");
	if (mode == TO::SINGLE_THREAD) e.execute();
	return 100 * e.getNumberOfTokens("A") + e.getNumberOfTokens("B");
}
int main()
{
	const uint64_t m = sym_choice("mode", 2), n = sym_choice("other", 2);
	SymCell x, y;
	uint64_t r = 0;
	if (!SYM_TIER) sym_config("order", 1 + sym_choice("order", 2)); // the random order: always the first or always the last of the allowed choices
	const TO modes[] = { TO::SINGLE_THREAD, TO::JOB_QUEUE };
	std::thread th([&] { r = work(1, modes[n], y); });
	const uint64_t s = work(0, modes[m], x);
	th.join();
	CHECKP(35, s == (m ? 200 : 3) && r == (n ? 300 : 4), "each engine does what it does alone");
	if (!m) CHECKP(35, x.get() == 1, "each engine runs its actions");
	if (!n) CHECKP(35, y.get() == 1, "each engine runs its actions");
	sym_cover("end");
}
#elif SCEN == 3
// An action of the first engine is being executed for as long as it likes; transitions of the second that wait for actions, and its jobs, do not wait for it.
int main()
{
	SymCell go, done, acts;
	const TO mode = MODES[sym_choice("mode", 3)];
	PTN_Engine a(mode), b(MODES[sym_choice("other", 3)]);
	a.createPlace({ .name = "A", .input = true });
	a.createPlace({ .name = "B", .onEnterAction = [&] { while (!go.get()) std::this_thread::sleep_for(1ms); done.inc(); } });
	a.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
	b.createPlace({ .name = "A", .onEnterAction = [&] { acts.inc(); }, .input = true });
	b.createPlace({ .name = "B" });
	TransitionProperties t{ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } };
	t.requireNoActionsInExecution = true;
	b.createTransition(t);
	a.setEventLoopSleepDuration(FOREVER);
	b.setEventLoopSleepDuration(5ms);
	a.execute(false, sym_ostream());
	b.execute(false, sym_ostream());
	a.incrementInputPlace("A");
	std::this_thread::sleep_for(20ms);
	b.incrementInputPlace("A");
	std::this_thread::sleep_for(100ms);
	CHECKP(35, acts.get() == 1, "an action of one engine does not hold up the actions of the other");
	CHECKP(35, b.getNumberOfTokens("B") == 1, "nor the transitions of the other that wait for actions");
	CHECKP(35, done.get() == 0, "the action is still being executed");
	go.set(1);
	a.stop();
	b.stop();
	std::this_thread::sleep_for(100ms);
	CHECKP(35, done.get() == 1, "and ends when it ends");
	sym_cover("end");
}
#endif
#endif
