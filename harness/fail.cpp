// Failing user functions in synchronous runs.
//@run prop=C21 name=throwing-action kind=seq covers=threw-exit,threw-entry,no-throw define=SCEN=0
//@run prop=C21 name=throwing-condition kind=seq covers=threw,no-throw define=SCEN=1
//@run prop=C21 name=throwing-input kind=seq covers=threw,no-throw define=SCEN=2
//@run prop=C21 name=throwing-async-usable kind=conc q=0,1 t=0,1,2 covers=threw,end define=SCEN=3
#include "common.h"
#include "snap.h"
#include <memory>
#include <stdexcept>
#include <thread>
#include <chrono>
using namespace std::chrono_literals;
static const char *const PN[] = { "A", "B", "C" };
struct Boom : std::runtime_error
{
	int code;
	explicit Boom(int c) : std::runtime_error("boom"), code(c) {}
};
// user functions may throw anything
static bool g_plain;
[[noreturn]] static void boom(int c)
{
	if (g_plain) throw c;
	throw Boom(c);
}
template <class F> static int caught(F f)
{
	try { f(); }
	catch (const Boom &b) { return g_plain || std::string(b.what()) != "boom" ? 98 : b.code; }
	catch (int c) { return g_plain ? c : 99; }
	return -1;
}

#if SCEN == 0
// One transition A(w), B -> B, C(v): any one of its actions throws in its first firing. Optionally it requires that no action is in execution.
int main()
{
	const uint64_t a = sym_range("a", 0, 7), w = 1 + sym_choice("w", 3), v = 1 + sym_choice("v", 2);
	g_plain = w == 2;
	const bool wait = sym_choice("wait", 2);
	const int who = (int)sym_choice("who", 5); // exit A, exit B, entry B, entry C, nobody
	int armed = 1, ran[4] = {};
	auto act = [&](int i) { return [&armed, &ran, who, i] { ran[i]++; if (armed && who == i) boom(i); }; };
	PTN_Engine e(TO::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = a, .onExitAction = act(0), .input = true });
	e.createPlace({ .name = "B", .initialNumberOfTokens = 1, .onEnterAction = act(2), .onExitAction = act(1) });
	e.createPlace({ .name = "C", .onEnterAction = act(3) });
	e.createPlace({ .name = "D" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A", w), arc("B") }, .destinationArcs = { arc("B"), arc("C", v) }, .requireNoActionsInExecution = wait });
	e.createTransition({ .name = "W", .activationArcs = { arc("C", v) }, .destinationArcs = { arc("D") }, .requireNoActionsInExecution = true });
	const int code = caught([&] { e.execute(); });
	const bool fired = a >= w;
	CHECKP(21, (code >= 0) == (fired && who < 4), "the error reaches the caller of the run");
	if (code >= 0)
	{
		CHECKP(21, code == who, "the error that reaches the caller is the one thrown");
		sym_cover(who < 2 ? "threw-exit" : "threw-entry");
	}
	else sym_cover("no-throw");
	// either the firing took place, or it did not: nothing in between
	if (code >= 0)
	{
		const uint64_t ta = e.getNumberOfTokens("A"), tb = e.getNumberOfTokens("B"), tc = e.getNumberOfTokens("C"), td = e.getNumberOfTokens("D");
		const bool done = (ta == a - w) & (tb == 1) & (tc == v) & (td == 0), notDone = (ta == a) & (tb == 1) & (tc == 0) & (td == 0);
		CHECKP(21, done | notDone, "a firing with a failing action is either complete or undone");
	}
	armed = 0;
	const uint64_t left = e.getNumberOfTokens("A");
	e.incrementInputPlace("A");
	CHECKP(21, e.getNumberOfTokens("A") == left + 1, "later input is accepted");
	CHECKP(21, !fails([&] { e.execute(); }), "later runs work");
	CHECKP(21, e.getNumberOfTokens("A") == (a + 1) % w && e.getNumberOfTokens("B") == 1, "later runs fire what can fire");
	CHECKP(21, e.getNumberOfTokens("C") == 0 && e.getNumberOfTokens("D") == (a + 1) / w, "transitions that wait for actions are not kept from firing");
	CHECKP(21, !fails([&] { e.addArc(arc("D", 1, "T", AT::INHIBITOR)); e.removeArc(arc("D", 1, "T", AT::INHIBITOR)); }), "nothing stays locked");
	CHECKP(21, !fails([&] { e.setActionsThreadOption(TO::JOB_QUEUE); }), "the engine does not take itself for running");
}
#elif SCEN == 1
// A condition throws when it is evaluated for the n-th time; transitions with and without waiting for actions.
int main()
{
	g_plain = sym_choice("plain", 2);
	const uint64_t a = sym_range("a", 0, 3);
	const bool wait = sym_choice("wait", 2);
	uint64_t evaluations = 0;
	const uint64_t bad = sym_choice("bad", 4);
	bool armed = true;
	int entries = 0;
	PTN_Engine e(TO::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = a, .onEnterAction = [&] { entries++; }, .input = true });
	e.createPlace({ .name = "B", .onEnterAction = [&] { entries++; } });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .additionalConditions = { [] { return true; }, [&] { evaluations++; if (armed && evaluations == bad) boom(7); return true; } }, .requireNoActionsInExecution = wait });
	const int code = caught([&] { e.execute(); });
	CHECKP(21, (code == 7) == ((bad != 0) & (bad <= a)), "the error reaches the caller of the run");
	if (code >= 0)
	{
		sym_cover("threw");
		CHECKP(21, (e.getNumberOfTokens("A") == a - (bad - 1)) & (e.getNumberOfTokens("B") == bad - 1), "the firing was not attempted");
	}
	else sym_cover("no-throw");
	armed = false;
	entries = 0;
	e.incrementInputPlace("A");
	CHECKP(21, entries == 1, "entry actions are not blocked");
	CHECKP(21, !fails([&] { e.execute(); }), "later runs work");
	CHECKP(21, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == a + 1, "later runs fire what can fire");
}
#elif SCEN == 2
// The entry action of an input place throws while input is given.
int main()
{
	g_plain = sym_choice("plain", 2);
	const uint64_t n = sym_choice("n", 3), bad = sym_choice("bad", 3);
	const bool wait = sym_choice("wait", 2);
	uint64_t k = 0;
	PTN_Engine e(TO::SINGLE_THREAD);
	e.createPlace({ .name = "A", .onEnterAction = [&] { if (k++ == bad) boom(1); }, .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .requireNoActionsInExecution = wait });
	uint64_t lo = 0, hi = 0;
	for (uint64_t i = 0; i < n; i++)
	{
		const bool f = caught([&] { e.incrementInputPlace("A"); }) == 1;
		CHECKP(21, f == (i == bad), "the error reaches the caller");
		sym_cover(f ? "threw" : "no-throw");
		lo += !f;
		hi++;
	}
	CHECKP(21, !fails([&] { e.execute(); }), "later runs work");
	const uint64_t b = e.getNumberOfTokens("B");
	CHECKP(21, e.getNumberOfTokens("A") == 0 && b >= lo && b <= hi, "transitions that wait for actions fire for all input");
	CHECKP(21, !fails([&] { e.clearNet(); }), "nothing stays locked");
}
#elif SCEN == 3
// After a failed synchronous run the engine is used asynchronously.
int main()
{
	g_plain = sym_choice("plain", 2);
	bool armed = true;
	SymCell ran;
	const int who = (int)sym_choice("who", 2);
	PTN_Engine e(TO::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1, .onEnterAction = [&] { ran.inc(); if (armed && who == 0) boom(0); }, .input = true });
	e.createPlace({ .name = "B", .onEnterAction = [&] { ran.inc(); if (armed && who == 1) boom(1); } });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .requireNoActionsInExecution = true });
	const bool f = caught([&] { if (who == 0) e.incrementInputPlace("A"); else e.execute(); }) == who;
	CHECKP(21, f, "the error reaches the caller");
	sym_cover("threw");
	armed = false;
	const uint64_t sum = e.getNumberOfTokens("A") + e.getNumberOfTokens("B");
	e.setActionsThreadOption(TO::JOB_QUEUE);
	e.execute(false, sym_ostream());
	e.incrementInputPlace("A");
	sym_idle(6);
	CHECKP(21, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == sum + 1, "a later asynchronous run works");
	e.stop();
	sym_cover("end");
}
#endif
