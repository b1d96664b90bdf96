// Synchronous runs of nets with several transitions.
//@run prop=C04,C05 name=run2 kind=seq covers=two-firings define=SCEN=0,FULL=0 tdefine=FULL=1 ttime=1500
//@run prop=C05,C04 name=compete3 kind=seq musts=T-wins,U-wins,V-wins define=SCEN=1,NT=3
//@run prop=C05 name=compete4 kind=seq musts=T-wins,U-wins,V-wins,W-wins define=SCEN=1,NT=4
//@run prop=C05 name=weights kind=seq musts=T-wins,U-wins,both define=SCEN=2
//@run prop=C04 name=chain kind=seq covers=end define=SCEN=3
//@run prop=C06 name=actions kind=seq covers=fired,twice,weight>1 define=SCEN=4,NP=2 tdefine=NP=3 ttime=900
//@run prop=C06 name=actions-shared kind=seq covers=end define=SCEN=5
//@run prop=C04,C01 name=flicker kind=seq covers=both-answers,fired define=SCEN=6
#include "common.h"
#include "snap.h"
static const char *const PN[] = { "A", "B", "C", "D", "E" };
static const char *const TN[] = { "T", "U", "V", "W" };
#ifndef NP
#define NP 2
#endif
// runs of several firings use small weights (harness fire.cpp covers all 64-bit values for one firing)
#ifndef MAXW
#define MAXW 7
#endif

static void kindArc(RefTransition<NP> &t, int p, uint64_t kind)
{
	t.act[p].on = kind == 1 || kind == 3 || kind == 5;
	t.dst[p].on = kind == 2 || kind == 3;
	t.inh[p].on = kind == 4;
	t.act[p].w = sym_range("aw", 1, MAXW);
	t.dst[p].w = sym_range("dw", 1, MAXW);
}

#if SCEN == 0
// Two transitions over two places; each has its own budget of at most MAXF firings and records its firings.
#define MAXF 2
#define MAXT 31
int main()
{
	RefNet<NP, 2> n;
	uint64_t budget[2];
	for (int p = 0; p < NP; p++) n.tok[p] = sym_range("tok", 0, MAXT);
	for (int t = 0; t < 2; t++)
	{
		budget[t] = sym_range("budget", 0, t == 0 ? MAXF : MAXF - !FULL);
		if (t == 0 || FULL)
			for (int p = 0; p < NP; p++) kindArc(n.tr[t], p, sym_choice("kind", 5));
		else
		{
			const uint64_t k = sym_choice("preset", 4);
			static const int pre[4][2] = { { 1, 2 }, { 2, 1 }, { 3, 4 }, { 1, 1 } };
			for (int p = 0; p < NP; p++) kindArc(n.tr[t], p, pre[k][p]);
		}
	}
	std::vector<int> order;
	PTN_Engine e(TO::SINGLE_THREAD);
	for (int p = 0; p < NP; p++) e.createPlace({ .name = PN[p], .initialNumberOfTokens = n.tok[p] });
	for (int t = 0; t < 2; t++)
	{
		const std::string g = std::string("gate") + TN[t], d = std::string("done") + TN[t];
		e.createPlace({ .name = g, .initialNumberOfTokens = budget[t], .onExitAction = [&order, t] { order.push_back(t); } });
		e.createPlace({ .name = d });
		auto tp = n.properties(t, TN[t], PN);
		tp.activationArcs.push_back(arc(g.c_str()));
		tp.destinationArcs.push_back(arc(d.c_str()));
		e.createTransition(tp);
	}
	const bool threw = fails([&] { e.execute(); });
	uint64_t fired[2] = { 0, 0 };
	bool ok = true;
	for (int t : order)
	{
		if (threw && n.overflows(t)) break; // the failing firing itself
		ok = ok & n.enabled(t) & (fired[t] < budget[t]);
		CHECKP(5, ok, "every firing is allowed in the marking in which it happens");
		CHECKP(4, ok, "the run is a sequence of allowed firings");
		n.fire(t);
		fired[t]++;
	}
	if (threw)
	{
		sym_cover("overflow");
		const bool may = (n.enabled(0) & (fired[0] < budget[0]) & n.overflows(0)) | (n.enabled(1) & (fired[1] < budget[1]) & n.overflows(1));
		CHECKP(4, may, "a run fails only when a firing would overflow");
		return 0;
	}
	bool same = true;
	for (int p = 0; p < NP; p++) same = same & (e.getNumberOfTokens(PN[p]) == n.tok[p]);
	same = same & (e.getNumberOfTokens("gateT") == budget[0] - fired[0]) & (e.getNumberOfTokens("gateU") == budget[1] - fired[1]);
	same = same & (e.getNumberOfTokens("doneT") == fired[0]) & (e.getNumberOfTokens("doneU") == fired[1]);
	CHECKP(4, same, "the final marking is the one the firings lead to");
	CHECKP(5, same, "the final marking is the one the firings lead to");
	const bool stuck = !(n.enabled(0) & (fired[0] < budget[0])) & !(n.enabled(1) & (fired[1] < budget[1]));
	CHECKP(4, stuck, "the run returns only when no transition can fire");
	if (order.size() >= 2) sym_cover("two-firings");
	const size_t before = order.size();
	e.execute();
	same = order.size() == before;
	for (int p = 0; p < NP; p++) same = same & (e.getNumberOfTokens(PN[p]) == n.tok[p]);
	CHECKP(4, same, "running again changes nothing");
}
#elif SCEN == 1
// NT transitions compete for one token: exactly one of them gets it, and each of them can.
int main()
{
	uint64_t won[NT] = {};
	PTN_Engine e(TO::SINGLE_THREAD);
	const uint64_t w = sym_u64("w"), tok = sym_u64("tok");
	sym_assume((w != 0) & (tok >= w) & (tok - w < w)); // enough for one, not for two
	e.createPlace({ .name = "A", .initialNumberOfTokens = tok });
	for (int t = 0; t < NT; t++)
	{
		e.createPlace({ .name = PN[t + 1] });
		e.createTransition({ .name = TN[t], .activationArcs = { arc("A", w) }, .destinationArcs = { arc(PN[t + 1]) } });
	}
	e.execute();
	uint64_t sum = 0;
	for (int t = 0; t < NT; t++)
	{
		won[t] = e.getNumberOfTokens(PN[t + 1]);
		sum += won[t];
		if (won[t]) sym_cover(t == 0 ? "T-wins" : t == 1 ? "U-wins" : t == 2 ? "V-wins" : "W-wins");
	}
	CHECKP(5, sum == 1 && e.getNumberOfTokens("A") == tok - w, "exactly one competitor consumes the tokens");
	CHECKP(4, sum == 1, "the run ends when the tokens are used up");
}
#elif SCEN == 2
// Two competitors with different weights and a shared second place.
int main()
{
	const uint64_t tok = sym_u64("tok"), b = sym_range("b", 0, 2), w1 = sym_u64("w1"), w2 = sym_u64("w2");
	sym_assume((w1 != 0) & (w2 != 0));
	RefNet<2, 2> n;
	n.tok[0] = tok;
	n.tok[1] = b;
	n.tr[0].act[0] = { true, w1 };
	n.tr[0].act[1] = { true, 1 };
	n.tr[1].act[0] = { true, w2 };
	n.tr[1].act[1] = { true, 1 };
	std::vector<int> order;
	PTN_Engine e(TO::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = tok });
	e.createPlace({ .name = "B", .initialNumberOfTokens = b });
	e.createPlace({ .name = "C", .onEnterAction = [&] { order.push_back(0); } });
	e.createPlace({ .name = "D", .onEnterAction = [&] { order.push_back(1); } });
	auto t = n.properties(0, "T", PN), u = n.properties(1, "U", PN);
	t.destinationArcs = { arc("C") };
	u.destinationArcs = { arc("D") };
	e.createTransition(t);
	e.createTransition(u);
	const bool both = n.enabled(0) & n.enabled(1);
	e.execute();
	bool ok = true;
	for (int i : order)
	{
		ok = ok & n.enabled(i);
		n.fire(i);
	}
	CHECKP(5, ok, "a competitor that has lost its tokens does not fire");
	CHECKP(5, (e.getNumberOfTokens("A") == n.tok[0]) & (e.getNumberOfTokens("B") == n.tok[1]), "the outcome is that of a sequence of allowed firings");
	CHECKP(5, !n.enabled(0) & !n.enabled(1), "nobody who could still fire is left out");
	if (order.size() == 1 && both) sym_cover(order[0] == 0 ? "T-wins" : "U-wins");
	if (order.size() == 2 && order[0] != order[1]) sym_cover("both");
}
#elif SCEN == 3
// A chain A->B->C->D with a loop back: the run ends with everything at the end of the chain.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	const uint64_t a = sym_range("a", 0, 3), w = 1 + sym_choice("w", 2), v = 1 + sym_choice("v", 2);
	e.createPlace({ .name = "A", .initialNumberOfTokens = a });
	e.createPlace({ .name = "B" });
	e.createPlace({ .name = "C" });
	e.createPlace({ .name = "D" });
	e.createTransition({ .name = "W", .activationArcs = { arc("C") }, .destinationArcs = { arc("D") } });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B", v) } });
	e.createTransition({ .name = "U", .activationArcs = { arc("B", w) }, .destinationArcs = { arc("C") } });
	e.execute();
	const uint64_t b = a * v, c = b / w;
	CHECKP(4, e.getNumberOfTokens("A") == 0, "all input is consumed");
	CHECKP(4, e.getNumberOfTokens("B") == b % w, "a remainder below the weight stays");
	CHECKP(4, e.getNumberOfTokens("C") == 0 && e.getNumberOfTokens("D") == c, "the last place holds what passed through");
	sym_cover("end");
}
#elif SCEN == 4
// Entry and exit actions of one transition, by name or given directly, firing up to twice.
int main()
{
	RefNet<NP, 1> n;
	struct Ev { bool exit; int place; };
	static std::vector<Ev> log;
	bool big = false;
	const uint64_t budget = sym_range("budget", 0, 2);
	PTN_Engine e(TO::SINGLE_THREAD);
	const bool named = sym_bool("named");
	for (int p = 0; p < NP; p++)
	{
		n.tok[p] = sym_u64("tok");
		kindArc(n.tr[0], p, sym_choice("kind", 5));
		n.tr[0].act[p].w = sym_u64("aw64");
		n.tr[0].dst[p].w = sym_u64("dw64");
		sym_assume((n.tr[0].act[p].w != 0) & (n.tr[0].dst[p].w != 0));
		if (n.tr[0].act[p].on) big = big | (n.tr[0].act[p].w > 1);
		PlaceProperties pp{ .name = PN[p], .initialNumberOfTokens = n.tok[p] };
		auto en = [p] { log.push_back({ false, p }); };
		auto ex = [p] { log.push_back({ true, p }); };
		if (named)
		{
			e.registerAction(std::string("en") + PN[p], en);
			e.registerAction(std::string("ex") + PN[p], ex);
			pp.onEnterActionFunctionName = std::string("en") + PN[p];
			pp.onExitActionFunctionName = std::string("ex") + PN[p];
		}
		else
		{
			pp.onEnterAction = en;
			pp.onExitAction = ex;
		}
		e.createPlace(pp);
	}
	e.createPlace({ .name = "other", .initialNumberOfTokens = 1, .onEnterAction = [] { sym_fail("entry action of an uninvolved place"); }, .onExitAction = [] { sym_fail("exit action of an uninvolved place"); } });
	e.createPlace({ .name = "gate", .initialNumberOfTokens = budget, .onExitAction = [] { log.push_back({ true, NP }); } });
	e.createPlace({ .name = "done", .onEnterAction = [] { log.push_back({ false, NP }); } });
	auto tp = n.properties(0, "T", PN);
	tp.activationArcs.insert(sym_bool("gate-first") ? tp.activationArcs.begin() : tp.activationArcs.end(), arc("gate"));
	tp.destinationArcs.insert(sym_bool("done-first") ? tp.destinationArcs.begin() : tp.destinationArcs.end(), arc("done"));
	e.createTransition(tp);
	if (fails([&] { e.execute(); })) return 0;
	const uint64_t fired = sym_concretize(e.getNumberOfTokens("done"));
	size_t i = 0;
	for (uint64_t f = 0; f < fired; f++)
	{
		int exits[NP + 1] = {}, entries[NP + 1] = {};
		size_t nex = 1, nen = 1;
		for (int p = 0; p < NP; p++)
		{
			nex += n.tr[0].act[p].on;
			nen += n.tr[0].dst[p].on;
		}
		CHECKP(6, i + nex + nen <= log.size(), "no action of a firing is left out");
		for (size_t k = 0; k < nex; k++, i++)
		{
			CHECKP(6, log[i].exit, "all exit actions are issued before any entry action");
			exits[log[i].place]++;
		}
		for (size_t k = 0; k < nen; k++, i++)
		{
			CHECKP(6, !log[i].exit, "entry actions follow the exit actions of the same firing");
			entries[log[i].place]++;
		}
		for (int p = 0; p < NP; p++)
		{
			CHECKP(6, exits[p] == (n.tr[0].act[p].on ? 1 : 0), "the exit action of each input place runs exactly once per firing");
			CHECKP(6, entries[p] == (n.tr[0].dst[p].on ? 1 : 0), "the entry action of each output place runs exactly once per firing");
		}
		CHECKP(6, exits[NP] == 1 && entries[NP] == 1, "the same for places listed first or last");
	}
	CHECKP(6, i == log.size(), "no action runs without a firing");
	if (fired) sym_cover("fired");
	if (fired == 2) sym_cover("twice");
	if (fired && big) sym_cover("weight>1");
}
#elif SCEN == 5
// External input and a chain: entry actions on input, then the firings' actions.
int main()
{
	std::string log;
	PTN_Engine e(TO::SINGLE_THREAD);
	const uint64_t a = sym_u64("a"), w = sym_u64("w");
	sym_assume((w != 0) & (a < MAXTOK - 2) & (a < w));
	e.createPlace({ .name = "A", .initialNumberOfTokens = a, .onEnterAction = [&] { log += 'a'; }, .onExitAction = [&] { log += 'x'; }, .input = true });
	e.createPlace({ .name = "B", .onEnterAction = [&] { log += 'b'; }, .onExitAction = [&] { log += 'y'; } });
	e.createPlace({ .name = "C", .onEnterAction = [&] { log += 'c'; }, .onExitAction = [&] { log += 'z'; } });
	e.createTransition({ .name = "T", .activationArcs = { arc("A", w) }, .destinationArcs = { arc("B", 3) } });
	e.createTransition({ .name = "U", .activationArcs = { arc("B", 2) }, .destinationArcs = { arc("C", 5) } });
	CHECKP(6, log.empty(), "creating a place with tokens runs no action");
	const uint64_t k = sym_choice("inputs", 3);
	std::string want;
	for (uint64_t i = 0; i < k; i++)
	{
		e.incrementInputPlace("A");
		want += 'a';
	}
	CHECKP(6, log == want, "adding a token from outside runs the entry action exactly once");
	e.execute();
	uint64_t fired = 0;
	if (a + k >= w) fired = w == 1 && a + k == 2 ? 2 : 1;
	size_t n[256] = {};
	for (char c : log) n[(unsigned char)c]++;
	CHECKP(6, n['a'] == k && n['x'] == fired && n['b'] == fired, "the actions of T run once per firing, whatever the weights");
	CHECKP(6, n['y'] == fired * 3 / 2 && n['c'] == fired * 3 / 2 && n['z'] == 0, "the actions of U run once per firing, whatever the weights");
	if (fired == 1) CHECKP(6, log == want + "xbyc", "the actions run in the order of the firings");
	sym_cover("end");
}
#elif SCEN == 6
// A condition that answers differently from one question to the next: a firing needs a last answer of "yes", and the others fire all the same.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	const uint64_t tok = sym_range("tok", 0, 2), u = sym_range("u", 0, 2);
	int asked = 0, yes = 0, fired = 0;
	bool last = false, bad = false;
	e.createPlace({ .name = "A", .initialNumberOfTokens = tok, .onExitAction = [&] { fired++; bad = bad | !last; last = false; } });
	e.createPlace({ .name = "B", .initialNumberOfTokens = u });
	e.createPlace({ .name = "C" });
	e.createPlace({ .name = "D" });
	e.createPlace({ .name = "E" });
	e.createTransition({ .name = "U", .activationArcs = { arc("B") }, .destinationArcs = { arc("D") } });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("C") }, .additionalConditions = { [&] { last = asked++ < 4 && sym_bool("answer"); yes += last; return last; } } });
	e.createTransition({ .name = "V", .activationArcs = { arc("D", 2) }, .destinationArcs = { arc("E") } });
	e.execute();
	CHECKP(1, !bad, "a transition fires only when its condition has just said yes");
	CHECKP(1, fired + e.getNumberOfTokens("A") == tok && e.getNumberOfTokens("C") == (uint64_t)fired, "each firing moves one token");
	CHECKP(4, e.getNumberOfTokens("B") == 0 && e.getNumberOfTokens("E") == u / 2 && e.getNumberOfTokens("D") == u % 2, "whatever a condition answers, the others fire until they can fire no more");
	CHECKP(4, e.getNumberOfTokens("A") == 0 || !last, "the run does not return while the condition says yes");
	if (yes && yes < asked) sym_cover("both-answers");
	if (fired) sym_cover("fired");
}
#endif
