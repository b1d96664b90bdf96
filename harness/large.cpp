// The same guarantees on larger instances: long runs, many arcs, places, names, jobs and restarts. The sizes are fixed, the
// values and the position of the odd one out are symbolic.
//@run prop=C01,C02,C03 name=wide kind=seq covers=fired,lacks,inhibited,overflow define=SCEN=0,N=40 tdefine=SCEN=0,N=100 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C01,C11,C26 name=many-conditions kind=seq covers=fired,blocked define=SCEN=1,N=70 tdefine=SCEN=1,N=300 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C04,C02 name=long-run kind=seq covers=end define=SCEN=2,N=300 tdefine=SCEN=2,N=1000 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C04,C02,C06 name=longer-run kind=seq covers=end define=SCEN=21,N=66000 tdefine=SCEN=21,N=300000 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C05 name=compete6 kind=seq musts=0,1,2,3,4,5 define=SCEN=3,N=6 tdefine=SCEN=3,N=8 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C05 name=compete-guarded kind=seq musts=0,1,2,3 define=SCEN=22,N=4 tdefine=SCEN=22,N=6 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C06 name=wide-actions kind=seq covers=end define=SCEN=4,N=70 tdefine=SCEN=4,N=140 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C07 name=many-inputs kind=seq covers=end define=SCEN=5,N=20000 tdefine=SCEN=5,N=70000 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C08 name=wide-repeats kind=seq covers=rejected,accepted define=SCEN=6,N=20 tdefine=SCEN=6,N=40 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C09,C10,C11 name=many-arcs kind=seq covers=end define=SCEN=7,N=40 tdefine=SCEN=7,N=80 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C11,C08,C24 name=many-names kind=seq covers=end define=SCEN=8,N=300 tdefine=SCEN=8,N=1000 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C26 name=many-functions kind=seq covers=end define=SCEN=9,N=300 tdefine=SCEN=9,N=380 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C27 name=many-places kind=seq covers=end define=SCEN=10,N=300 tdefine=SCEN=10,N=1000 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C21 name=many-failures kind=seq covers=end define=SCEN=11,N=1100 tdefine=SCEN=11,N=5000 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C16,C14,C15 name=many-restarts kind=conc q=0 t=0 covers=end define=SCEN=12,N=1100 tdefine=SCEN=12,N=5000 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C16,C14,C15 name=restarts-sched kind=conc q=- t=1 covers=end define=SCEN=12,N=20 tdefine=SCEN=12,N=40 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C17 name=many-inputs-running kind=conc q=0 t=0 covers=end define=SCEN=13,N=2000 tdefine=SCEN=13,N=20000 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C18 name=many-jobs kind=conc q=0 t=0 covers=end define=SCEN=14,N=2000 tdefine=SCEN=14,N=20000 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C18 name=many-jobs-sched kind=conc q=- t=1 covers=end define=SCEN=14,N=80 tdefine=SCEN=14,N=200 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C19 name=many-pauses kind=conc q=0 t=0 covers=end,kept define=SCEN=15,N=1100 tdefine=SCEN=15,N=5000 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C22 name=wide-wait kind=conc q=0 t=0 covers=end define=SCEN=16,N=40 tdefine=SCEN=16,N=80 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C20 name=many-threads kind=conc q=0 t=0 covers=end define=SCEN=17,N=6 tdefine=SCEN=17,N=8 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C23 name=many-pending kind=conc q=0 t=0,1 covers=end define=SCEN=18,N=20 tdefine=SCEN=18,N=20 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C25 name=many-modes kind=conc q=0 t=0 covers=end define=SCEN=19,N=6 tdefine=SCEN=19,N=6 extra=--max-insts+1000000000+--max-vis+2000000
//@run prop=C12 name=large-net kind=seq covers=end define=SCEN=20,N=20 tdefine=SCEN=20,N=40 link=io extra=--max-insts+1000000000+--max-vis+2000000
#include "common.h"
#include "snap.h"
#include <chrono>
#include <memory>
#include <stdexcept>
#include <thread>
using namespace std::chrono_literals;
static const auto FOREVER = 24h * 365;
// long names that differ only at their end
static std::string name(const char *kind, uint64_t i) { return std::string("the one and only rather long name of a ") + kind + " that has the number " + std::to_string(i) + (i == 3 ? std::string(300, 'x') : i == 5 ? std::string(5000, 'y') : ""); }
static ArcProperties larc(uint64_t i, uint64_t w = 1) { return arc(name("place", i).c_str(), w); }

#if SCEN == 0
// One transition with N input, N output and N inhibitor places; one of them (any) may forbid the firing.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	TransitionProperties t{ .name = "T", .destinationArcs = { arc("once") }, .inhibitorArcs = { arc("once") } };
	const uint64_t odd = sym_choice("odd", 3 * N);
	const uint64_t tok = sym_u64("tok"), w = sym_u64("w");
	sym_assume(w != 0);
	uint64_t before[3 * N], aw[3 * N];
	e.createPlace({ .name = "once" });
	bool en = true, over = false;
	for (uint64_t i = 0; i < 3 * N; i++)
	{
		const int kind = i / N;
		before[i] = i == odd ? tok : kind == 0 ? 40 + i : kind == 1 ? i : 0;
		aw[i] = i == odd ? w : 2 + i;
		e.createPlace({ .name = name("place", i), .initialNumberOfTokens = before[i] });
		(kind == 0 ? t.activationArcs : kind == 1 ? t.destinationArcs : t.inhibitorArcs).push_back(larc(i, aw[i]));
		if (kind == 0) en = en & (before[i] >= aw[i]);
		if (kind == 1) over = over | (before[i] > MAXTOK - aw[i]);
		if (kind == 2) en = en & (before[i] == 0);
	}
	e.createTransition(t);
	const bool threw = fails([&] { e.execute(); });
	CHECKP(3, threw == (en & over), "a firing that would exceed the largest token count, and only that, is reported as an error");
	const bool fired = e.getNumberOfTokens("once") != 0;
	CHECKP(1, fired == (en & !over), "the transition fires exactly when each of its places allows it");
	bool same = true;
	for (uint64_t i = 0; i < 3 * N; i++)
	{
		const uint64_t want = !fired ? before[i] : i < N ? before[i] - aw[i] : i < 2 * N ? before[i] + aw[i] : before[i];
		same = same & (e.getNumberOfTokens(name("place", i)) == want);
	}
	CHECKP(2, same, "each place loses and gains what its arc says");
	if (threw) CHECKP(3, same, "a firing that fails leaves every place with the count it had");
	sym_cover(fired ? "fired" : threw ? "overflow" : odd < N ? "lacks" : "inhibited");
}
#elif SCEN == 1
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	const uint64_t odd = sym_choice("odd", N + 1);
	const bool named = sym_bool("named");
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	TransitionProperties t{ .name = "T", .activationArcs = { arc("A") } };
	uint64_t last = N - 1;
	bool ordered = true;
	for (uint64_t i = 0; i < N; i++)
	{
		auto f = [i, odd, &last, &ordered] {
			ordered = ordered && (i == 0 || i == last + 1);
			last = i;
			return i != odd;
		};
		if (named)
		{
			e.registerCondition(name("condition", i), f);
			t.additionalConditionsNames.push_back(name("condition", i));
		}
		else
			t.additionalConditions.push_back(f);
	}
	e.createTransition(t);
	e.execute();
	CHECKP(1, e.getNumberOfTokens("A") == (odd < N ? 1 : 0), "every single condition counts");
	CHECKP(26, ordered, "the conditions are asked in the given order");
	const Snapshot s(e);
	CHECKP(26, s.transition("T")->additionalConditions.size() == N && (!named || s.transition("T")->additionalConditionsNames == t.additionalConditionsNames), "all of them are reported");
	CHECKP(11, s.transition("T")->additionalConditions.size() == N && (!named || s.transition("T")->additionalConditionsNames == t.additionalConditionsNames), "all conditions are reported");
	last = N - 1;
	for (const auto &f : s.transition("T")->additionalConditions) f();
	CHECKP(11, ordered && last == N - 1, "each once and in the given order");
	CHECKP(26, ordered && last == N - 1, "and in the given order");
	sym_cover(odd < N ? "blocked" : "fired");
}
#elif SCEN == 2
// A run of N steps.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	const uint64_t b = sym_u64("b"), w = sym_u64("w"), rest = sym_choice("rest", 2);
	sym_assume((w != 0) & (w < MAXTOK / (4 * N)) & (b < MAXTOK / 4));
	e.createPlace({ .name = "A", .initialNumberOfTokens = 2 * N + rest });
	e.createPlace({ .name = "B", .initialNumberOfTokens = b });
	e.createTransition({ .name = "T", .activationArcs = { arc("A", 2) }, .destinationArcs = { arc("B", w) } });
	e.execute();
	CHECKP(4, e.getNumberOfTokens("A") == rest, "the run goes on until no transition can fire, however long that takes");
	CHECKP(2, e.getNumberOfTokens("A") == rest && e.getNumberOfTokens("B") == b + N * w, "every firing moves what the arcs say");
	sym_cover("end");
}
#elif SCEN == 3
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	for (uint64_t i = 0; i < N; i++)
	{
		e.createPlace({ .name = name("place", i) });
		e.createTransition({ .name = name("transition", i), .activationArcs = { arc("A") }, .destinationArcs = { larc(i) } });
	}
	e.execute();
	uint64_t sum = 0;
	static const char *const id[] = { "0", "1", "2", "3", "4", "5", "6", "7" };
	for (uint64_t i = 0; i < N; i++)
		if (const uint64_t n = e.getNumberOfTokens(name("place", i)))
		{
			sum += n;
			sym_cover(id[i]);
		}
	CHECKP(5, sum == 1 && e.getNumberOfTokens("A") == 0, "exactly one competitor consumes the token");
}
#elif SCEN == 22
// Several enabled transitions, each with inputs of its own, that shut each other out by an inhibitor place or by a condition: the first one wins.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	const uint64_t how = sym_choice("how", 3), inputs = 1 + sym_choice("inputs", 4);
	bool closed = false;
	e.createPlace({ .name = "done", .onEnterAction = [&] { closed = true; } });
	for (uint64_t i = 0; i < N; i++)
	{
		TransitionProperties t{ .name = name("transition", i), .destinationArcs = { arc("done") } };
		for (uint64_t k = 0; k < inputs; k++)
		{
			e.createPlace({ .name = name("place", i * 10 + k), .initialNumberOfTokens = 2 });
			t.activationArcs.push_back(larc(i * 10 + k));
		}
		if (how != 1) t.inhibitorArcs = { arc("done") };
		if (how != 0) t.additionalConditions = { [&] { return !closed; } };
		e.createTransition(t);
	}
	e.execute();
	uint64_t sum = 0;
	bool whole = true;
	static const char *const id[] = { "0", "1", "2", "3", "4", "5" };
	for (uint64_t i = 0; i < N; i++)
	{
		const uint64_t n = e.getNumberOfTokens(name("place", i * 10));
		for (uint64_t k = 1; k < inputs; k++) whole = whole && e.getNumberOfTokens(name("place", i * 10 + k)) == n;
		whole = whole && (n == 1 || n == 2);
		if (n == 1) sym_cover(id[i]);
		sum += 2 - n;
	}
	CHECKP(5, whole && sum == 1 && e.getNumberOfTokens("done") == 1, "only one of them fires, the others have been shut out");
}
#elif SCEN == 4
// N places on each side, all with both actions; weights do not matter.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	int in[2 * N] = {}, out[2 * N] = {}, entered = 0, late = 0;
	const uint64_t w = sym_range("w", 1, 9), bare = sym_choice("bare", 2 * N + 1);
	TransitionProperties t{ .name = "T" };
	for (uint64_t i = 0; i < 2 * N; i++)
	{
		PlaceProperties p{ .name = name("place", i), .initialNumberOfTokens = i < N ? w + 1 : 0 };
		p.onEnterAction = [&, i] { in[i]++; entered++; };
		p.onExitAction = [&, i] { out[i]++; if (entered) late++; };
		if (i == bare) p.onEnterAction = p.onExitAction = nullptr;
		e.createPlace(p);
		(i < N ? t.activationArcs : t.destinationArcs).push_back(larc(i, i < N ? w + 1 : i));
	}
	e.createTransition(t);
	e.execute();
	for (uint64_t i = 0; i < 2 * N; i++)
	{
		CHECKP(6, in[i] == (i >= N && i != bare), "the entry action of every output place runs once");
		CHECKP(6, out[i] == (i < N && i != bare), "the exit action of every input place runs once");
	}
	CHECKP(6, late == 0, "all exit actions are issued before any entry action");
	sym_cover("end");
}
#elif SCEN == 5
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	int entered = 0;
	const uint64_t a = sym_u64("a");
	sym_assume(a < MAXTOK - 2 * N);
	for (uint64_t i = 0; i < 20; i++) e.createPlace({ .name = name("place", i), .initialNumberOfTokens = i, .input = i != 7 });
	e.createPlace({ .name = "A", .initialNumberOfTokens = a, .onEnterAction = [&] { entered++; }, .input = true });
	for (int i = 0; i < N; i++) e.incrementInputPlace("A");
	CHECKP(7, e.getNumberOfTokens("A") == a + N && entered == N, "every input adds one token");
	for (uint64_t i = 0; i < 20; i++)
	{
		const bool threw = fails([&] { e.incrementInputPlace(name("place", i)); });
		CHECKP(7, threw == (i == 7), "every input place accepts input");
	}
	for (uint64_t i = 0; i < 20; i++) CHECKP(7, e.getNumberOfTokens(name("place", i)) == i + (i != 7), "each place gets its own token");
	sym_cover("end");
}
#elif SCEN == 6
// Two of N arcs of one kind may lead to the same place, or one of them may have no weight or lead nowhere.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	for (uint64_t i = 0; i < N; i++) e.createPlace({ .name = name("place", i), .initialNumberOfTokens = i });
	const uint64_t kind = sym_choice("kind", 3), i = sym_choice("i", N), j = sym_choice("j", N + 2);
	TransitionProperties t{ .name = "T" };
	for (auto *l : { &t.activationArcs, &t.destinationArcs, &t.inhibitorArcs })
		for (uint64_t k = 0; k < N; k++) l->push_back(larc(k, k + 1));
	auto &odd = kind == 0 ? t.activationArcs : kind == 1 ? t.destinationArcs : t.inhibitorArcs;
	if (j < N) odd[i].placeName = name("place", j);
	else if (j == N) odd[i].placeName = name("place", N);
	else odd[i].weight = sym_u64("w");
	const bool ok = j < N ? i == j : j == N ? false : odd[i].weight != 0;
	const Snapshot before(e);
	const bool threw = fails([&] { e.createTransition(t); });
	CHECKP(8, threw == !ok, "a repeated or unknown place and a zero weight are found wherever they are");
	if (threw) CHECKP(8, Snapshot(e) == before, "a rejected transition changes nothing");
	sym_cover(threw ? "rejected" : "accepted");
}
#elif SCEN == 7
// Arcs added one by one, one of them taken away again.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	TransitionProperties t{ .name = "T" }, u{ .name = "U" };
	const uint64_t off = sym_choice("off", N), kind = sym_choice("kind", 4), w = sym_u64("w");
	sym_assume(w != 0);
	const AT types[] = { AT::ACTIVATION, AT::DESTINATION, AT::INHIBITOR };
	auto list = [&](int k) -> auto & { return k == 0 ? t.activationArcs : k == 1 ? t.destinationArcs : t.inhibitorArcs; };
	for (uint64_t i = 0; i < N; i++) e.createPlace({ .name = name("place", i), .initialNumberOfTokens = 100 * i, .input = i % 3 != 0 });
	e.createTransition(t);
	e.createTransition(u);
	for (uint64_t i = 0; i < N; i++)
		for (int k = 0; k < 3; k++)
		{
			const ArcProperties a = arc(name("place", i).c_str(), i == off ? w : i + 1, "T", types[k]);
			e.addArc(a);
			CHECKP(9, fails([&] { e.addArc(a); }), "an arc that is there cannot be added again");
			const bool gone = i == off && ((int)kind == k || (kind == 3 && k < 2));
			if (!gone) list(k).push_back(a);
		}
	const ArcProperties r = arc(name("place", off).c_str(), 1, "T", kind == 3 ? AT::BIDIRECTIONAL : types[kind]);
	e.removeArc(r);
	CHECKP(9, fails([&] { e.removeArc(r); }), "an arc that is gone cannot be removed again");
	const Snapshot s(e);
	CHECKP(9, s.transition("T") && sameTransition(*s.transition("T"), t) && sameTransition(*s.transition("U"), u), "exactly that arc is taken away");
	CHECKP(10, s.transition("T") && sameTransition(*s.transition("T"), t), "the net is the one declared at once");
	CHECKP(11, s.transition("T") && sameTransition(*s.transition("T"), t) && s.transitions.size() == 2, "the description follows every edit");
	sym_cover("end");
}
#elif SCEN == 8
// Many places and transitions with long names, and again after clearing.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	const uint64_t tok = sym_u64("tok"), w = sym_u64("w");
	sym_assume(w != 0);
	for (int round = 0; round < 3; round++)
	{
		const uint64_t n = N - round;
		for (uint64_t i = 0; i < n; i++)
		{
			e.createPlace({ .name = name("place", i), .initialNumberOfTokens = tok + i, .input = i % 3 == 0 });
			e.createTransition({ .name = name("transition", i), .activationArcs = { larc(i, w) }, .inhibitorArcs = { larc(0, 2) }, .requireNoActionsInExecution = i % 2 == 1 });
		}
		const Snapshot s(e);
		CHECKP(11, s.places.size() == n && s.transitions.size() == n, "each place and transition is reported once");
		CHECKP(24, s.places.size() == n && s.transitions.size() == n, "a rebuilt net consists of what was defined since");
		for (uint64_t i = 0; i < n; i++)
		{
			const auto *p = s.place(name("place", i).c_str());
			const auto *t = s.transition(name("transition", i).c_str());
			const bool ok = p && t && p->initialNumberOfTokens == tok + i && p->input == (i % 3 == 0) && t->activationArcs.size() == 1 && t->activationArcs[0].placeName == name("place", i)
				&& t->activationArcs[0].weight == w && t->inhibitorArcs.size() == 1 && t->inhibitorArcs[0].placeName == name("place", 0) && t->inhibitorArcs[0].weight == 2 && t->requireNoActionsInExecution == (i % 2 == 1);
			CHECKP(11, ok, "everything is reported as defined");
			CHECKP(8, ok, "a valid definition does what it says");
			CHECKP(8, fails([&] { e.createPlace({ .name = name("place", i) }); }) && fails([&] { e.createTransition({ .name = name("transition", i) }); }), "a used name is rejected");
		}
		CHECKP(8, Snapshot(e) == s, "rejected definitions change nothing");
		e.clearNet();
		const Snapshot c(e);
		CHECKP(24, c.places.empty() && c.transitions.empty(), "a cleared net reports nothing");
		for (uint64_t i = 0; i < n; i++) CHECKP(24, fails([&] { e.getNumberOfTokens(name("place", i)); }), "no old name resolves");
	}
	sym_cover("end");
}
#elif SCEN == 9
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	uint64_t last = 999;
	for (uint64_t i = 0; i < N; i++)
	{
		e.registerAction(name("function", i), [&last, i] { last = i; });
		e.registerCondition(name("function", i), [&last, i] { last = 1000 + i; return false; });
	}
	const uint64_t i = sym_choice("i", N), c = (i * 7 + 3) % N;
	CHECKP(26, fails([&] { e.registerAction(name("function", i), [&last] { last = 777; }); }), "a used name cannot be registered again");
	e.createPlace({ .name = "A", .onEnterActionFunctionName = name("function", i), .onExitActionFunctionName = name("function", c), .input = true });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .additionalConditionsNames = { name("function", c) } });
	e.createTransition({ .name = "U", .activationArcs = { arc("A", 2) } });
	e.incrementInputPlace("A");
	CHECKP(26, last == i, "the entry action is the one registered under its name");
	e.execute();
	CHECKP(26, last == 1000 + c, "the condition is the one registered under its name");
	e.incrementInputPlace("A");
	e.execute();
	CHECKP(26, e.getNumberOfTokens("A") == 0 && (last == c || last == 1000 + c), "the exit action is the one registered under its name");
	sym_cover("end");
}
#elif SCEN == 10
// No digits in the names: every number in the output is a count.
static std::string lettered(uint64_t i) { return std::string("a place whose name is long enough to be cut off by someone who thinks that nobody would want to see it all, number ") + char('a' + i / 26) + char('a' + i % 26) + "!"; }
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	const uint64_t tok = sym_u64("tok");
	for (uint64_t i = 0; i < N; i++) e.createPlace({ .name = lettered(i), .initialNumberOfTokens = tok + i });
	sym_out_clear();
	e.printState(sym_ostream());
	int seen[N] = {};
	std::string text;
	for (size_t k = 0; k < sym_out_count(); k++)
	{
		if (!sym_out_isnum(k)) { text += sym_out_text(k); continue; }
		int which = -1;
		for (int i = 0; i < N; i++) if (text.find(lettered(i)) != std::string::npos) which = i;
		CHECKP(27, which >= 0, "every number belongs to a place");
		CHECKP(27, sym_out_num(k) == tok + which, "the printed count is the current one");
		seen[which]++;
		text.clear();
	}
	for (int i = 0; i < N; i++) CHECKP(27, seen[i] == 1, "every place is printed once");
	sym_cover("end");
}
#elif SCEN == 11
// Failing again and again changes nothing about what comes afterwards.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	const uint64_t where = sym_choice("where", 3); // condition, exit action, entry action
	const bool waits = sym_bool("waits");
	bool fail = true;
	auto may = [&](uint64_t w) { return [&fail, w, where] { if (fail && w == where) throw std::runtime_error("x"); }; };
	e.createPlace({ .name = "A", .initialNumberOfTokens = 2 * N + 1, .onExitAction = may(1) });
	e.createPlace({ .name = "B", .onEnterAction = may(2) });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .additionalConditions = { [&] { may(0)(); return true; } }, .requireNoActionsInExecution = waits });
	for (int i = 0; i < N; i++) CHECKP(21, fails([&] { e.execute(); }), "the error reaches the caller every time");
	const uint64_t a = e.getNumberOfTokens("A"), b = e.getNumberOfTokens("B");
	CHECKP(21, a + b == 2 * N + 1 && (where != 0 || b == 0), "the firing is complete or has not been attempted");
	fail = false;
	CHECKP(21, !fails([&] { e.execute(); }), "afterwards the net runs");
	CHECKP(21, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == 2 * N + 1, "and every token gets through");
	sym_cover("end");
}
#elif SCEN == 12
int main()
{
	static const TO m[] = { TO::JOB_QUEUE, TO::EVENT_LOOP, TO::DETACHED };
	PTN_Engine e(m[sym_choice("mode", 3)]);
	e.createPlace({ .name = "A", .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
	e.setEventLoopSleepDuration(FOREVER);
	const uint64_t idle = sym_choice("idle", 4);
	for (uint64_t i = 0; i < N; i++)
	{
		if (idle & 1) e.incrementInputPlace("A");
		e.execute(false, sym_ostream());
		CHECKP(14, e.isEventLoopRunning(), "a started engine is running");
		CHECKP(14, fails([&] { e.execute(false, sym_ostream()); }), "starting a running engine fails");
		if (!(idle & 1)) e.incrementInputPlace("A");
		if (idle & 2) sym_idle(0);
		if (idle & 2) CHECKP(16, e.getNumberOfTokens("B") == i + 1, "every run is a complete one");
		e.stop();
		e.stop();
		CHECKP(14, !e.isEventLoopRunning(), "a stopped engine is not running");
		const uint64_t b = e.getNumberOfTokens("B");
		sym_idle(0);
		CHECKP(15, e.getNumberOfTokens("B") == b, "nothing fires after stopping");
	}
	e.execute(false, sym_ostream());
	sym_idle(0);
	CHECKP(16, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == N, "no input is lost over any number of restarts");
	e.stop();
	sym_cover("end");
}
#elif SCEN == 13
int main()
{
	PTN_Engine e(TO::JOB_QUEUE);
	e.createPlace({ .name = "A", .input = true });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
	e.setEventLoopSleepDuration(FOREVER);
	const uint64_t each = 1 + sym_choice("each", 3);
	e.execute(false, sym_ostream());
	for (uint64_t i = 0; i < N; i++)
	{
		e.incrementInputPlace("A");
		if (i % each == each - 1)
		{
			sym_idle(0);
			CHECKP(17, e.getNumberOfTokens("B") == i + 1, "every input is noticed at once, also the last of many");
		}
	}
	sym_idle(0);
	CHECKP(17, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == N, "every input leads to a firing");
	e.stop();
	sym_cover("end");
}
#elif SCEN == 14
int main()
{
	SymCell next, bad, active;
	PTN_Engine e(TO::JOB_QUEUE);
	e.setEventLoopSleepDuration(FOREVER);
	const uint64_t each = 1 + sym_choice("each", 3);
	auto act = [&](long parity) { return [&, parity] { if (active.inc() != 0 || next.inc() % 2 != parity) bad.set(1); active.dec(); }; };
	e.createPlace({ .name = "A", .initialNumberOfTokens = N, .onExitAction = act(0) });
	e.createPlace({ .name = "B", .onEnterAction = act(1) });
	e.createTransition({ .name = "T", .activationArcs = { arc("A", each) }, .destinationArcs = { arc("B") } });
	e.execute(false, sym_ostream());
	sym_idle(0);
	CHECKP(18, bad.get() == 0, "the actions are run in the order of issue, one at a time");
	CHECKP(18, next.get() == (long)(2 * (N / each)), "every action is run once");
	e.stop();
	sym_cover("end");
}
#elif SCEN == 15
#include "PTN_Engine/JobQueue/JobQueue.h"
int main()
{
	SymCell next, bad;
	JobQueue q;
	long n = 0;
	const uint64_t idle = sym_choice("idle", 2), burst = sym_choice("burst", 4);
	for (uint64_t i = 0; i < N; i++)
	{
		if (i % 3 != 2) q.deactivate();
		const long s = next.get();
		for (uint64_t k = 0; k < burst; k++) { q.addJob([&, n] { if (next.inc() != n) bad.set(1); std::this_thread::yield(); }); n++; }
		if (i % 3 != 2)
		{
			sym_idle(0);
			CHECKP(19, next.get() == s, "no job starts while the queue is paused");
			if (s < n) sym_cover("kept");
			if (i % 3 == 1) q.activate();
		}
		if (idle) sym_idle(0);
	}
	q.activate();
	sym_idle(0);
	CHECKP(19, bad.get() == 0 && next.get() == n, "all jobs are run in order, over any number of pauses");
	sym_cover("end");
}
#elif SCEN == 16
// N input places, the entry action of one of them (any) goes on.
int main()
{
	SymCell gate, started;
	PTN_Engine e(sym_choice("detached", 2) ? TO::DETACHED : TO::JOB_QUEUE);
	const uint64_t odd = sym_choice("odd", N), reverse = sym_choice("reverse", 2);
	TransitionProperties t{ .name = "T", .destinationArcs = { arc("Q") }, .requireNoActionsInExecution = true };
	for (uint64_t i = 0; i < N; i++)
	{
		e.createPlace({ .name = name("place", i), .initialNumberOfTokens = i == odd ? 0u : 1u, .onEnterAction = [&] { started.inc(); while (!gate.get()) std::this_thread::sleep_for(300ms); }, .input = true });
		t.activationArcs.insert(reverse ? t.activationArcs.begin() : t.activationArcs.end(), larc(i));
	}
	e.createPlace({ .name = "Q" });
	e.createTransition(t);
	e.setEventLoopSleepDuration(300ms);
	e.incrementInputPlace(name("place", odd));
	e.execute(false, sym_ostream());
	std::this_thread::sleep_for(350ms);
	CHECKP(22, e.getNumberOfTokens("Q") == 0, "the transition waits for the action of each of its input places");
	gate.set(1);
	std::this_thread::sleep_for(650ms);
	CHECKP(22, e.getNumberOfTokens("Q") == 1, "it fires once the action has finished");
	e.stop();
	sym_cover("end");
}
#elif SCEN == 17
// N threads, each with its own kind of call, while the net runs.
int main()
{
	SymCell failed;
	{
		PTN_Engine e(TO::JOB_QUEUE);
		e.createPlace({ .name = "A", .input = true });
		e.createPlace({ .name = "B" });
		e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
		e.setEventLoopSleepDuration(FOREVER);
		e.execute(false, sym_ostream());
		std::vector<std::thread> ts;
		for (uint64_t i = 0; i < N; i++)
			ts.emplace_back([&, i] {
				if (fails([&] { e.incrementInputPlace("A"); })) failed.set(1);
				if (i == 0) { if (e.getPlacesProperties().size() < 2) failed.set(1); }
				else if (i == 1) { if (e.getTransitionsProperties().size() != 1) failed.set(1); }
				else if (fails([&] { e.createPlace({ .name = name("place", i), .initialNumberOfTokens = i }); })) failed.set(1);
				if (fails([&] { e.incrementInputPlace("A"); })) failed.set(1);
			});
		for (auto &t : ts) t.join();
		sym_idle(0);
		CHECKP(20, failed.get() == 0, "every call succeeds");
		CHECKP(20, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == 2 * N, "no input is lost");
		for (uint64_t i = 2; i < N; i++) CHECKP(20, e.getNumberOfTokens(name("place", i)) == i, "no definition is lost");
		e.stop();
	}
	sym_cover("end");
}
#elif SCEN == 18
int main()
{
	SymCell started, finished;
	const uint64_t how = sym_choice("how", 3);
	{
		PTN_Engine e(sym_choice("detached", 2) ? TO::DETACHED : TO::JOB_QUEUE);
		auto mk = [&] { return [&started, &finished, data = std::make_shared<std::vector<int>>(3, 5)] { started.inc(); std::this_thread::yield(); if ((*data)[1] == 5) finished.inc(); }; };
		e.createPlace({ .name = "A", .onEnterAction = mk(), .onExitAction = mk(), .input = true });
		e.createPlace({ .name = "B", .onEnterAction = mk() });
		e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
		for (int i = 0; i < N / 2; i++) e.incrementInputPlace("A");
		if (how == 0) { e.clearNet(); e.createPlace({ .name = "A", .onEnterAction = mk(), .input = true }); }
		if (how == 1) e.setActionsThreadOption(TO::SINGLE_THREAD);
		if (how < 2) for (int i = 0; i < N / 2; i++) e.incrementInputPlace("A");
	}
	sym_idle(0);
	CHECKP(23, started.get() == finished.get() && started.get() <= N, "each action runs to its end or never starts");
	sym_cover("end");
}
#elif SCEN == 19
int main()
{
	SymCell in, out;
	static const TO m[] = { TO::SINGLE_THREAD, TO::EVENT_LOOP, TO::JOB_QUEUE, TO::DETACHED };
	TO mode = m[sym_choice("first", 4)];
	PTN_Engine e(mode);
	e.createPlace({ .name = "A", .onEnterAction = [&] { in.inc(); }, .onExitAction = [&] { out.inc(); }, .input = true });
	e.createPlace({ .name = "B", .onEnterAction = [&] { in.inc(); } });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
	e.setEventLoopSleepDuration(FOREVER);
	const uint64_t step = sym_choice("step", 3);
	for (uint64_t i = 0; i < N; i++)
	{
		CHECKP(25, e.getActionsThreadOption() == mode, "the reported mode is the one set last");
		e.incrementInputPlace("A");
		e.execute(false, sym_ostream());
		sym_idle(0);
		e.stop();
		CHECKP(25, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == i + 1, "every mode leads to the marking of the firing rule");
		CHECKP(25, in.get() == (long)(2 * i + 2) && out.get() == (long)i + 1, "every action is run exactly once");
		mode = m[((uint64_t)mode + 1 + step) % 4];
		e.setActionsThreadOption(mode);
		CHECKP(25, e.getNumberOfTokens("A") == 0 && e.getNumberOfTokens("B") == i + 1, "changing the mode keeps the marking");
	}
	sym_cover("end");
}
#elif SCEN == 21
// A run of more steps than any plausible limit or small counter can stand, with actions.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	const uint64_t rest = sym_choice("rest", 2);
	size_t entries = 0, exits = 0;
	e.createPlace({ .name = "A", .initialNumberOfTokens = 2 * N + rest, .onExitAction = [&] { exits++; } });
	e.createPlace({ .name = "B", .onEnterAction = [&] { entries++; } });
	e.createTransition({ .name = "T", .activationArcs = { arc("A", 2) }, .destinationArcs = { arc("B", 3) } });
	e.execute();
	CHECKP(4, e.getNumberOfTokens("A") == rest, "the run goes on until no transition can fire, however long that takes");
	CHECKP(2, e.getNumberOfTokens("B") == N * 3, "every firing moves what the arcs say");
	CHECKP(6, entries == N && exits == N, "each action runs once per firing, however many there are");
	sym_cover("end");
}
#elif SCEN == 20
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include <cstdlib>
#include <unistd.h>
int main()
{
	PTN_Engine a(TO::SINGLE_THREAD), b;
	const uint64_t odd = sym_choice("odd", N);
	for (PTN_Engine *e : { &a, &b })
		for (uint64_t i = 0; i < N; i++)
		{
			e->registerAction(name("action", i), [] {});
			e->registerCondition(name("condition", i), [] { return true; });
		}
	for (uint64_t i = 0; i < N; i++)
		a.createPlace({ .name = name("place", i), .initialNumberOfTokens = i * 1000, .onEnterActionFunctionName = i == odd ? name("action", 1) : "", .onExitActionFunctionName = i % 2 ? name("action", i) : "", .input = i % 3 == 0 });
	for (uint64_t i = 0; i < N; i++)
	{
		TransitionProperties t{ .name = name("transition", i), .requireNoActionsInExecution = i == odd };
		for (uint64_t k = 0; k < N; k++)
		{
			if ((i + k) % 3 != 0) t.activationArcs.push_back(larc(k, i * 10 + k + 1));
			if ((i + k) % 3 != 1) t.destinationArcs.push_back(larc(k, i * 10 + k + 2));
			if ((i + k) % 3 == 0) t.inhibitorArcs.push_back(larc(k, i * 10 + k + 3));
		}
		for (uint64_t k = 0; k < i; k++) t.additionalConditionsNames.push_back(name("condition", N - 1 - k));
		a.createTransition(t);
	}
	const char *d = getenv("SYM_SCRATCH");
	const std::string path = sym_engine() ? "/large.xml" : std::string(d ? d : "/nonexistent-scratch") + "/" + std::to_string(getpid()) + "large.xml";
	FileExporterFactory::createXMLFileExporter()->_export(a, path);
	FileImporterFactory::createXMLFileImporter()->_import(path, b);
	CHECKP(12, Snapshot(a) == Snapshot(b), "a net with many places, transitions and arcs is reproduced");
	sym_cover("end");
}
#endif
