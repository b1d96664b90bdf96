// Defining, editing, describing and clearing nets.
//@run prop=C07 name=input kind=seq covers=accepted,unknown,not-input,full define=SCEN=0
//@run prop=C07 name=input-many kind=seq covers=end define=SCEN=1
//@run prop=C08 name=places kind=seq covers=accepted,rejected define=SCEN=2
//@run prop=C08 name=transitions kind=seq covers=accepted,unknown-place,repeated,zero-weight,used-name,empty-name,unknown-condition define=SCEN=3
//@run prop=C09,C10 name=arcs kind=seq covers=added,removed,rejected-add,rejected-remove define=SCEN=4,EDITS=2 tdefine=EDITS=3 ttime=1500
//@run prop=C07,C08,C26 name=names kind=seq covers=same,different,empty define=SCEN=17,LEN=2 tdefine=SCEN=17,LEN=3
//@run prop=C11 name=describe kind=seq covers=end define=SCEN=5
//@run prop=C24 name=clear kind=seq covers=rebuilt define=SCEN=6
//@run prop=C24 name=shapes kind=seq covers=net,part,end define=SCEN=16,NOPS=2 tdefine=SCEN=16,NOPS=3
//@run prop=C26 name=functions kind=seq covers=end,rejected define=SCEN=7
//@run prop=C27 name=print kind=seq covers=end define=SCEN=8
//@run prop=C27 name=print-any-name kind=seq covers=end define=SCEN=25
//@run prop=C27 name=log kind=seq covers=logged,unlogged define=SCEN=9
//@run prop=C26 name=conditions-order kind=seq covers=end define=SCEN=10
#include "common.h"
#include "snap.h"
static const char *const PN[] = { "A", "B", "C", "D" };

#if SCEN == 0
// Any marking, any flags, any name: one increment.
int main()
{
	PTN_Engine e((TO)sym_choice("mode", 2)); // single thread, event loop: actions run on the caller
	uint64_t tok[3];
	bool input[3];
	int entered[3] = {}, left = 0;
	for (int p = 0; p < 3; p++)
	{
		tok[p] = sym_u64("tok");
		input[p] = sym_bool("input");
		PlaceProperties pp{ .name = PN[p], .initialNumberOfTokens = tok[p], .input = input[p] };
		if (p != 2) pp.onEnterAction = [&entered, p] { entered[p]++; };
		pp.onExitAction = [&left] { left++; };
		e.createPlace(pp);
	}
	// a transition that must not fire by itself
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .additionalConditions = { [] { return false; } } });
	static const char *const names[] = { "A", "B", "C", "nope", "", "a", "A " };
	const uint64_t w = sym_choice("name", 7);
	const Snapshot before(e);
	const bool threw = fails([&] { e.incrementInputPlace(names[w]); });
	const bool known = w < 3;
	const bool ok = known && (input[w] & (tok[w] != MAXTOK));
	CHECKP(7, threw == !ok, "input is accepted exactly by existing input places that are not full");
	if (ok)
	{
		sym_cover("accepted");
		tok[w]++;
	}
	else
		sym_cover(!known ? "unknown" : !input[w] ? "not-input" : "full");
	bool same = true;
	for (int p = 0; p < 3; p++) same = same & (e.getNumberOfTokens(PN[p]) == tok[p]);
	CHECKP(7, same, "exactly one token is added, to that place only");
	for (int p = 0; p < 2; p++) CHECKP(7, entered[p] == (ok && (int)w == p ? 1 : 0), "the entry action runs exactly once, for that place only");
	CHECKP(7, left == 0, "input runs no exit action");
	if (!ok) CHECKP(7, Snapshot(e) == before, "rejected input changes nothing");
}
#elif SCEN == 1
// Sequences of inputs to two input places, some rejected in between.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	uint64_t a = sym_u64("a"), b = sym_u64("b");
	e.createPlace({ .name = "A", .initialNumberOfTokens = a, .input = true });
	e.createPlace({ .name = "B", .initialNumberOfTokens = b, .input = true });
	e.createPlace({ .name = "C", .initialNumberOfTokens = b });
	const uint64_t c0 = b;
	for (int i = 0; i < (SYM_TIER ? 6 : 4); i++)
	{
		const uint64_t w = sym_choice("which", 4);
		const bool threw = fails([&] { e.incrementInputPlace(w == 0 ? "A" : w == 1 ? "B" : w == 2 ? "C" : "X"); });
		bool want = w >= 2;
		if (w == 0) { if (a == MAXTOK) want = true; else a++; }
		if (w == 1) { if (b == MAXTOK) want = true; else b++; }
		CHECKP(7, threw == want, "each input is accepted or rejected on its own merits");
		CHECKP(7, (e.getNumberOfTokens("A") == a) & (e.getNumberOfTokens("B") == b) & (e.getNumberOfTokens("C") == c0), "the counts are the initial ones plus the accepted inputs");
	}
	sym_cover("end");
}
#elif SCEN == 2
// createPlace with any mixture of valid and invalid parts.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	int ran = 0;
	e.registerAction("f", [&ran] { ran += 1; });
	e.registerAction("g", [&ran] { ran += 10; });
	const uint64_t t0 = sym_u64("t0");
	e.createPlace({ .name = "A", .initialNumberOfTokens = t0, .onEnterActionFunctionName = "f", .input = true });
	e.createPlace({ .name = "B", .initialNumberOfTokens = 2 });
	e.createTransition({ .name = "T", .activationArcs = { arc("B") }, .destinationArcs = { arc("A", 3) } });
	const Snapshot before(e);
	static const char *const names[] = { "C", "A", "", "B", "T" };
	static const char *const fn[] = { "", "f", "g", "nope" };
	PlaceProperties p;
	const uint64_t n = sym_choice("name", 5), en = sym_choice("enter", 4), ex = sym_choice("exit", 4);
	p.name = names[n];
	p.initialNumberOfTokens = sym_u64("tok");
	p.input = sym_bool("input");
	p.onEnterActionFunctionName = fn[en];
	p.onExitActionFunctionName = fn[ex];
	const bool want = (n == 0 || n == 4) && en != 3 && ex != 3;
	const bool threw = fails([&] { e.createPlace(p); });
	CHECKP(8, threw == !want, "a place is rejected exactly for an empty or used name or an unknown function");
	const Snapshot after(e);
	if (!want)
	{
		sym_cover("rejected");
		CHECKP(8, after == before, "a rejected place leaves the net unchanged");
		CHECKP(8, n == 1 || n == 3 || n == 2 || fails([&] { e.getNumberOfTokens(p.name); }), "a rejected place does not exist");
	}
	else
	{
		sym_cover("accepted");
		Snapshot w = before;
		if (en) p.onEnterAction = [] {};
		if (ex) p.onExitAction = [] {};
		w.places.push_back(p);
		CHECKP(8, after == w, "an accepted place is there as requested, and nothing else changes");
		CHECKP(8, e.getNumberOfTokens(p.name) == p.initialNumberOfTokens, "an accepted place has the requested tokens");
		const bool inputWorks = !fails([&] { e.incrementInputPlace(p.name); });
		CHECKP(8, inputWorks == (p.input & (p.initialNumberOfTokens != MAXTOK)), "an accepted place takes input as requested");
		if (inputWorks) CHECKP(8, ran == (en == 1 ? 1 : en == 2 ? 10 : 0), "the requested entry action is used");
	}
	CHECKP(8, ran == 0 || want, "a rejected request runs nothing");
}
#elif SCEN == 3
// createTransition with any mixture of valid and invalid parts.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	e.registerCondition("yes", [] { return true; });
	const uint64_t a0 = sym_u64("a0");
	e.createPlace({ .name = "A", .initialNumberOfTokens = a0 });
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A", 2) }, .destinationArcs = { arc("B") }, .additionalConditions = { [] { return false; } } });
	const Snapshot before(e);
	TransitionProperties t;
	static const char *const names[] = { "U", "T", "", "A" };
	const uint64_t n = sym_choice("name", 4);
	t.name = names[n];
	const uint64_t kind = sym_choice("list", 3); // which list carries the interesting arcs
	static const char *const pl[] = { "A", "B", "nope", "" };
	const uint64_t count = sym_choice("count", 4);
	std::vector<ArcProperties> v;
	bool unknown = false, repeated = false, zero = false;
	for (uint64_t i = 0; i < count; i++)
	{
		const uint64_t p = sym_choice("place", 4), w = sym_u64("w");
		for (const auto &x : v) repeated = repeated || x.placeName == pl[p];
		v.push_back(arc(pl[p], w));
		unknown = unknown || p >= 2;
		zero = zero | (w == 0);
	}
	(kind == 0 ? t.activationArcs : kind == 1 ? t.destinationArcs : t.inhibitorArcs) = v;
	(kind == 0 ? t.destinationArcs : t.activationArcs) = std::vector<ArcProperties>{ arc("B", 5) };
	t.requireNoActionsInExecution = sym_bool("noActions");
	const uint64_t cond = sym_choice("cond", 3);
	if (cond == 1) t.additionalConditionsNames = { "yes" };
	if (cond == 2) t.additionalConditionsNames = { "yes", "nope" };
	const bool structural = n == 1 || n == 2 || unknown || repeated || cond == 2;
	const bool want = !structural & !zero;
	const bool threw = fails([&] { e.createTransition(t); });
	CHECKP(8, threw == !want, "a transition is rejected exactly for a bad name, place, function, repetition or weight");
	const Snapshot after(e);
	if (threw)
	{
		CHECKP(8, after == before, "a rejected transition leaves the net unchanged");
		if (unknown) sym_cover("unknown-place");
		else if (repeated) sym_cover("repeated");
		else if (n == 1) sym_cover("used-name");
		else if (n == 2) sym_cover("empty-name");
		else if (cond == 2) sym_cover("unknown-condition");
		else sym_cover("zero-weight");
	}
	else
	{
		sym_cover("accepted");
		Snapshot w = before;
		for (auto *l : { &t.activationArcs, &t.destinationArcs, &t.inhibitorArcs })
			for (auto &x : *l)
			{
				x.transitionName = t.name;
				x.type = l == &t.activationArcs ? AT::ACTIVATION : l == &t.destinationArcs ? AT::DESTINATION : AT::INHIBITOR;
			}
		if (cond == 1) t.additionalConditions = { [] { return true; } };
		w.transitions.push_back(t);
		CHECKP(8, after == w, "an accepted transition is there as requested, and nothing else changes");
	}
	CHECKP(8, e.getNumberOfTokens("A") == a0, "defining moves no token");
}
#elif SCEN == 4
// Sequences of arc edits on a net with two transitions; afterwards the net is fired once.
int main()
{
	RefNet<2, 2> n;
	for (int p = 0; p < 2; p++) n.tok[p] = sym_u64("tok");
	// T starts with a choice of arcs, U with a fixed set
	const uint64_t pre = sym_choice("initial", 4);
	auto set = [](RefArc &a) { a.on = true; a.w = sym_u64("w"); sym_assume(a.w != 0); };
	if (pre & 1) set(n.tr[0].act[0]);
	if (pre & 2) set(n.tr[0].dst[0]);
	if (pre == 3) set(n.tr[0].inh[1]);
	n.tr[1].act[1] = { true, 2 };
	n.tr[1].dst[0] = { true, 3 };
	PTN_Engine e(TO::SINGLE_THREAD);
	for (int p = 0; p < 2; p++) e.createPlace({ .name = PN[p], .initialNumberOfTokens = n.tok[p] });
	e.createPlace({ .name = "onceT", .initialNumberOfTokens = 1 });
	e.createPlace({ .name = "onceU" });
	auto t = n.properties(0, "T", PN), u = n.properties(1, "U", PN);
	t.activationArcs.push_back(arc("onceT"));
	u.activationArcs.push_back(arc("onceU"));
	e.createTransition(t);
	e.createTransition(u);
	static const AT types[] = { AT::ACTIVATION, AT::BIDIRECTIONAL, AT::DESTINATION, AT::INHIBITOR };
	for (int i = 0; i < EDITS; i++)
	{
		const bool add = sym_bool("add");
		const uint64_t p = sym_choice("place", 3), ti = sym_choice("transition", 3), ty = sym_choice("type", 4);
		const uint64_t w = sym_u64("weight");
		const ArcProperties a = arc(p < 2 ? PN[p] : "nope", w, ti == 0 ? "T" : ti == 1 ? "U" : "nope", types[ty]);
		std::vector<RefArc *> l;
		bool ok = p < 2 && ti < 2;
		if (ok)
		{
			auto &r = n.tr[ti];
			if (ty == 0 || ty == 1) l.push_back(&r.act[p]);
			if (ty == 1 || ty == 2) l.push_back(&r.dst[p]);
			if (ty == 3) l.push_back(&r.inh[p]);
			for (auto *x : l) ok = ok && x->on != add;
			if (add) ok = ok && w != 0;
		}
		if (ok)
			for (auto *x : l)
			{
				x->on = add;
				x->w = w;
			}
		const bool threw = fails([&] { if (add) e.addArc(a); else e.removeArc(a); });
		CHECKP(9, threw == !ok, "an edit fails exactly when it cannot be honoured");
		sym_cover(ok ? (add ? "added" : "removed") : (add ? "rejected-add" : "rejected-remove"));
		if (PROP != 10)
		{
			auto wantT = n.properties(0, "T", PN), wantU = n.properties(1, "U", PN);
			wantT.activationArcs.push_back(arc("onceT"));
			wantU.activationArcs.push_back(arc("onceU"));
			const Snapshot s(e);
			bool same = s.places.size() == 4 && s.transitions.size() == 2;
			for (auto *x : { &wantT, &wantU })
			{
				for (auto *l2 : { &x->activationArcs, &x->destinationArcs, &x->inhibitorArcs })
					for (auto &y : *l2)
					{
						y.transitionName = x->name;
						y.type = l2 == &x->activationArcs ? AT::ACTIVATION : l2 == &x->destinationArcs ? AT::DESTINATION : AT::INHIBITOR;
					}
				const auto *g = s.transition(x->name.c_str());
				same = same && g;
				if (g) same = same & sameTransition(*g, *x);
			}
			CHECKP(9, same, "after an edit the arcs are exactly the requested ones, after a rejected edit those from before");
		}
	}
	if (PROP == 9) return 0;
	const bool en = n.enabled(0), over = n.overflows(0);
	const bool threw = fails([&] { e.execute(); });
	if (over & en) return 0;
	CHECKP(10, !threw, "an edited net runs like one declared at once");
	if (en) n.fire(0);
	CHECKP(10, (e.getNumberOfTokens("A") == n.tok[0]) & (e.getNumberOfTokens("B") == n.tok[1]), "an edited net moves the same tokens as one declared at once");
	CHECKP(10, e.getNumberOfTokens("onceT") == (en ? 0 : 1), "an edited net fires like one declared at once");
}
#elif SCEN == 5
// A net with every feature is reported as defined; describing changes nothing.
static int g_hit;
// what running the functions of a description does
static std::string effects(const Snapshot &s, const std::vector<PlaceProperties> &ps, const std::vector<TransitionProperties> &ts)
{
	std::string r;
	auto run = [&r](const auto &f) { g_hit = 0; if (f) f(); r += std::to_string(g_hit) + ","; };
	for (const auto &p : ps)
	{
		const auto *q = s.place(p.name.c_str());
		if (q) run(q->onEnterAction), run(q->onExitAction);
	}
	for (const auto &t : ts)
	{
		const auto *u = s.transition(t.name.c_str());
		if (u) for (const auto &c : u->additionalConditions) run(c);
	}
	return r;
}
int main()
{
	const bool focus = sym_bool("places-or-transitions"); // which of them vary freely
	PTN_Engine e(focus ? (TO)sym_choice("mode", 4) : TO::SINGLE_THREAD);
	e.registerAction("f", [] { g_hit = 1; });
	e.registerAction("g", [] { g_hit = 2; });
	e.registerCondition("c", [] { g_hit = 3; return false; });
	e.registerCondition("d", [] { g_hit = 4; return false; });
	std::vector<PlaceProperties> ps;
	std::vector<TransitionProperties> ts;
	const uint64_t np = focus ? 1 + sym_choice("places", 3) : 2;
	for (uint64_t i = 0; i < np; i++)
	{
		PlaceProperties p;
		p.name = PN[i];
		p.initialNumberOfTokens = sym_u64("tok");
		p.input = focus ? sym_bool("input") : i == 1;
		const uint64_t k = i == 0 && focus ? sym_choice("enter", 3) : i, l = i == 0 && focus ? sym_choice("exit", 3) : 2 - i;
		if (k == 1) p.onEnterActionFunctionName = "f";
		if (k == 2) p.onEnterAction = [i] { g_hit = 10 + (int)i; };
		if (l == 1) p.onExitActionFunctionName = "g";
		if (l == 2) p.onExitAction = [i] { g_hit = 20 + (int)i; };
		e.createPlace(p);
		if (k == 1) p.onEnterAction = [] { g_hit = 1; };
		if (l == 1) p.onExitAction = [] { g_hit = 2; };
		ps.push_back(p);
	}
	const uint64_t nt = focus ? sym_choice("transitions", 2) : 2;
	for (uint64_t i = 0; i < nt; i++)
	{
		TransitionProperties t;
		t.name = i ? "U" : "T";
		for (uint64_t p = 0; p < np && p < 2; p++)
		{
			const uint64_t k = i == 0 && !focus ? sym_choice("arcs", 8) : 5;
			const uint64_t w1 = sym_u64("w1"), w2 = sym_u64("w2"), w3 = sym_u64("w3");
			sym_assume((w1 != 0) & (w2 != 0) & (w3 != 0));
			if (k & 1) t.activationArcs.push_back(arc(PN[p], w1));
			if (k & 2) t.destinationArcs.push_back(arc(PN[p], w2));
			if (k & 4) t.inhibitorArcs.push_back(arc(PN[p], w3));
		}
		const uint64_t c = i == 0 && !focus ? sym_choice("conds", 4) : 2;
		if (c == 1) t.additionalConditionsNames = { "c" };
		if (c == 2) t.additionalConditionsNames = { "d", "c" };
		if (c == 3) t.additionalConditions = { [i] { g_hit = 30 + (int)i; return false; } };
		t.requireNoActionsInExecution = i == 0 && !focus ? sym_bool("noActions") : true;
		e.createTransition(t);
		for (size_t j = 0; j < t.additionalConditionsNames.size(); j++) t.additionalConditions.push_back([d = t.additionalConditionsNames[j] == "d"] { g_hit = d ? 4 : 3; return false; });
		if (c == 3) t.additionalConditionsNames = { "" };
		for (auto *l : { &t.activationArcs, &t.destinationArcs, &t.inhibitorArcs })
			for (auto &x : *l)
			{
				x.transitionName = t.name;
				x.type = l == &t.activationArcs ? AT::ACTIVATION : l == &t.destinationArcs ? AT::DESTINATION : AT::INHIBITOR;
			}
		ts.push_back(t);
	}
	Snapshot s(e);
	CHECKP(11, s.places.size() == np && s.transitions.size() == nt, "each place and transition is reported once");
	Snapshot w = s;
	w.places = ps;
	w.transitions = ts;
	// an anonymous condition may be reported without a name
	for (auto &t : s.transitions) if (t.additionalConditions.size() == 1 && (t.additionalConditionsNames.empty())) t.additionalConditionsNames = { "" };
	CHECKP(11, s == w, "names, counts, flags, functions, arcs, weights and options are those defined");
	CHECKP(11, effects(s, ps, ts) == effects(w, ps, ts), "the functions reported are those given");
	bool same = true;
	for (const auto &p : ps) same = same & (e.getNumberOfTokens(p.name) == p.initialNumberOfTokens);
	CHECKP(11, same, "reading the description does not change the marking");
	Snapshot s2(e);
	for (auto &t : s2.transitions) if (t.additionalConditions.size() == 1 && (t.additionalConditionsNames.empty())) t.additionalConditionsNames = { "" };
	CHECKP(11, s2 == s, "reading the description twice gives the same");
	sym_cover("end");
}
#elif SCEN == 6
// Clearing and rebuilding, possibly a different net under the same names.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	int ran = 0;
	e.registerAction("f", [&ran] { ran++; });
	bool cond = true;
	e.registerCondition("c", [&cond] { return cond; });
	const uint64_t a0 = sym_range("a0", 0, 3), fl = sym_choice("flags", 4);
	for (int p = 0; p < 3; p++) e.createPlace({ .name = PN[p], .initialNumberOfTokens = p == 0 ? a0 : 0, .onEnterActionFunctionName = p == 1 ? "f" : "", .input = ((fl >> p) & 1) != 0 });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") }, .additionalConditionsNames = { "c" }, .requireNoActionsInExecution = sym_bool("noActions") });
	e.createTransition({ .name = "U", .activationArcs = { arc("B") }, .destinationArcs = { arc("C") } });
	if (sym_bool("run-before")) e.execute();
	ran = 0;
	const uint64_t times = 1 + sym_choice("clear-twice", 2);
	for (uint64_t i = 0; i < times; i++) e.clearNet();
	Snapshot s(e);
	CHECKP(24, s.places.empty() && s.transitions.empty(), "a cleared net reports nothing");
	for (int p = 0; p < 3; p++)
	{
		CHECKP(24, fails([&] { e.getNumberOfTokens(PN[p]); }), "an old place does not resolve");
		CHECKP(24, fails([&] { e.incrementInputPlace(PN[p]); }), "an old input place does not resolve");
	}
	CHECKP(24, fails([&] { e.addArc(arc("A", 1, "T")); }), "an old transition does not resolve");
	CHECKP(24, fails([&] { e.createTransition({ .name = "T", .activationArcs = { arc("A") } }); }), "an old place cannot be used in a transition");
	e.execute();
	CHECKP(24, ran == 0, "nothing fires in a cleared net");
	// rebuild with other roles
	const uint64_t tok = sym_u64("tok"), w = sym_u64("w");
	sym_assume(w != 0);
	e.createPlace({ .name = "B", .initialNumberOfTokens = tok, .onExitActionFunctionName = "f", .input = true });
	s = Snapshot(e);
	CHECKP(24, s.places.size() == 1 && s.transitions.empty() && e.getNumberOfTokens("B") == tok, "a rebuilt place starts as defined");
	CHECKP(24, fails([&] { e.createTransition({ .name = "T", .activationArcs = { arc("B") }, .destinationArcs = { arc("A") } }); }), "places not redefined stay unknown");
	e.createPlace({ .name = "A" });
	e.createTransition({ .name = "T", .activationArcs = { arc("B", w) }, .destinationArcs = { arc("A") }, .inhibitorArcs = { arc("A") }, .additionalConditionsNames = { "c" } });
	CHECKP(24, fails([&] { e.incrementInputPlace("A"); }), "old input flags are gone");
	cond = sym_bool("cond");
	e.execute();
	const bool fire = (tok >= w) & cond;
	CHECKP(24, (e.getNumberOfTokens("B") == (fire ? tok - w : tok)) & (e.getNumberOfTokens("A") == (fire ? 1 : 0)), "the new net behaves as in a fresh engine");
	CHECKP(24, ran == (fire ? 1 : 0), "functions registered before clearing stay registered");
	sym_cover("rebuilt");
}
#elif SCEN == 16
// Nets of every shape, one after the other in the same engine.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	int ran = 0;
	e.registerAction("f", [&ran] { ran++; });
	for (int round = 0; round < NOPS; round++)
	{
		const uint64_t places = sym_choice("places", 4), transitions = sym_choice("transitions", 4);
		const uint64_t tok = sym_u64("tok"), w = sym_range("w", 1, 3);
		sym_assume(tok <= 1000);
		if (places & 1) e.createPlace({ .name = "A", .initialNumberOfTokens = tok, .onExitActionFunctionName = "f", .input = true });
		if (places & 2) e.createPlace({ .name = "B" });
		// without arcs where there is nothing to connect
		if (transitions & 1)
		{
			TransitionProperties t{ .name = "T" };
			if (places & 1) t.activationArcs = { arc("A", w) };
			if (places & 2) t.inhibitorArcs = { arc("B") }, t.destinationArcs = { arc("B") };
			if (!places) t.additionalConditions = { [] { return false; } };
			e.createTransition(t);
		}
		if (transitions & 2) e.createTransition({ .name = "U", .additionalConditions = { [] { return false; } } });
		ran = 0;
		if (places != 1) e.execute();
		if (places == 3)
		{
			const bool fire = (transitions & 1) & (tok >= w);
			CHECKP(24, (e.getNumberOfTokens("A") == (fire ? tok - w : tok)) & (e.getNumberOfTokens("B") == (fire ? 1 : 0)), "the net behaves as in a fresh engine");
			CHECKP(24, (ran == 1) == fire, "actions run as in a fresh engine");
		}
		sym_cover(places == 3 ? "net" : "part");
		e.clearNet();
		Snapshot s(e);
		CHECKP(24, s.places.empty() && s.transitions.empty(), "a cleared net reports nothing");
		CHECKP(24, fails([&] { e.getNumberOfTokens("A"); }) && fails([&] { e.getNumberOfTokens("B"); }) && fails([&] { e.incrementInputPlace("A"); }), "an old place does not resolve");
	}
	CHECKP(24, !fails([&] {
		e.createPlace({ .name = "A" });
		e.createPlace({ .name = "B" });
		e.createTransition({ .name = "T" , .activationArcs = { arc("A") } });
		e.createTransition({ .name = "U" , .activationArcs = { arc("B") } });
	}), "old names can be used again");
	sym_cover("end");
}
#elif SCEN == 7
// Functions resolve to what was registered under the name.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	std::string log;
	static const char *const names[] = { "f", "g", "h" };
	bool used[3] = {};
	uint64_t impl[3] = {};
	for (int i = 0; i < 3; i++)
	{
		const uint64_t k = sym_choice("register", 4); // 3: empty name
		const char c = (char)('1' + i);
		const bool threw = fails([&] { e.registerAction(k == 3 ? "" : names[k], [&log, c] { log += c; }); });
		const bool want = k == 3 || used[k];
		CHECKP(26, threw == want, "registering fails exactly for an empty or used name");
		if (want) sym_cover("rejected");
		else
		{
			used[k] = true;
			impl[k] = i;
		}
	}
	const uint64_t en = sym_choice("enter", 3), ex = sym_choice("exit", 3);
	PlaceProperties pp{ .name = "A", .onEnterActionFunctionName = names[en], .onExitActionFunctionName = names[ex], .input = true };
	// a function given beside a name does not replace the registered one
	if (sym_choice("direct-enter", 2)) pp.onEnterAction = [&log] { log += 'D'; };
	if (sym_choice("direct-exit", 2)) pp.onExitAction = [&log] { log += 'E'; };
	const bool threw = fails([&] { e.createPlace(pp); });
	CHECKP(26, threw == (!used[en] || !used[ex]), "a place may refer exactly to registered functions");
	if (threw) return 0;
	e.createPlace({ .name = "B" });
	e.createTransition({ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } });
	// later registrations do not change what is already bound
	const bool again = fails([&] { e.registerAction(names[en], [&log] { log += 'X'; }); });
	CHECKP(26, again, "a used name cannot be registered again");
	e.incrementInputPlace("A");
	std::string want(1, (char)('1' + impl[en]));
	CHECKP(26, log == want, "the entry action is the function registered under its name");
	e.execute();
	want += (char)('1' + impl[ex]);
	CHECKP(26, log == want, "the exit action is the function registered under its name");
	const Snapshot s(e);
	CHECKP(26, s.place("A")->onEnterActionFunctionName == names[en] && s.place("A")->onExitActionFunctionName == names[ex], "the names are kept apart");
	s.place("A")->onEnterAction();
	s.place("A")->onExitAction();
	CHECKP(26, log == want + want, "the reported functions are the registered ones");
	sym_cover("end");
}
#elif SCEN == 8 || SCEN == 25
// Printed state: every place once, with its count; also after firing and input.
static int hash(const char *s) { int h = 0; while (*s) h = h * 31 + *s++; return h; }
static std::string shown(std::string s) { for (char &c : s) if (!c) c = 3; return s; } // how sym_out_text shows a name
static size_t occurrences(const std::string &name)
{
	const std::string needle = shown(name);
	size_t n = 0;
	for (size_t i = 0; i < sym_out_count(); i++)
		if (!sym_out_isnum(i))
		{
			std::string t = sym_out_text(i);
			for (size_t at = t.find(needle); at != std::string::npos; at = t.find(needle, at + 1)) n++;
		}
	return n;
}
static bool printed(const std::string &name, uint64_t tokens)
{
	// the number that follows the name
	std::string text;
	for (size_t i = 0; i < sym_out_count(); i++)
	{
		if (sym_out_isnum(i))
		{
			const size_t at = text.find(shown(name));
			if (at != std::string::npos) return sym_out_num(i) == tokens;
			text.clear();
		}
		else
			text += sym_out_text(i);
	}
	return false;
}
#if SCEN == 25
// A name with any character (but digits, which would be taken for counts, and those the harness uses itself) at any position.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	uint64_t c = sym_range("c", 4, 255);
	sym_assume((c < '0') | (c > '9'));
	std::string name = "pq";
	name.insert(sym_choice("at", 3), 1, (char)c);
	const uint64_t tok = sym_u64("tok");
	e.createPlace({ .name = name, .initialNumberOfTokens = tok });
	e.createPlace({ .name = "Other", .initialNumberOfTokens = 5 });
	e.printState(sym_ostream());
	c = sym_concretize(c);
	for (char &x : name) if (x != 'p' && x != 'q') x = (char)c;
	CHECKP(27, occurrences(name) == 1 && occurrences("Other") == 1, "every place is printed exactly once, whatever its name");
	CHECKP(27, printed(name, tok) && printed("Other", 5), "the printed count is the current one");
	sym_cover("end");
}
#else
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	static const std::string names[] = { "Alpha", "Beta of many words; and marks: first \"x\"\n", std::string("Gamma\xff and\0 more", 16), "Delta" };
	uint64_t tok[4];
	const uint64_t n = sym_choice("places", 5);
	for (uint64_t i = 0; i < n; i++)
	{
		tok[i] = sym_u64("tok");
		e.createPlace({ .name = names[i], .initialNumberOfTokens = tok[i], .input = true });
	}
	for (int round = 0; round < 2; round++)
	{
		sym_out_clear();
		e.printState(sym_ostream());
		for (uint64_t i = 0; i < 4; i++)
		{
			CHECKP(27, occurrences(names[i]) == (i < n ? 1 : 0), "every place is printed exactly once, others not at all");
			if (i < n) CHECKP(27, printed(names[i], tok[i]), "the printed count is the current one");
		}
		size_t nums = 0;
		for (size_t i = 0; i < sym_out_count(); i++) nums += sym_out_isnum(i);
		CHECKP(27, nums == n, "one number per place");
		for (uint64_t i = 0; i < n; i++) CHECKP(27, e.getNumberOfTokens(names[i]) == tok[i], "printing changes nothing");
		if (n && tok[0] != MAXTOK)
		{
			e.incrementInputPlace(names[0]);
			tok[0]++;
		}
	}
	sym_cover("end");
}
#endif
#elif SCEN == 9
// A logged run and the same run without logging; the log shows the state before each step.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	const uint64_t a = sym_range("a", 0, 3), b = sym_u64("b"), v = sym_u64("v");
	sym_assume((v != 0) & (b < MAXTOK / 8) & (v < MAXTOK / 8));
	e.createPlace({ .name = "Alpha", .initialNumberOfTokens = a });
	e.createPlace({ .name = "Beta", .initialNumberOfTokens = b });
	e.createTransition({ .name = "T", .activationArcs = { arc("Alpha") }, .destinationArcs = { arc("Beta", v) } });
	const bool log = sym_bool("log");
	if (log) e.execute(true, sym_ostream());
	else e.execute(false, sym_ostream());
	CHECKP(27, e.getNumberOfTokens("Alpha") == 0 && e.getNumberOfTokens("Beta") == b + a * v, "logging does not change what the net does");
	if (!log)
	{
		CHECKP(27, sym_out_count() == 0, "a run without logging prints nothing");
		sym_cover("unlogged");
		return 0;
	}
	// numbers come in pairs, one pair per step: the state before the step
	uint64_t step = 0, seenA = 0, seenB = 0;
	std::string text;
	for (size_t i = 0; i < sym_out_count(); i++)
	{
		if (!sym_out_isnum(i)) { text += sym_out_text(i); continue; }
		const bool isA = text.find("Alpha") != std::string::npos, isB = text.find("Beta") != std::string::npos;
		CHECKP(27, isA != isB, "every number belongs to one place");
		text.clear();
		const uint64_t want = isA ? a - step : b + step * v;
		CHECKP(27, sym_out_num(i) == want, "the log shows the state before each step");
		(isA ? seenA : seenB)++;
		if (seenA == step + 1 && seenB == step + 1) step++;
	}
	CHECKP(27, step == a + 1 && seenA == step && seenB == step, "one state per step is printed, the last one without a firing");
	sym_cover("logged");
}
#elif SCEN == 10
// Conditions: names resolve to the registered functions, in the given order.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	std::string log;
	const bool v[3] = { sym_bool("v0"), sym_bool("v1"), sym_bool("v2") };
	static const char *const names[] = { "c", "d", "e" };
	for (int i = 0; i < 3; i++) e.registerCondition(names[i], [&log, &v, i] { log += (char)('1' + i); return v[i]; });
	CHECKP(26, fails([&] { e.registerCondition("d", [] { return true; }); }) && fails([&] { e.registerCondition("", [] { return true; }); }), "an empty or used condition name fails");
	const uint64_t o1 = sym_choice("first", 3), o2 = sym_choice("second", 4);
	TransitionProperties t{ .name = "T", .activationArcs = { arc("A") }, .destinationArcs = { arc("B") } };
	t.additionalConditionsNames.push_back(names[o1]);
	if (o2 < 3) t.additionalConditionsNames.push_back(names[o2]);
	if (sym_choice("direct", 2)) t.additionalConditions = { [&log] { log += 'D'; return false; } };
	e.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	e.createPlace({ .name = "B" });
	e.createTransition(t);
	e.execute();
	bool want = v[o1];
	if (o2 < 3) want = want && v[o2];
	CHECKP(26, e.getNumberOfTokens("B") == (want ? 1 : 0), "exactly the named conditions decide");
	const Snapshot s(e);
	const auto *r = s.transition("T");
	CHECKP(26, r->additionalConditionsNames == t.additionalConditionsNames, "the condition names are kept in order");
	CHECKP(26, r->additionalConditions.size() == t.additionalConditionsNames.size(), "one function per name");
	log.clear();
	for (const auto &f : r->additionalConditions) f();
	std::string w(1, (char)('1' + o1));
	if (o2 < 3) w += (char)('1' + o2);
	CHECKP(26, log == w, "the reported conditions are the registered ones, in order");
	sym_cover("end");
}
#elif SCEN == 17
// Names are any bytes: only the empty name and a used one are refused, and a name means the thing created under it.
static std::string anyName()
{
	std::string s(sym_choice("length", LEN + 1), ' ');
	for (char &c : s) c = (char)sym_u8("byte");
	return s;
}
static bool same(const std::string &a, const std::string &b)
{
	if (a.size() != b.size()) return false;
	bool eq = true;
	for (size_t i = 0; i < a.size(); i++) eq = eq & (a[i] == b[i]);
	return eq;
}
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	const std::string a = anyName(), b = anyName();
	const bool aOk = !a.empty(), eq = same(a, b), bOk = !b.empty() && !(aOk && eq);
	sym_cover(a.empty() || b.empty() ? "empty" : eq ? "same" : "different");
	int ran = 0;
	switch (sym_choice("what", 4))
	{
	case 0: {
		const bool f1 = fails([&] { e.createPlace({ .name = a, .initialNumberOfTokens = 5, .input = true }); });
		CHECKP(8, f1 == !aOk, "a place is refused only for an empty name or a used one");
		const bool f2 = fails([&] { e.createPlace({ .name = b, .initialNumberOfTokens = 7, .input = true }); });
		CHECKP(8, f2 == !bOk, "a place is refused only for an empty name or a used one");
		CHECKP(8, e.getPlacesProperties().size() == (size_t)aOk + bOk, "exactly the accepted places exist");
		if (aOk) CHECKP(8, e.getNumberOfTokens(a) == 5, "a name means the place created under it");
		if (bOk) CHECKP(8, e.getNumberOfTokens(b) == 7, "a name means the place created under it");
		const bool f3 = fails([&] { e.incrementInputPlace(b); });
		CHECKP(7, f3 == b.empty(), "input is accepted under every name of an input place");
		if (bOk) CHECKP(7, e.getNumberOfTokens(b) == 8, "input goes to the place of that name");
		if (aOk) CHECKP(7, e.getNumberOfTokens(a) == 5 + (uint64_t)(eq && aOk), "input goes to the place of that name only");
		break;
	}
	case 1: {
		e.createPlace({ .name = "P", .initialNumberOfTokens = 4 });
		e.createPlace({ .name = "Q" });
		const bool f4 = fails([&] { e.createTransition({ .name = a, .activationArcs = { arc("P", 9) } }); });
		CHECKP(8, f4 == !aOk, "a transition is refused only for an empty name or a used one");
		const bool f5 = fails([&] { e.createTransition({ .name = b, .activationArcs = { arc("P", 3) }, .destinationArcs = { arc("Q") } }); });
		CHECKP(8, f5 == !bOk, "a transition is refused only for an empty name or a used one");
		CHECKP(8, e.getTransitionsProperties().size() == (size_t)aOk + bOk, "exactly the accepted transitions exist");
		e.execute();
		CHECKP(8, e.getNumberOfTokens("P") == (bOk ? 1 : 4) && e.getNumberOfTokens("Q") == bOk, "an accepted transition works, whatever its name");
		break;
	}
	case 2: {
		const bool f6 = fails([&] { e.registerAction(a, [&] { ran += 1; }); });
		CHECKP(26, f6 == !aOk, "an action is refused only for an empty name or a used one");
		const bool f7 = fails([&] { e.registerAction(b, [&] { ran += 10; }); });
		CHECKP(26, f7 == !bOk, "an action is refused only for an empty name or a used one");
		e.createPlace({ .name = "P", .onEnterActionFunctionName = b, .input = true });
		e.incrementInputPlace("P");
		CHECKP(26, ran == (b.empty() ? 0 : bOk ? 10 : 1), "a name means the action registered under it");
		break;
	}
	default: {
		const bool f8 = fails([&] { e.registerCondition(a, [&] { ran += 1; return false; }); });
		CHECKP(26, f8 == !aOk, "a condition is refused only for an empty name or a used one");
		const bool f9 = fails([&] { e.registerCondition(b, [&] { ran += 10; return false; }); });
		CHECKP(26, f9 == !bOk, "a condition is refused only for an empty name or a used one");
		TransitionProperties t{ .name = "T" };
		t.additionalConditionsNames = { b };
		const bool refused = fails([&] { e.createTransition(t); });
		CHECKP(26, refused == b.empty(), "every registered name can be used");
		if (refused) break;
		ran = 0;
		e.execute();
		CHECKP(26, ran != 0 && ran % (bOk ? 10 : 1) == 0 && (bOk || ran < 10), "a name means the condition registered under it");
		break;
	}
	}
}
#endif
