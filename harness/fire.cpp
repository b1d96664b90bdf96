// One transition over symbolic markings, weights, arcs and conditions, fired at most once.
//@run prop=C01,C02,C03 name=fire kind=seq covers=fired,blocked-tokens,blocked-inhibitor,no-input-arc,self-loop define=NP=2 tdefine=NP=3 ttime=900
//@run prop=C01,C02,C03 name=fire3 kind=seq covers=fired,blocked-tokens,blocked-inhibitor,self-loop define=NP=3,SIMPLE=1 tdefine=NP=4 ttime=900
//@run prop=C01 name=no-arcs kind=seq covers=end define=SCEN=2
//@run prop=C01 name=conditions kind=seq covers=cond-true,cond-false define=SCEN=1
#include "common.h"
#ifndef SCEN
#define SCEN 0
#endif
#ifndef SIMPLE
#define SIMPLE 0
#endif
#ifndef NP
#define NP 2
#endif
static const char *const PN[] = { "A", "B", "C", "D" };

#if SCEN == 0
int main()
{
	// every place may be input, output and inhibitor of T in any combination; what limits T to one firing:
	// 0: a place of its own, 1: a condition, 2: an input place that has not enough for two
	const uint64_t limit = SIMPLE ? 2 : sym_choice("limit", 3);
	RefNet<NP, 1> n;
	bool anyAct = false, self = false, any = false, spent = false;
	for (int p = 0; p < NP; p++)
	{
		auto &t = n.tr[0];
		t.act[p].on = SIMPLE && p == 0 ? true : sym_bool("act"); // the first place limits T then
		t.dst[p].on = SIMPLE && p == 0 ? false : sym_bool("dst");
		t.inh[p].on = sym_bool("inh");
		t.act[p].w = sym_u64("aw");
		t.dst[p].w = sym_u64("dw");
		t.inh[p].w = sym_u64("iw");
		n.tok[p] = sym_u64("tok");
		sym_assume((t.act[p].w != 0) & (t.dst[p].w != 0) & (t.inh[p].w != 0));
		anyAct = anyAct | t.act[p].on;
		self = self | (t.act[p].on & t.dst[p].on);
		any = any | t.act[p].on | t.dst[p].on;
		if (!SIMPLE || p == 0) spent = spent | (t.act[p].on & !t.dst[p].on & ((n.tok[p] < t.act[p].w) | (n.tok[p] - t.act[p].w < t.act[p].w)));
	}
	if (limit == 1) sym_assume(any);
	if (limit == 2) sym_assume(spent);
	bool fired = false;
	PTN_Engine e(TO::SINGLE_THREAD);
	for (int p = 0; p < NP; p++)
	{
		PlaceProperties pp{ .name = PN[p], .initialNumberOfTokens = n.tok[p] };
		if (limit == 1) pp.onEnterAction = pp.onExitAction = [&] { fired = true; };
		e.createPlace(pp);
	}
	if (limit == 0) e.createPlace({ .name = "once" });
	e.createPlace({ .name = "other", .initialNumberOfTokens = n.tok[0] });
	auto tp = n.properties(0, "T", PN);
	tp.requireNoActionsInExecution = sym_bool("resting"); // nothing is in execution here
	if (limit == 0)
	{
		tp.destinationArcs.push_back(arc("once"));
		tp.inhibitorArcs.push_back(arc("once", 7));
	}
	if (limit == 1) tp.additionalConditions = { [&] { return !fired; } };
	e.createTransition(tp);

	const bool en = n.enabled(0);
	const bool over = n.overflows(0);
	const bool threw = fails([&] { e.execute(); });
	CHECKP(3, threw == (en & over), "a firing that would exceed the largest token count, and only that, is reported as an error");
	if (threw)
	{
		bool same = true;
		for (int p = 0; p < NP; p++) same = same & (e.getNumberOfTokens(PN[p]) == n.tok[p]);
		CHECKP(3, same, "a firing that fails leaves every place with the count it had");
		CHECKP(3, (limit != 0 || e.getNumberOfTokens("once") == 0) && e.getNumberOfTokens("other") == n.tok[0], "a firing that fails leaves other places alone");
		return 0;
	}
	if (limit == 0) fired = e.getNumberOfTokens("once") != 0;
	if (limit == 2) fired = en & !over; // to be seen in the marking
	CHECKP(1, fired == (en & !over), "the transition fires exactly when the firing rule allows it");
	if (fired)
	{
		sym_cover("fired");
		if (!anyAct) sym_cover("no-input-arc");
		if (self) sym_cover("self-loop");
		n.fire(0);
		if (limit == 0) CHECKP(2, e.getNumberOfTokens("once") == 1, "the limiting place gains exactly one token");
	}
	else
	{
		bool inh = false, lack = false;
		for (int p = 0; p < NP; p++)
		{
			inh = inh | (n.tr[0].inh[p].on & (n.tok[p] != 0));
			lack = lack | (n.tr[0].act[p].on & (n.tok[p] < n.tr[0].act[p].w));
		}
		if (inh & !lack) sym_cover("blocked-inhibitor");
		if (lack & !inh) sym_cover("blocked-tokens");
	}
	bool same = true;
	for (int p = 0; p < NP; p++) same = same & (e.getNumberOfTokens(PN[p]) == n.tok[p]);
	if (limit == 2) CHECKP(1, same, "the transition fires exactly when the firing rule allows it");
	CHECKP(2, same, "every place loses the weight of its input arc and gains the weight of its output arc");
}
#elif SCEN == 1
// Conditions: named and anonymous ones, any truth values, together with the token rule.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	const uint64_t tok = sym_u64("tok"), w = sym_u64("w");
	sym_assume(w != 0);
	const bool v[3] = { sym_bool("c0"), sym_bool("c1"), sym_bool("c2") };
	const uint64_t nc = sym_choice("conditions", 4);
	const bool named = sym_bool("named");
	static const char *const CN[] = { "c0", "c1", "c2" };
	e.createPlace({ .name = "A", .initialNumberOfTokens = tok });
	e.createPlace({ .name = "once" });
	TransitionProperties t;
	t.name = "T";
	t.activationArcs = { arc("A", w) };
	t.destinationArcs = { arc("once") };
	t.inhibitorArcs = { arc("once") };
	bool all = true;
	for (uint64_t i = 0; i < nc; i++)
	{
		bool b = v[i];
		all = all & b;
		if (named)
		{
			e.registerCondition(CN[i], [b] { return b; });
			t.additionalConditionsNames.push_back(CN[i]);
		}
		else
			t.additionalConditions.push_back([b] { return b; });
	}
	e.createTransition(t);
	e.execute();
	const bool want = (tok >= w) & all;
	CHECKP(1, e.getNumberOfTokens("once") == (want ? 1 : 0), "the transition fires exactly when tokens and all conditions allow it");
	CHECKP(1, e.getNumberOfTokens("A") == (want ? tok - w : tok), "conditions decide about the tokens moved");
	if (want && nc) sym_cover("cond-true");
	if (tok >= w && !all) sym_cover("cond-false");
}
#elif SCEN == 2
// A transition without arcs, or with few of them: its conditions decide alone.
int main()
{
	PTN_Engine e(TO::SINGLE_THREAD);
	const uint64_t tok = sym_u64("tok"), left = sym_choice("times", 3), arcs = sym_choice("arcs", 4);
	sym_assume(tok <= 1000);
	uint64_t asked = 0;
	e.createPlace({ .name = "A", .initialNumberOfTokens = tok });
	e.createPlace({ .name = "B" });
	const bool named = sym_bool("named");
	auto c = [&] { return asked < left && ++asked; };
	if (named) e.registerCondition("c", c);
	TransitionProperties t{ .name = "T" };
	if (named) t.additionalConditionsNames = { "c" };
	else t.additionalConditions = { c };
	if (arcs & 1) t.destinationArcs = { arc("A", 2) };
	if (arcs & 2) t.inhibitorArcs = { arc("B", 3) };
	e.createTransition(t);
	e.execute();
	CHECKP(1, asked == left, "a transition without input arcs fires as long as its condition allows it");
	CHECKP(1, e.getNumberOfTokens("A") == (arcs & 1 ? tok + 2 * left : tok) && e.getNumberOfTokens("B") == 0, "each time it fires");
	sym_cover("end");
}
#endif
