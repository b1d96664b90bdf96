// Every pair of public operations from two threads. Oracle: the same operations one after the other, in either order, on engines of their own.
//@run prop=C20 name=pairs-stopped kind=conc q=0,1 t=0,1,2 covers=both,rejected define=SCEN=0,RUN=0 ttime=1200
//@run prop=C20 name=pairs-running kind=conc q=0,1 t=0,1,2 covers=both,rejected define=SCEN=0,RUN=1 ttime=1200
//@run prop=C20 name=pairs-firing kind=conc q=0,1 t=0,1,2 covers=both define=SCEN=1 ttime=1200
//@run prop=C20 name=triples kind=conc q=0 t=0,1 covers=both define=SCEN=2 ttime=1200
//@run prop=C20 name=logging kind=conc q=0,1 t=0,1,2 covers=end define=SCEN=3
//@run prop=C20 name=two-looks kind=conc q=0,1 t=0,1,2 covers=none,full define=SCEN=4
#include "common.h"
#include <algorithm>
#include <chrono>
#include <memory>
#include <thread>
using namespace std::chrono_literals;
static const auto FOREVER = 24h * 365;
static const char *const OPS[] = { "increment", "tokens", "places", "transitions", "print", "execute", "stop", "running", "mode", "place", "transition", "add-arc", "remove-arc",
	"clear", "register", "sleep", "get-mode", "get-sleep" };
static constexpr int NOPS = 18;
// operations whose pairs are tried with a running net in the quick tier
#if SCEN == 0 && RUN == 0 || SYM_TIER
static constexpr int N = NOPS;
static int sel(int k) { return k; }
#elif SCEN == 0
static const int SUB[] = { 0, 1, 2, 3, 5, 6, 7, 8, 9, 11, 13, 15 };
static constexpr int N = 12;
static int sel(int k) { return SUB[k]; }
#else
static const int SUB[] = { 0, 1, 2, 3, 5, 6, 13 };
static constexpr int N = 7;
static int sel(int k) { return SUB[k]; }
#endif
static std::string num(uint64_t v) { return std::to_string(v); }
static std::string arcsText(const std::vector<ArcProperties> &v)
{
	std::vector<std::string> t;
	for (const auto &a : v) t.push_back(a.placeName + "*" + num(a.weight));
	std::sort(t.begin(), t.end());
	std::string s;
	for (const auto &x : t) s += x + ",";
	return s;
}
static std::string text(const std::vector<PlaceProperties> &v)
{
	std::vector<std::string> t;
	for (const auto &p : v) t.push_back(p.name + ":" + num(p.initialNumberOfTokens) + (p.input ? "i" : "") + (p.onEnterAction ? "e" : "") + p.onEnterActionFunctionName);
	std::sort(t.begin(), t.end());
	std::string s;
	for (const auto &x : t) s += x + " ";
	return s;
}
static std::string text(const std::vector<TransitionProperties> &v)
{
	std::vector<std::string> t;
	for (const auto &p : v) t.push_back(p.name + ":" + arcsText(p.activationArcs) + ">" + arcsText(p.destinationArcs) + "!" + arcsText(p.inhibitorArcs) + num(p.additionalConditions.size()));
	std::sort(t.begin(), t.end());
	std::string s;
	for (const auto &x : t) s += x + " ";
	return s;
}
struct Env
{
	PTN_Engine e{ TO::JOB_QUEUE };
	Env(uint64_t need, bool run)
	{
		e.createPlace({ .name = "A", .initialNumberOfTokens = 1, .input = true });
		e.createPlace({ .name = "B" });
		e.createTransition({ .name = "T", .activationArcs = { arc("A", need) }, .destinationArcs = { arc("B", need) } });
		e.setEventLoopSleepDuration(FOREVER);
		if (run) e.execute(false, sym_ostream());
	}
	// who: distinguishes what the two threads define
	std::string op(int k, int who)
	{
		const std::string w(who ? "y" : "x");
		try
		{
			switch (k)
			{
			case 0: e.incrementInputPlace("A"); return "ok";
			case 1: return num(e.getNumberOfTokens("A"));
			case 2: return text(e.getPlacesProperties());
			case 3: return text(e.getTransitionsProperties());
			case 4: e.printState(sym_ostream()); return "ok";
			case 5: e.execute(false, sym_ostream()); return "ok";
			case 6: e.stop(); return "ok";
			case 7: return e.isEventLoopRunning() ? "yes" : "no";
			case 8: e.setActionsThreadOption(who ? TO::DETACHED : TO::EVENT_LOOP); return "ok";
			case 9: e.createPlace({ .name = "C", .initialNumberOfTokens = 5u + who, .onEnterActionFunctionName = "", .input = true }); return "ok";
			case 10: e.createTransition({ .name = "U", .activationArcs = { arc("A", 7 + who) } , .destinationArcs = { arc("B", 2) } }); return "ok";
			case 11: e.addArc(arc("B", 3 + who, "T", AT::INHIBITOR)); return "ok";
			case 12: e.removeArc(arc("A", 1, "T", AT::ACTIVATION)); return "ok";
			case 13: e.clearNet(); return "ok";
			case 14: e.registerAction("f", [] {}); e.registerCondition("c" + w, [] { return true; }); return "ok";
			case 15: e.setEventLoopSleepDuration(FOREVER + std::chrono::hours(1 + who)); return "ok";
			case 16: return num((int)e.getActionsThreadOption());
			default: return num(e.getEventLoopSleepDuration().count());
			}
		}
		catch (const std::exception &x)
		{
			return std::string("exception ") + x.what();
		}
	}
	std::string state()
	{
		return text(e.getPlacesProperties()) + "|" + text(e.getTransitionsProperties()) + "|" + num(e.isEventLoopRunning()) + num((int)e.getActionsThreadOption()) + "|" + num(e.getEventLoopSleepDuration().count());
	}
};

#if SCEN == 0
int main()
{
	// the pair, unordered
	uint64_t c = sym_choice("pair", N * (N + 1) / 2);
	int a = 0;
	while (c >= (uint64_t)(N - a)) { c -= N - a; a++; }
	const int b = sel(a + (int)c);
	a = sel(a);
	std::string ra, rb, st;
	{
		sym_config("no_preempt", 1);
		Env v(100, RUN);
		if (RUN) sym_idle(0);
		sym_config("no_preempt", 0);
		std::thread th([&] { rb = v.op(b, 1); });
		ra = v.op(a, 0);
		th.join();
		sym_config("no_preempt", 1);
		st = v.state();
		v.e.stop();
	}
	bool match = false;
	for (int order = 0; order < 2 && !match; order++)
	{
		Env v(100, RUN);
		std::string sa, sb;
		if (order) sb = v.op(b, 1);
		sa = v.op(a, 0);
		if (!order) sb = v.op(b, 1);
		match = sa == ra && sb == rb && v.state() == st;
		v.e.stop();
	}
	if (!match) sym_print((std::string(OPS[a]) + "=" + ra + " " + OPS[b] + "=" + rb + " " + st).c_str(), 0);
	CHECKP(20, match, "two calls at the same time have the outcome of one after the other");
	if (ra.substr(0, 4) == "exce" || rb.substr(0, 4) == "exce") sym_cover("rejected");
	sym_cover("both");
}
#elif SCEN == 1
// The net fires while the calls are made.
int main()
{
	uint64_t c = sym_choice("pair", N * (N + 1) / 2);
	int a = 0;
	while (c >= (uint64_t)(N - a)) { c -= N - a; a++; }
	const int b = sel(a + (int)c);
	a = sel(a);
	Env v(1, true);
	std::string ra, rb;
	std::thread th([&] { rb = v.op(b, 1); });
	ra = v.op(a, 0);
	th.join();
	sym_config("no_preempt", 1);
	const bool cleared = (a == 13 && ra == "ok") || (b == 13 && rb == "ok");
	const bool cut = (a == 12 && ra == "ok") || (b == 12 && rb == "ok") || (a == 11 && ra == "ok") || (b == 11 && rb == "ok") || (a == 10 && ra == "ok") || (b == 10 && rb == "ok");
	if (!cleared && !cut)
	{
		const uint64_t in = 1 + (a == 0) + (b == 0);
		uint64_t ta = v.e.getNumberOfTokens("A");
		uint64_t tb = v.e.getNumberOfTokens("B");
		if (!v.e.isEventLoopRunning())
		{
			CHECKP(20, ta + tb == in, "no token is lost or made up");
			v.e.execute(false, sym_ostream());
		}
		sym_idle(0);
		CHECKP(20, v.e.getNumberOfTokens("A") == 0 && v.e.getNumberOfTokens("B") == in, "every token given is consumed exactly once");
	}
	if (a == 0) CHECKP(20, ra == "ok" || cleared, "input is accepted");
	v.e.stop();
	CHECKP(20, !v.e.isEventLoopRunning(), "stop is effective");
	sym_cover("both");
}
#elif SCEN == 2
// Three threads: input, queries and start or stop.
int main()
{
	static const int K[] = { 0, 1, 2, 3, 5, 6, 8, 13 };
	const int a = K[sym_choice("a", 8)], b = K[sym_choice("b", 8)];
	Env v(1, sym_choice("run", 2));
	std::string rb, rc;
	std::thread t1([&] { rb = v.op(b, 1); });
	std::thread t2([&] { rc = v.op(1, 1); });
	v.op(a, 0);
	t1.join();
	t2.join();
	v.e.stop();
	CHECKP(20, !v.e.isEventLoopRunning(), "all calls return and the net can be stopped");
	sym_cover("both");
}
#elif SCEN == 3
// The running net logs its state on a stream of its own; meanwhile calls are made.
int main()
{
	static const int K[] = { 0, 1, 2, 3, 4, 9, 10, 14, 15 };
	const int a = K[sym_choice("a", 9)], b = SYM_TIER ? K[sym_choice("b", 9)] : -1;
	std::ostream log(nullptr);
	{
		Env v(1, false);
		v.e.execute(true, log);
		v.op(a, 0);
		if (b >= 0) v.op(b, 1);
		sym_idle(0);
		sym_config("no_preempt", 1);
		const uint64_t in = 1 + (a == 0) + (b == 0);
		CHECKP(20, v.e.getNumberOfTokens("A") == 0 && v.e.getNumberOfTokens("B") == in, "every token given is consumed exactly once");
		v.e.stop();
		CHECKP(20, !v.e.isEventLoopRunning(), "stop is effective");
	}
	sym_cover("end");
}
#elif SCEN == 4
// One call, and another thread that looks twice: each look shows the net before or after the call, and time does not run backwards.
int main()
{
	static const int W[] = { 0, 8, 9, 10, 11, 12, 13, 15 }, Q[] = { 1, 2, 3, 16, 17 };
	static constexpr int NQ = SYM_TIER ? 5 : 3;
	const int w = W[sym_choice("call", 8)], q1 = Q[sym_choice("first", NQ)], q2 = Q[sym_choice("second", NQ)];
	std::string b1, b2, a1, a2, r1, r2;
	sym_config("no_preempt", 1);
	{
		Env v(100, false);
		b1 = v.op(q1, 0);
		b2 = v.op(q2, 0);
		v.op(w, 0);
		a1 = v.op(q1, 0);
		a2 = v.op(q2, 0);
	}
	Env v(100, false);
	sym_config("no_preempt", 0);
	std::thread th([&] { r1 = v.op(q1, 1); r2 = v.op(q2, 1); });
	v.op(w, 0);
	th.join();
	const bool none = r1 == b1 && r2 == b2, full = r1 == a1 && r2 == a2, half = r1 == b1 && r2 == a2;
	CHECKP(20, none || full || half, "two looks at the net show it before or after a call, in this order");
	sym_cover(full ? "full" : none ? "none" : "half");
}
#endif
