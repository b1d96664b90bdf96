// Shared by the harnesses: an abstract net over symbolic numbers, its reference semantics, and how to declare it to the engine.
#pragma once
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include "sym.h"
#include <exception>
#include <functional>
#include <string>
#include <vector>
using namespace ptne;
using TO = PTN_Engine::ACTIONS_THREAD_OPTION;
using AT = ArcProperties::Type;
#ifndef PROP
#define PROP 0
#endif
#ifndef SYM_TIER
#define SYM_TIER 0
#endif
// an assertion belonging to property n
#define CHECKP(n, c, msg) do { if (PROP == 0 || PROP == (n)) sym_assert((c), msg); } while (0)
inline constexpr uint64_t MAXTOK = ~0ull;

inline ArcProperties arc(const char *place, uint64_t w = 1, const char *transition = "", AT t = AT::ACTIVATION)
{
	ArcProperties a;
	a.weight = w;
	a.placeName = place;
	a.transitionName = transition;
	a.type = t;
	return a;
}
// runs f; true: it threw
template <class F> bool fails(F f)
{
	try { f(); } catch (const std::exception &) { return true; }
	return false;
}

struct RefArc { bool on = false; uint64_t w = 1; };
template <int P> struct RefTransition { RefArc act[P], dst[P], inh[P]; };
template <int P, int T> struct RefNet
{
	uint64_t tok[P] = {};
	RefTransition<P> tr[T];
	bool enabled(int t) const
	{
		const auto &r = tr[t];
		bool en = true;
		for (int p = 0; p < P; p++)
		{
			if (r.act[p].on) en = en & (tok[p] >= r.act[p].w);
			if (r.inh[p].on) en = en & (tok[p] == 0);
		}
		return en;
	}
	bool overflows(int t) const
	{
		const auto &r = tr[t];
		bool ov = false;
		for (int p = 0; p < P; p++)
			if (r.dst[p].on)
			{
				uint64_t left = tok[p] - (r.act[p].on ? r.act[p].w : 0);
				ov = ov | (left > MAXTOK - r.dst[p].w);
			}
		return ov;
	}
	void fire(int t)
	{
		const auto &r = tr[t];
		for (int p = 0; p < P; p++)
		{
			if (r.act[p].on) tok[p] -= r.act[p].w;
			if (r.dst[p].on) tok[p] += r.dst[p].w;
		}
	}
	TransitionProperties properties(int t, const char *name, const char *const *places) const
	{
		TransitionProperties o;
		o.name = name;
		for (int p = 0; p < P; p++)
		{
			if (tr[t].act[p].on) o.activationArcs.push_back(arc(places[p], tr[t].act[p].w));
			if (tr[t].dst[p].on) o.destinationArcs.push_back(arc(places[p], tr[t].dst[p].w));
			if (tr[t].inh[p].on) o.inhibitorArcs.push_back(arc(places[p], tr[t].inh[p].w));
		}
		return o;
	}
};
