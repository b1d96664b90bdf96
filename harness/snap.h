// What a net reports about itself, compared field by field (independent of the order of reporting).
#pragma once
#include "common.h"
inline bool sameArcs(const std::vector<ArcProperties> &a, const std::vector<ArcProperties> &b)
{
	if (a.size() != b.size()) return false;
	bool same = true;
	for (const auto &x : a)
	{
		bool found = false;
		for (const auto &y : b)
			if (y.placeName == x.placeName && y.transitionName == x.transitionName && y.type == x.type)
			{
				found = true;
				same = same & (x.weight == y.weight);
			}
		if (!found) return false;
	}
	return same;
}
inline bool samePlace(const PlaceProperties &a, const PlaceProperties &b)
{
	if (a.name != b.name || a.onEnterActionFunctionName != b.onEnterActionFunctionName || a.onExitActionFunctionName != b.onExitActionFunctionName) return false;
	if (!a.onEnterAction != !b.onEnterAction || !a.onExitAction != !b.onExitAction) return false;
	return (a.initialNumberOfTokens == b.initialNumberOfTokens) & (a.input == b.input);
}
inline bool sameTransition(const TransitionProperties &a, const TransitionProperties &b)
{
	if (a.name != b.name || a.requireNoActionsInExecution != b.requireNoActionsInExecution || a.additionalConditionsNames != b.additionalConditionsNames
		|| a.additionalConditions.size() != b.additionalConditions.size())
		return false;
	return sameArcs(a.activationArcs, b.activationArcs) & sameArcs(a.destinationArcs, b.destinationArcs) & sameArcs(a.inhibitorArcs, b.inhibitorArcs);
}
struct Snapshot
{
	std::vector<PlaceProperties> places;
	std::vector<TransitionProperties> transitions;
	explicit Snapshot(const PTN_Engine &e) : places(e.getPlacesProperties()), transitions(e.getTransitionsProperties()) {}
	bool operator==(const Snapshot &o) const
	{
		if (places.size() != o.places.size() || transitions.size() != o.transitions.size()) return false;
		bool same = true;
		for (const auto &p : places)
		{
			bool found = false;
			for (const auto &q : o.places)
				if (p.name == q.name) { found = true; same = same & samePlace(p, q); }
			if (!found) return false;
		}
		for (const auto &t : transitions)
		{
			bool found = false;
			for (const auto &u : o.transitions)
				if (t.name == u.name) { found = true; same = same & sameTransition(t, u); }
			if (!found) return false;
		}
		return same;
	}
	const PlaceProperties *place(const char *n) const
	{
		for (const auto &p : places) if (p.name == n) return &p;
		return nullptr;
	}
	const TransitionProperties *transition(const char *n) const
	{
		for (const auto &t : transitions) if (t.name == n) return &t;
		return nullptr;
	}
};
