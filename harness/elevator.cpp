// C30: the elevator example's controller, driven through its public interface.
//@run prop=C30 name=accept kind=conc q=0 t=0 covers=up,down,set,refused define=SCEN=0 link=ex:Elevator/Controller/*.cpp
//@run prop=C30 name=pair kind=conc q=0 t=0 covers=end define=SCEN=2,NOPS=2,FLOORS=4 tdefine=NOPS=2,FLOORS=9 link=ex:Elevator/Controller/*.cpp
//@run prop=C30 name=requests kind=conc q=0 t=0 covers=end define=SCEN=2,NOPS=3,FLOORS=3 tdefine=NOPS=4,FLOORS=4 qtime=40 ttime=400 link=ex:Elevator/Controller/*.cpp
//@run prop=C30 name=travel kind=conc q=0 t=0 covers=moved,end define=SCEN=1,FLOORS=9 link=ex:Elevator/Controller/*.cpp
#include "common.h"
#include <algorithm>
#include <chrono>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <shared_mutex>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#define private public
#include "Elevator/Controller/ElevatorController.h"
#undef private

static const int LO = ElevatorController::s_bottomFloor, HI = ElevatorController::s_topFloor;
static int at(ElevatorController &c)
{
	std::shared_lock l(c.m_mutex);
	return c.m_currentFloor;
}

int main()
{
	sym_config("max_advance", 100000); // each closing of the doors lasts many rests of the loop
	sym_config("order", 1 + sym_choice("order", 2)); // the random order: always the first or always the last of the allowed choices
#if SCEN == 0
	// any int: the request is accepted exactly when the floor exists for that kind of request
	sym_config("no_preempt", 1);
	ElevatorController c;
	int floor = int(sym_u32("floor"));
	uint64_t kind = sym_choice("kind", 3);
	bool ok = false, want = false;
	if (kind == 0) { ok = c.callElevatorUp(floor); want = (floor >= LO) & (floor < HI); }
	if (kind == 1) { ok = c.callElevatorDown(floor); want = (floor > LO) & (floor <= HI); }
	if (kind == 2) { ok = c.setDestinationFloor(floor); want = (floor >= LO) & (floor <= HI); }
	CHECKP(30, ok == want, "a request is accepted exactly when the floor exists for it");
	sym_cover(!ok ? "refused" : kind == 0 ? "up" : kind == 1 ? "down" : "set");
	c.stop();
#elif SCEN == 2
	// requests made one after the other, each when the net has taken in the previous one
	ElevatorController c;
	int wanted[16], stops[64], nw = 0, ns = 0;
	auto settle = [&] {
		sym_idle(30);
		int now = at(c);
		CHECKP(30, now >= LO && now <= HI, "the cabin stays in the building");
		if (ns < 64) stops[ns++] = now;
	};
	sym_idle(2);
	for (int i = 0; i < NOPS; i++)
	{
		uint64_t op = sym_choice("op", 4);
		if (op == 3) { c.closeDoors(); settle(); continue; }
		int floor = int(sym_choice("floor", FLOORS + 1));
		if (FLOORS < HI && floor == FLOORS) floor = HI;
		bool ok = op == 0 ? c.callElevatorUp(floor) : op == 1 ? c.callElevatorDown(floor) : c.setDestinationFloor(floor);
		if (ok) wanted[nw++] = floor;
		int from = ns ? ns - 1 : 0;
		(void)from;
		settle();
	}
	for (int i = 0; i < NOPS + 2; i++) { c.closeDoors(); settle(); }
	for (int i = 0; i < nw; i++)
	{
		bool seen = false;
		for (int k = 0; k < ns; k++) seen = seen || stops[k] == wanted[i];
		CHECKP(30, seen, "a requested floor is visited once the doors are closed");
	}
	c.stop();
	sym_cover("end");
#else
	ElevatorController c;
	c.closeDoors();
	sym_idle(2);
	uint64_t f = sym_range("floor", 0, FLOORS);
	int floor = int(sym_concretize(f));
	c.setDestinationFloor(floor);
	sym_idle(12);
	int now = at(c);
	CHECKP(30, now >= LO && now <= HI, "the cabin stays in the building");
	CHECKP(30, now == floor, "the cabin reaches the requested floor");
	if (floor != 0) sym_cover("moved");
	c.stop();
	sym_cover("end");
#endif
	return 0;
}
