// C31, C32: the dialogues of the example programs, driven through their own sources with a stand-in for the standard streams.
//@run prop=C31 name=phone kind=conc q=0 t=0 covers=calls,log,messages,list,shown,wrapped,invalid,quit define=SCEN=0,XML=0,NOPS=4 tdefine=NOPS=6 ttime=900 link=io+ex:PhoneMenu/Controller/*.cpp
//@run prop=C31 name=file kind=conc q=0 t=0 covers=calls,log,messages,list,shown,invalid,quit define=SCEN=0,XML=1,NOPS=4 tdefine=NOPS=6 ttime=900 link=io+ex:PhoneMenu/Controller/*.cpp
//@run prop=C32 name=text kind=conc q=0 t=0 covers=back,accepted,refused,text define=SCEN=1,LEN=4 tdefine=LEN=7 ttime=900 link=ex:Elevator/Controller/*.cpp
//@run prop=C32 name=dialogue kind=conc q=0 t=0 covers=up,down,set,unknown,quit define=SCEN=2,NOPS=3 tdefine=NOPS=5 ttime=900 link=ex:Elevator/Controller/*.cpp
#include "common.h"
#include <algorithm>
#include <chrono>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>

// stands in for the standard input: every word is chosen when it is read
struct Words
{
	Words &operator>>(std::string &s);
	explicit operator bool() const { return true; }
	bool operator!() const { return false; }
	bool good() const { return true; }
	bool fail() const { return false; }
	bool eof() const { return false; }
	void clear() {}
	template <class... A> Words &ignore(A...) { return *this; }
};
namespace std
{
static ostream &symcout = sym_ostream();
static Words words;
inline Words &getline(Words &w, string &s) { return w >> s; }
}
// any word of up to three characters but the ones listed (each a single character)
static std::string otherWord(const char *used)
{
	const uint64_t n = sym_choice("letters", 4);
	char c[4] = {};
	for (uint64_t i = 0; i < n; i++)
	{
		c[i] = char(sym_u8("letter"));
		sym_assume((c[i] > ' ') & (c[i] < 127));
	}
	if (n == 1) for (; *used; used++) sym_assume(c[0] != *used);
	return std::string(c, n);
}
#define cin words
#define cout symcout
#define main example_main
#define private public
#if SCEN == 0
#include "PhoneMenu/main.cpp"
#include "PhoneMenu/View/CallLogView.cpp"
#include "PhoneMenu/View/MainMenuView.cpp"
#include "PhoneMenu/View/MessagesMenuView.cpp"
#undef main
#undef private
#undef cin
#undef cout
bool rt_pugi_put(const char *path, const char *text);

static const char *const screens[5] = { "CallsMenuSelected", "MessagesMenuSelected", "CallsLog", "MessagesMenu", "ShowMessage" };
static const char *const inputs[3] = { "InputA", "InputB", "InputC" };
struct Now
{
	int screen = -1, key[3] = { 0, 0, 0 };
	size_t selected = 0;
	bool operator<(const Now &o) const
	{
		if (screen != o.screen) return screen < o.screen;
		for (int i = 0; i < 3; i++) if (key[i] != o.key[i]) return key[i] < o.key[i];
		return selected < o.selected;
	}
};
static Controller *g_c;
static PTN_Engine *g_e;
static List<Message> *g_messages;
static std::set<Now> g_may;
static int g_reads = 0;
static bool g_invalid = false, g_upper = false;
static int g_words = 0;
static std::string g_shown;

static Now look()
{
	Now n;
	int at = 0;
	for (int i = 0; i < 5; i++)
	{
		size_t k = g_e->getNumberOfTokens(screens[i]);
		at += int(k);
		if (k) n.screen = i;
	}
	CHECKP(31, at == 1, "the menu is on exactly one screen");
	for (int i = 0; i < 3; i++) n.key[i] = int(g_e->getNumberOfTokens(inputs[i]));
	n.selected = g_c->m_messageSelected;
	return n;
}
// where the keys that wait may lead
static void settleFrom(const Now &n, std::set<Now> &out)
{
	const int to[5][3] = { { 1, 2, -1 }, { 0, 3, -1 }, { -1, -1, 0 }, { 3, 4, 1 }, { -1, -1, 3 } };
	bool rest = true;
	for (int k = 0; k < 3; k++)
		if (n.key[k] && to[n.screen][k] >= 0)
		{
			Now m = n;
			m.key[k]--;
			if (n.screen == 3 && k == 0) m.selected = (n.selected + 1) % g_messages->size();
			m.screen = to[n.screen][k];
			settleFrom(m, out);
			rest = false;
		}
	if (rest) out.insert(n);
}
static void press(int k)
{
	std::set<Now> next;
	for (Now n : g_may)
	{
		n.key[k]++;
		settleFrom(n, next);
	}
	g_may = next;
}
static void check()
{
	sym_idle(6);
	sym_config("acquire", 1); // everything is at rest: the harness may look at it
	std::string shown;
	for (size_t i = 0; i < sym_out_count(); i++)
		if (sym_out_isnum(i)) shown += std::to_string(sym_concretize(sym_out_num(i)));
		else shown += sym_out_text(i);
	if (g_invalid) CHECKP(31, shown.find("nvalid") != std::string::npos, "text that is no key is reported");
	g_invalid = false;
	sym_out_clear();
	g_shown += shown;
	Now n = look();
	CHECKP(31, g_may.count(n) == 1, "the menu is on the screen the keys lead to");
	std::set<Now> one;
	one.insert(n);
	g_may = one;
	if (n.screen < 2)
	{
		size_t c = g_shown.rfind("Call Log"), m = g_shown.rfind("Messages");
		CHECKP(31, c != std::string::npos && m != std::string::npos && (n.screen == 0 ? c > m : m > c), "the main menu shows the selected option");
		sym_cover(n.screen ? "messages" : "calls");
	}
	if (n.screen == 2)
	{
		CHECKP(31, g_shown.rfind("Sally Smith") != std::string::npos, "the call log is shown");
		sym_cover("log");
	}
	if (n.screen == 3)
	{
		size_t a = g_shown.rfind("=>");
		std::string title = g_messages->getItem(n.selected).m_title;
		CHECKP(31, a != std::string::npos && g_shown.find(title, a) != std::string::npos, "the list marks the selected message");
		size_t t = g_shown.find(title, a);
		for (size_t i = 0; i < g_messages->size(); i++)
			if (i != n.selected)
			{
				size_t o = g_shown.find(g_messages->getItem(i).m_title, a);
				CHECKP(31, o == std::string::npos || o > t, "the list marks only the selected message");
			}
		sym_cover("list");
		if (g_reads > 3 && n.selected == 0) sym_cover("wrapped");
	}
	if (n.screen == 4)
	{
		size_t b = g_shown.rfind(g_messages->getItem(n.selected).m_body);
		CHECKP(31, b != std::string::npos, "the selected message is shown");
		for (size_t i = 0; i < g_messages->size(); i++)
			if (i != n.selected)
			{
				size_t o = g_shown.rfind(g_messages->getItem(i).m_body);
				CHECKP(31, o == std::string::npos || o < b, "the message shown is the selected one");
			}
		sym_cover("shown");
	}
}
Words &Words::operator>>(std::string &s)
{
	static const char *const text[2][4] = { { "a", "b", "c", "q" }, { "A", "B", "C", "Q" } };
	check();
	uint64_t k = g_reads++ < NOPS ? sym_choice("key", g_invalid ? 4 : 5) : 3;
	if (k == 4)
	{
		s = g_words++ < 1 ? otherWord("abcqABCQ") : "ab";
		g_invalid = true;
		sym_cover("invalid");
		return *this;
	}
	if (k < 3) press(int(k));
	else { sym_cover("quit"); g_reads = 1000; }
	s = text[g_upper][k];
	return *this;
}
int main()
{
	sym_config("max_advance", 100000);
	sym_config("order", 1 + sym_choice("order", 2));
	g_upper = sym_choice("upper", 2);
	List<Message> messages;
	List<Call> calls;
	const int n = 1 + int(sym_choice("messages", 3));
	if (n >= 1) messages.addItem(Message("First", "the first one"));
	if (n >= 2) messages.addItem(Message("Second", "the second one"));
	if (n >= 3) messages.addItem(Message("Third", "the third one"));
	calls.addItem(Call("now", "Sally Smith"));
	MainMenuView mainView;
	MessagesView messagesView(messages);
	CallLogView callsView(calls);
	Controller c(mainView, messagesView, callsView, messages, calls);
#if XML
	auto m = std::make_shared<XMLMenuStateMachine>();
	c.setStateMachine(m);
	const char *text = sym_host_file(REPO_DIR "/Examples/PhoneMenu/assets/PhoneMenu.xml");
	CHECKP(31, text && rt_pugi_put("./PhoneMenu.xml", text), "the file of the example is there and well formed");
	m->importStateMachine("./PhoneMenu.xml");
	m->exportStateMachine("./PhoneMenuExport.xml");
#else
	auto m = std::make_shared<MenuStateMachine>();
	c.setStateMachine(m);
#endif
	g_c = &c;
	g_e = m.get();
	g_messages = &messages;
	g_may.insert(look());
	press(0); // the loop starts by pressing A
	runLoop(c);
	CHECKP(31, !m->isEventLoopRunning(), "q ends the menu");
	return 0;
}
#else
#include "Elevator/main.cpp"
#include "Elevator/Controller/ElevatorPetriNet.h"
#undef main
#undef private
#undef cin
#undef cout
#if SCEN == 1
static int g_reads = 0;
static char g_text[40];
Words &Words::operator>>(std::string &s)
{
	s = g_reads++ == 0 ? g_text : "b";
	CHECKP(32, g_reads < 4, "the dialogue can be left");
	return *this;
}
int main()
{
	sym_config("no_preempt", 1);
	sym_config("order", 1);
	ElevatorController c;
	const int LO = ElevatorController::s_bottomFloor, HI = ElevatorController::s_topFloor;
	uint64_t kind = sym_choice("kind", 3);
	uint64_t form = sym_choice("form", 2);
	int len = 0;
	if (form == 0)
	{
		len = int(sym_choice("len", LEN + 1));
		for (int i = 0; i < len; i++)
		{
			g_text[i] = char(sym_u8("byte"));
			sym_assume((g_text[i] > ' ') & (g_text[i] < 127)); // a word without blanks
		}
	}
	else
	{
		static const char *const far[] = { "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999999", "-99999999999999999999999", "11", "+10", "010" };
		const char *t = far[sym_choice("far", 9)];
		for (; t[len]; len++) g_text[len] = t[len];
	}
	g_text[len] = 0;
	// what the text says
	int p = 0;
	bool neg = false;
	if (g_text[0] == '-' || g_text[0] == '+') { neg = g_text[0] == '-'; p = 1; }
	long v = 0;
	int digits = 0;
	while (g_text[p] >= '0' && g_text[p] <= '9')
	{
		if (v < 1000000) v = v * 10 + (g_text[p] - '0');
		digits++;
		p++;
	}
	if (neg) v = -v;
	const bool number = digits > 0 && !g_text[p], noNumber = digits == 0, back = len == 1 && (g_text[0] == 'b' || g_text[0] == 'B');
	const long lo = kind == 1 ? LO + 1 : LO, hi = kind == 0 ? HI - 1 : HI;
	bool ok = true;
	try
	{
		if (kind == 0) callElevatorUpMenu(c);
		if (kind == 1) callElevatorDownMenu(c);
		if (kind == 2) setDestinationMenu(c);
	}
	catch (...)
	{
		ok = false;
	}
	CHECKP(32, ok, "no text ends the dialogue with an error");
	if (back) { CHECKP(32, g_reads == 1, "b leaves the dialogue"); sym_cover("back"); }
	else if (number && v >= lo && v <= hi) { CHECKP(32, g_reads == 1, "an existing floor is accepted"); sym_cover("accepted"); }
	else if (number) { CHECKP(32, g_reads == 2, "a floor that does not exist is refused and asked for again"); sym_cover("refused"); }
	else if (noNumber) { CHECKP(32, g_reads == 2, "text that is no number is refused and the floor asked for again"); sym_cover("text"); }
	c.stop();
	return 0;
}
#else
// the main menu and the dialogues behind it: which of them reads the next word, and when the program ends
static int g_reads = 0, g_level = 0;
static bool g_left = false;
static int g_words = 0;
Words &Words::operator>>(std::string &s)
{
	CHECKP(32, !g_left, "q ends the program");
	const int LO = ElevatorController::s_bottomFloor, HI = ElevatorController::s_topFloor;
	sym_idle(1);
	if (g_level == 0)
	{
		static const char *const command[] = { "1", "2", "3", "4", "5", "q", "Q" };
		uint64_t k = g_reads++ < NOPS ? sym_choice("command", 8) : 5;
		s = k < 7 ? command[k] : g_words++ < 1 ? otherWord("12345qQ") : "7";
		if (k >= 2 && k <= 4) g_level = int(k) + 1;
		if (k == 5 || k == 6) { g_left = true; sym_cover("quit"); }
		if (k > 6) sym_cover("unknown");
		return *this;
	}
	const int floors[] = { LO, HI, HI + 1, LO - 1, LO + 1 };
	uint64_t k = g_reads++ < NOPS ? sym_choice("floor", 8) : 6;
	if (k < 5)
	{
		const long lo = g_level == 4 ? LO + 1 : LO, hi = g_level == 3 ? HI - 1 : HI;
		s = std::to_string(floors[k]);
		sym_cover(g_level == 3 ? "up" : g_level == 4 ? "down" : "set");
		if (floors[k] >= lo && floors[k] <= hi) g_level = 0;
		return *this;
	}
	static const char *const other[] = { "q", "b", "B" };
	s = other[k - 5];
	if (k > 5) g_level = 0;
	return *this;
}
int main()
{
	sym_config("no_preempt", 1);
	sym_config("order", 1);
	sym_config("max_advance", 100000);
	ElevatorController c;
	bool ok = true;
	try
	{
		programLoop(c);
	}
	catch (...)
	{
		ok = false;
	}
	CHECKP(32, ok, "no word ends the program with an error");
	CHECKP(32, g_left, "the program ends only with q");
	CHECKP(32, !static_cast<PTN_Engine &>(static_cast<ElevatorPetriNet &>(*c.m_pPetriNet)).isEventLoopRunning(), "the net is stopped at the end");
	return 0;
}
#endif
#endif
