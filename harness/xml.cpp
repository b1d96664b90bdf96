// Export to and import from XML.
//@run prop=C12 name=tokens kind=seq covers=end,large define=SCEN=0 link=io
//@run prop=C12 name=weights kind=seq covers=end,large define=SCEN=1 link=io
//@run prop=C12 name=structure kind=seq covers=end,with-arc define=SCEN=2 link=io
//@run prop=C12 name=names kind=seq covers=end define=SCEN=3 link=io
//@run prop=C12 name=again kind=seq covers=end,second define=SCEN=4 link=io
//@run prop=C12 name=behaviour kind=seq covers=end define=SCEN=5 link=io
//@run prop=C12 name=unwritable kind=seq covers=end define=SCEN=6 link=io
//@run prop=C13 name=token-text kind=seq covers=number,rejected,absent define=SCEN=10,LEN=3 tdefine=LEN=4 link=io
//@run prop=C13 name=weight-text kind=seq covers=number,rejected define=SCEN=11,LEN=3 tdefine=LEN=4 link=io
//@run prop=C13 name=number-limits kind=seq covers=number,rejected define=SCEN=12 link=io
//@run prop=C13 name=flag-text kind=seq covers=true,false,rejected,absent define=SCEN=13 link=io
//@run prop=C13 name=kind-text kind=seq covers=known,rejected define=SCEN=14 link=io
//@run prop=C13 name=mode-text kind=seq covers=known,rejected define=SCEN=15 link=io
//@run prop=C13 name=mode-names kind=seq covers=known,rejected,end define=SCEN=16 link=io
//@run prop=C13 name=missing-file kind=seq covers=end define=SCEN=17 link=io
#include "common.h"
#include "snap.h"
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include <cstdlib>
#include <pugixml.hpp>
#include <unistd.h>
static std::string path(const char *name)
{
	if (sym_engine()) return std::string("/") + name;
	const char *d = getenv("SYM_SCRATCH");
	return std::string(d ? d : "/nonexistent-scratch") + "/" + std::to_string(getpid()) + name;
}
static const TO MODES[] = { TO::SINGLE_THREAD, TO::EVENT_LOOP, TO::DETACHED, TO::JOB_QUEUE };
static void functions(PTN_Engine &e, int *calls = nullptr)
{
	e.registerAction("f", [calls] { if (calls) calls[0]++; });
	e.registerAction("g", [calls] { if (calls) calls[1]++; });
	e.registerCondition("c", [calls] { if (calls) calls[2]++; return true; });
	e.registerCondition("d", [calls] { if (calls) calls[3]++; return true; });
}
static void doExport(const PTN_Engine &e, const char *name) { FileExporterFactory::createXMLFileExporter()->_export(e, path(name)); }
static void doImport(PTN_Engine &e, const char *name) { FileImporterFactory::createXMLFileImporter()->_import(path(name), e); }
// the function objects are the ones registered under the reported names: checked by running them in "behaviour"
static void checkSame(const PTN_Engine &a, const PTN_Engine &b, const char *what)
{
	CHECKP(12, Snapshot(a) == Snapshot(b), what);
	CHECKP(12, a.getActionsThreadOption() == b.getActionsThreadOption(), "the thread mode is reproduced");
}
// any text of up to n bytes, none of them zero
static std::string anyText(const char *name, int n)
{
	const uint64_t len = sym_choice("length", n + 1);
	std::string s(len, ' ');
	for (uint64_t i = 0; i < len; i++)
	{
		const uint8_t c = sym_u8(name);
		sym_assume(c != 0);
		// only texts that XML can carry
		sym_assume((c >= 32) & (c < 127));
		s[i] = (char)c;
	}
	return s;
}
// a file with one place, one transition and one arc; null: the attribute is absent
static void writeFile(const char *mode, const char *tokens, const char *input, const char *rna, const char *weight, const char *kind)
{
	pugi::xml_document d;
	pugi::xml_node root = d.append_child("PTN-Engine");
	if (mode) root.append_attribute("actionsThreadOption").set_value(mode);
	pugi::xml_node p = root.append_child("Places").append_child("Place");
	p.append_attribute("name").set_value("A");
	if (tokens) p.append_attribute("tokens").set_value(tokens);
	if (input) p.append_attribute("input").set_value(input);
	pugi::xml_node t = root.append_child("Transitions").append_child("Transition");
	t.append_child("Name").append_attribute("value").set_value("T");
	t.append_child("ActivationConditions");
	if (rna) t.append_child("RequireNoActionsInExecution").append_attribute("value").set_value(rna);
	pugi::xml_node arcs = root.append_child("Arcs");
	if (kind)
	{
		pugi::xml_node a = arcs.append_child("Arc");
		a.append_child("Place").append_attribute("value").set_value("A");
		a.append_child("Transition").append_attribute("value").set_value("T");
		if (weight) a.append_child("Weight").append_attribute("value").set_value(weight);
		a.append_child("Type").append_attribute("value").set_value(kind);
	}
	d.save_file(path("in.xml").c_str());
}
// the number a text denotes: decimal digits only, in range
static bool number(const std::string &s, uint64_t &v)
{
	v = 0;
	if (s.empty()) return false;
	for (char c : s)
	{
		if (c < '0' || c > '9') return false;
		const uint64_t d = c - '0';
		if (v > (MAXTOK - d) / 10) return false;
		v = v * 10 + d;
	}
	return true;
}

#if SCEN == 0
int main()
{
	sym_config("precise_to_string", 1);
	PTN_Engine a(TO::SINGLE_THREAD), b;
	functions(a);
	functions(b);
	const uint64_t n = sym_u64("tokens");
	a.createPlace({ .name = "A", .initialNumberOfTokens = n, .input = true });
	a.createPlace({ .name = "B", .initialNumberOfTokens = 3 });
	doExport(a, "net.xml");
	doImport(b, "net.xml");
	CHECKP(12, b.getNumberOfTokens("A") == n && b.getNumberOfTokens("B") == 3, "every token count is reproduced");
	checkSame(a, b, "the places are reproduced");
	if (n > 1ull << 63) sym_cover("large");
	sym_cover("end");
}
#elif SCEN == 1
int main()
{
	sym_config("precise_to_string", 1);
	PTN_Engine a(TO::SINGLE_THREAD), b;
	a.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	const uint64_t w = sym_u64("weight");
	sym_assume(w != 0);
	const AT kind = (AT)sym_choice("kind", 4);
	if (!SYM_TIER && kind != AT::INHIBITOR) sym_assume(w < 10000);
	a.createTransition({ .name = "T" });
	a.addArc(arc("A", w, "T", kind));
	doExport(a, "net.xml");
	doImport(b, "net.xml");
	checkSame(a, b, "every weight is reproduced, for every kind of arc");
	const Snapshot s(b);
	CHECKP(12, s.transition("T") && (s.transition("T")->activationArcs.size() + s.transition("T")->destinationArcs.size() + s.transition("T")->inhibitorArcs.size() == (kind == AT::BIDIRECTIONAL ? 2 : 1)), "no arc is lost or added");
	if (w > 1ull << 63) sym_cover("large");
	sym_cover("end");
}
#elif SCEN == 2
// Flags, functions, arcs of each kind, modes.
static const char *const FN[] = { "", "f", "g" };
int main()
{
	const TO mode = MODES[sym_choice("mode", 4)];
	PTN_Engine a(mode), b(sym_choice("other-mode", 2) ? TO::JOB_QUEUE : TO::SINGLE_THREAD);
	functions(a);
	functions(b);
	const uint64_t in = sym_choice("in", 3), out = sym_choice("out", 3);
	const bool input = sym_choice("input", 2);
	a.createPlace({ .name = "A", .initialNumberOfTokens = 2, .onEnterActionFunctionName = FN[in], .onExitActionFunctionName = FN[out], .input = input });
	a.createPlace({ .name = "B", .onEnterActionFunctionName = FN[out], .input = !input });
	a.createPlace({ .name = "C", .initialNumberOfTokens = 7 });
	TransitionProperties t{ .name = "T" };
	t.requireNoActionsInExecution = input;
	const uint64_t cond = sym_choice("conditions", 4);
	if (cond & 1) t.additionalConditionsNames.push_back("d");
	if (cond & 2) t.additionalConditionsNames.push_back("c");
	const uint64_t shape = sym_choice("shape", 5);
	if (shape & 1) t.activationArcs.push_back(arc("A", 2));
	if (shape & 2) t.destinationArcs.push_back(arc("B", 3));
	if (shape == 3) { t.inhibitorArcs.push_back(arc("C", 1)); t.destinationArcs.push_back(arc("A", 5)); }
	if (shape == 4) { t.inhibitorArcs.push_back(arc("B")); t.activationArcs.push_back(arc("C", 4)); t.inhibitorArcs.push_back(arc("A", 9)); }
	if (shape) sym_cover("with-arc");
	a.createTransition(t);
	a.createTransition({ .name = "U", .activationArcs = { arc("B", 6) }, .destinationArcs = { arc("C"), arc("A", 8) }, .requireNoActionsInExecution = !input });
	const Snapshot before(a);
	doExport(a, "net.xml");
	CHECKP(12, Snapshot(a) == before, "exporting does not change the net");
	doImport(b, "net.xml");
	checkSame(a, b, "places, flags, functions, transitions, arcs and options are reproduced");
	const Snapshot s(b);
	CHECKP(12, s.transition("T")->additionalConditionsNames == t.additionalConditionsNames, "the conditions are reproduced in their order");
	CHECKP(12, b.getActionsThreadOption() == mode, "the thread mode is reproduced");
	sym_cover("end");
}
#elif SCEN == 3
// Names with characters that XML treats specially.
static const char *const NAMES[] = { "A", "<A>", "a & b", "\"q\"", "it's", "x y", "&amp;", "\xc3\xa9", "a\nb", "tab\t", "]]>", "Place", "T" };
int main()
{
	PTN_Engine a(TO::SINGLE_THREAD), b(TO::SINGLE_THREAD);
	const int N = 13;
	const std::string p = NAMES[sym_choice("place", N)], t = NAMES[sym_choice("transition", N)], f = NAMES[sym_choice("function", SYM_TIER ? N : 3)];
	for (PTN_Engine *e : { &a, &b })
	{
		e->registerAction(f, [] {});
		e->registerCondition(f, [] { return true; });
	}
	a.createPlace({ .name = p, .onEnterActionFunctionName = f, .onExitActionFunctionName = f });
	a.createTransition({ .name = t, .activationArcs = { arc(p.c_str(), 2) }, .additionalConditionsNames = { f } });
	doExport(a, "net.xml");
	doImport(b, "net.xml");
	checkSame(a, b, "names are reproduced character by character");
	sym_cover("end");
}
#elif SCEN == 4
// One exporter and one importer used for several nets.
static void build(PTN_Engine &e, uint64_t k)
{
	functions(e);
	if (k & 1) e.createPlace({ .name = "A", .initialNumberOfTokens = 1 + k, .onEnterActionFunctionName = "f" });
	e.createPlace({ .name = "B", .initialNumberOfTokens = k, .input = true });
	if (k & 2) e.createTransition({ .name = "T", .activationArcs = { arc("B", k) } });
}
int main()
{
	PTN_Engine a(MODES[sym_choice("mode", 4)]), b(MODES[sym_choice("mode", 4)]);
	const uint64_t ka = sym_choice("net", 4), kb = sym_choice("net", 4);
	build(a, ka);
	build(b, kb);
	auto x = FileExporterFactory::createXMLFileExporter();
	const bool samePath = sym_choice("same-path", 2);
	x->_export(a, path("1.xml"));
	PTN_Engine a2, b2, a3;
	functions(a2);
	functions(b2);
	functions(a3);
	auto m = FileImporterFactory::createXMLFileImporter();
	if (samePath)
	{
		m->_import(path("1.xml"), a2);
		checkSame(a, a2, "the first net is reproduced");
	}
	x->_export(b, path(samePath ? "1.xml" : "2.xml"));
	m->_import(path(samePath ? "1.xml" : "2.xml"), b2);
	checkSame(b, b2, "further exports with the same exporter reproduce their nets");
	if (!samePath)
	{
		m->_import(path("1.xml"), a2);
		checkSame(a, a2, "an earlier export is not affected by a later one");
	}
	x->_export(a2, path("3.xml"));
	m->_import(path("3.xml"), a3);
	checkSame(a, a3, "an imported net can be exported and imported again");
	sym_cover("second");
	sym_cover("end");
}
#elif SCEN == 5
// The imported net runs like the original one, with the functions registered in the importing engine.
int main()
{
	int ca[4] = {}, cb[4] = {};
	PTN_Engine a(TO::SINGLE_THREAD), b(TO::JOB_QUEUE);
	functions(a, ca);
	functions(b, cb);
	const uint64_t n = sym_choice("tokens", 4);
	const bool inhibited = sym_choice("inhibited", 2);
	const uint64_t cond = sym_choice("condition", 3);
	a.createPlace({ .name = "A", .initialNumberOfTokens = n, .onEnterActionFunctionName = "g", .onExitActionFunctionName = "f", .input = true });
	a.createPlace({ .name = "B", .onEnterActionFunctionName = "g" });
	a.createPlace({ .name = "I", .initialNumberOfTokens = inhibited });
	TransitionProperties t{ .name = "T", .activationArcs = { arc("A", 1) }, .destinationArcs = { arc("B", 2) }, .inhibitorArcs = { arc("I") } };
	if (cond == 1) t.additionalConditionsNames = { "c" };
	if (cond == 2) t.additionalConditionsNames = { "d", "c" };
	a.createTransition(t);
	doExport(a, "net.xml");
	doImport(b, "net.xml");
	for (PTN_Engine *e : { &a, &b })
	{
		e->incrementInputPlace("A");
		e->execute();
	}
	const uint64_t fired = inhibited ? 0 : n + 1;
	CHECKP(12, b.getNumberOfTokens("A") == n + 1 - fired && b.getNumberOfTokens("B") == 2 * fired, "the imported net behaves like the original one");
	CHECKP(12, ca[0] == cb[0] && ca[1] == cb[1] && cb[0] == (int)fired && cb[1] == (int)fired + 1, "the imported net runs the actions registered under the same names");
	CHECKP(12, ca[2] == cb[2] && ca[3] == cb[3], "the imported net evaluates the conditions registered under the same names");
	sym_cover("end");
}
#elif SCEN == 6
int main()
{
	PTN_Engine a(TO::SINGLE_THREAD);
	a.createPlace({ .name = "A", .initialNumberOfTokens = 1 });
	const bool threw = fails([&] { FileExporterFactory::createXMLFileExporter()->_export(a, "/missing-dir/x/net.xml"); });
	CHECKP(12, threw, "an export that cannot be written is reported");
	sym_cover("end");
}
#elif SCEN == 10 || SCEN == 11
int main()
{
	const std::string s = anyText("c", LEN);
	uint64_t v;
	const bool ok = number(s, v);
	PTN_Engine e;
	if (SCEN == 10)
	{
		const bool absent = s.empty() && sym_choice("absent", 2);
		writeFile("SINGLE_THREAD", absent ? nullptr : s.c_str(), "true", "false", "1", nullptr);
		const bool threw = fails([&] { doImport(e, "in.xml"); });
		if (s.empty())
		{
			CHECKP(13, !threw && e.getNumberOfTokens("A") == 0, "an absent or empty token count means none");
			sym_cover("absent");
			return 0;
		}
		CHECKP(13, threw == !ok, "exactly the unsigned decimal numbers are accepted as token counts");
		if (!threw) CHECKP(13, e.getNumberOfTokens("A") == v, "the number is read exactly");
	}
	else
	{
		static const char *const K[] = { "Activation", "Destination", "Inhibitor", "Bidirectional" };
		const uint64_t k = sym_choice("kind", 4);
		writeFile("SINGLE_THREAD", "1", "true", "false", s.c_str(), K[k]);
		const bool threw = fails([&] { doImport(e, "in.xml"); });
		CHECKP(13, threw == (!ok || v == 0), "exactly the positive decimal numbers are accepted as weights");
		if (!threw)
		{
			const Snapshot n(e);
			const auto *t = n.transition("T");
			const std::vector<ArcProperties> &arcs = k == 1 ? t->destinationArcs : k == 2 ? t->inhibitorArcs : t->activationArcs;
			CHECKP(13, arcs.size() == 1 && arcs[0].weight == v, "the weight is read exactly");
		}
	}
	sym_cover(ok ? "number" : "rejected");
}
#elif SCEN == 12
// Texts of 19 to 22 digits: the largest number is read, anything above is rejected.
int main()
{
	const uint64_t len = 19 + sym_choice("length", 4);
	std::string s(len, '0');
	// the leading digits are concrete around the limit, the rest is symbolic
	static const char *const MAX = "18446744073709551615";
	const uint64_t fixed = sym_choice("fixed", 3);
	const uint64_t keep = fixed == 0 ? 12 : fixed == 1 ? 17 : 1;
	for (uint64_t i = 0; i < len; i++)
	{
		if (i < keep && i < 20) { s[i] = MAX[i]; continue; }
		if (i < keep + (SYM_TIER ? 8 : 4)) s[i] = (char)sym_range("digit", '0', '9');
		else s[i] = i < 20 ? MAX[i] : '5';
	}
	uint64_t v;
	const bool ok = number(s, v);
	PTN_Engine e;
	const bool w = sym_choice("weight", 2);
	writeFile("SINGLE_THREAD", w ? "1" : s.c_str(), "true", "false", w ? s.c_str() : "1", "Inhibitor");
	const bool threw = fails([&] { doImport(e, "in.xml"); });
	CHECKP(13, threw == !ok, "numbers that do not fit are rejected, all others accepted");
	if (!threw)
	{
		const Snapshot n(e);
		CHECKP(13, (w ? n.transition("T")->inhibitorArcs[0].weight : n.place("A")->initialNumberOfTokens) == v, "the number is read exactly");
	}
	sym_cover(ok ? "number" : "rejected");
}
#elif SCEN == 13
int main()
{
	const bool input = sym_choice("input", 2);
	const std::string s = anyText("c", 6);
	PTN_Engine e;
	const bool absent = input && s.empty() && sym_choice("absent", 2);
	writeFile("SINGLE_THREAD", "1", input ? (absent ? nullptr : s.c_str()) : "false", input ? "false" : s.c_str(), "1", nullptr);
	const bool threw = fails([&] { doImport(e, "in.xml"); });
	const bool t = s == "true", f = s == "false" || (input && s.empty());
	CHECKP(13, threw == !(t || f), "exactly true and false are accepted as flags");
	if (!threw)
	{
		const Snapshot n(e);
		CHECKP(13, (input ? n.place("A")->input : n.transition("T")->requireNoActionsInExecution) == t, "the flag is read exactly");
	}
	sym_cover(threw ? "rejected" : s.empty() ? "absent" : t ? "true" : "false");
}
#elif SCEN == 14
int main()
{
	static const char *const K[] = { "Activation", "Destination", "Inhibitor", "Bidirectional" };
	// any text as long as one of the names that differs from it in any two places, or any short text, or a name cut or extended
	const uint64_t k = sym_choice("near", 4), how = sym_choice("how", 4);
	std::string s = K[k];
	if (how == 0) { const uint64_t i = sym_choice("at", s.size()); s[i] = (char)sym_range("c", 32, 126); if (i + 1 < s.size()) s[i + 1] = (char)sym_range("c", 32, 126); }
	if (how == 1) s = anyText("c", 3);
	if (how == 2) s.pop_back();
	if (how == 3) s += (char)sym_range("c", 32, 126);
	int known = -1;
	for (int i = 0; i < 4; i++) if (s == K[i]) known = i;
	PTN_Engine e;
	writeFile("SINGLE_THREAD", "1", "false", "false", "3", s.c_str());
	const bool threw = fails([&] { doImport(e, "in.xml"); });
	CHECKP(13, threw == (known < 0), "exactly the four kinds of arcs are accepted");
	if (!threw)
	{
		const Snapshot n(e);
		const auto *t = n.transition("T");
		CHECKP(13, t->activationArcs.size() == (known == 0 || known == 3) && t->destinationArcs.size() == (known == 1 || known == 3) && t->inhibitorArcs.size() == (known == 2), "the arc is of the kind the text says");
	}
	sym_cover(known < 0 ? "rejected" : "known");
}
#elif SCEN == 15 || SCEN == 16
#include "PTN_Engine/ImportExport/ActionsThreadOptionConversions.h"
static const char *const K[] = { "SINGLE_THREAD", "EVENT_LOOP", "DETACHED", "JOB_QUEUE" };
static std::string near()
{
	const uint64_t k = sym_choice("near", 4), how = sym_choice("how", 4);
	std::string s = K[k];
	if (how == 0) { const uint64_t i = sym_choice("at", s.size()); s[i] = (char)sym_range("c", 32, 126); if (i + 1 < s.size()) s[i + 1] = (char)sym_range("c", 32, 126); }
	if (how == 1) s = anyText("c", 3);
	if (how == 2) s.pop_back();
	if (how == 3) s += (char)sym_range("c", 32, 126);
	return s;
}
int main()
{
	const std::string s = near();
	int known = -1;
	for (int i = 0; i < 4; i++) if (s == K[i]) known = i;
#if SCEN == 15
	PTN_Engine e((known == 0) ? TO::JOB_QUEUE : TO::SINGLE_THREAD);
	writeFile(s.c_str(), "1", "false", "false", "3", nullptr);
	const bool threw = fails([&] { doImport(e, "in.xml"); });
	CHECKP(13, threw == (known < 0), "exactly the four thread modes are accepted");
	if (!threw) CHECKP(13, e.getActionsThreadOption() == MODES[known], "the mode is the one the text says");
#else
	TO m{};
	const bool threw = fails([&] { m = ActionsThreadOptionConversions::toACTIONS_THREAD_OPTION(s); });
	CHECKP(13, threw == (known < 0), "no other text is a mode name");
	if (!threw) CHECKP(13, m == MODES[known], "the name means that mode");
	const uint64_t i = sym_choice("mode", 4);
	CHECKP(13, ActionsThreadOptionConversions::toString(MODES[i]) == K[i], "every mode has its name");
	CHECKP(13, ActionsThreadOptionConversions::toACTIONS_THREAD_OPTION(ActionsThreadOptionConversions::toString(MODES[i])) == MODES[i], "a mode survives conversion to text and back");
	sym_cover("end");
#endif
	sym_cover(known < 0 ? "rejected" : "known");
}
#elif SCEN == 17
int main()
{
	PTN_Engine e;
	CHECKP(13, fails([&] { doImport(e, "does-not-exist.xml"); }), "a file that cannot be read is reported");
	sym_cover("end");
}
#endif
