// Searches on XML export and import, and the names of the actions thread options. Writes only into the current directory.
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include "common.h"
#include <algorithm>
#include <fstream>
#include <iterator>

using namespace ptne;
using Opt = PTN_Engine::ACTIONS_THREAD_OPTION;
using AT = ArcProperties::Type;

static const vector<Opt> OPTS = { Opt::SINGLE_THREAD, Opt::EVENT_LOOP, Opt::DETACHED, Opt::JOB_QUEUE };
static const vector<string> OPTNAMES = { "SINGLE_THREAD", "EVENT_LOOP", "DETACHED", "JOB_QUEUE" };
static const vector<string> ODD = { "", "a", " x", "x ", "<", "&", "\"", "'", ">", "\t", "\n", "a  b", "&amp;", "\r\n", "\xc3\xa9", "true", "0", "Place", "]]>", "\x01" };

static string slurp(const string &f)
{
	std::ifstream i(f, std::ios::binary);
	return string(std::istreambuf_iterator<char>(i), {});
}

static void fill(PTN_Engine &e, int n)
{
	for (int i = 0; i < n; ++i)
	{
		e.registerAction("act" + std::to_string(i) + "<&\"" + ODD[size_t(i) % ODD.size()], [] {});
		e.registerCondition("cond" + std::to_string(i) + "'>" + ODD[size_t(i) % ODD.size()], [] { return true; });
	}
}
static string act(size_t i)
{
	return "act" + std::to_string(i) + "<&\"" + ODD[i % ODD.size()];
}
static string cond(size_t i)
{
	return "cond" + std::to_string(i) + "'>" + ODD[i % ODD.size()];
}

static string text(const PTN_Engine &e)
{
	std::set<string> out;
	for (auto &p : e.getPlacesProperties())
	{
		std::ostringstream o;
		o << "place '" << p.name << "' tokens " << p.initialNumberOfTokens << (p.input ? " input" : "") << " onEnter '" << p.onEnterActionFunctionName << "' onExit '" << p.onExitActionFunctionName << "'";
		out.insert(o.str());
	}
	for (auto &t : e.getTransitionsProperties())
	{
		std::ostringstream o;
		o << "transition '" << t.name << "'" << (t.requireNoActionsInExecution ? " requireNoActionsInExecution" : "");
		auto arcs = [&](const char *n, const vector<ArcProperties> &v)
		{
			o << " " << n << "[";
			for (auto &a : v)
			{
				o << " '" << a.placeName << "'*" << a.weight;
			}
			o << " ]";
		};
		arcs("activation", t.activationArcs);
		arcs("destination", t.destinationArcs);
		arcs("inhibitor", t.inhibitorArcs);
		o << " conditions[";
		for (auto &c : t.additionalConditionsNames)
		{
			o << " '" << c << "'";
		}
		o << " ]";
		out.insert(o.str());
	}
	string s = "option " + std::to_string(int(e.getActionsThreadOption())) + "\n";
	for (auto &x : out)
	{
		s += x + "\n";
	}
	return s;
}

static void roundtrip(Rng &r, size_t)
{
	static const vector<size_t> V = { 1, 2, 3, MAXT, MAXT - 1, MAXT / 2 + 1, 10, 100, size_t(INT_MAX), size_t(INT_MAX) + 1, size_t(UINT_MAX), size_t(UINT_MAX) + 1, size_t(LLONG_MAX), 1000000000000000000ull };
	size_t o = r.below(4);
	PTN_Engine e(OPTS[o]);
	fill(e, 5);
	size_t np = r.below(6), nt = r.below(4);
	vector<string> names;
	for (size_t i = 0; i < np; ++i)
	{
		PlaceProperties p;
		p.name = r.chance(30) ? r.pick(ODD) + std::to_string(i) + r.pick(ODD) : "p" + std::to_string(i);
		names.push_back(p.name);
		p.initialNumberOfTokens = r.chance(50) ? r.below(4) : r.pick(V);
		p.input = r.chance(50);
		if (r.chance(50))
		{
			p.onEnterActionFunctionName = act(r.below(5));
		}
		if (r.chance(50))
		{
			p.onExitActionFunctionName = act(r.below(5));
		}
		e.createPlace(p);
	}
	for (size_t i = 0; i < nt; ++i)
	{
		TransitionProperties t;
		t.name = r.chance(30) ? r.pick(ODD) + std::to_string(i) + r.pick(ODD) : "t" + std::to_string(i);
		auto arcs = [&](int pc, vector<ArcProperties> &v, AT ty)
		{
			for (auto &n : names)
			{
				if (r.chance(pc))
				{
					ArcProperties a;
					a.placeName = n;
					a.transitionName = t.name;
					a.weight = r.chance(60) ? 1 + r.below(3) : r.pick(V);
					a.type = ty;
					v.push_back(a);
				}
			}
			for (size_t k = v.size(); k > 1; --k)
			{
				std::swap(v[k - 1], v[r.below(k)]);
			}
		};
		arcs(40, t.activationArcs, AT::ACTIVATION);
		arcs(40, t.destinationArcs, AT::DESTINATION);
		arcs(30, t.inhibitorArcs, AT::INHIBITOR);
		for (size_t k = r.below(4); k > 0; --k)
		{
			t.additionalConditionsNames.push_back(cond(r.below(5)));
		}
		t.requireNoActionsInExecution = r.chance(50);
		e.createTransition(t);
	}
	string before = text(e);
	note(before);
	auto x = FileExporterFactory::createXMLFileExporter();
	x->_export(e, "a.xml");
	REQUIRE(text(e) == before, "exporting changed the net");
	x->_export(e, "b.xml");
	REQUIRE(slurp("a.xml") == slurp("b.xml"), "a second export gives another document");
	PTN_Engine f(OPTS[r.below(4)]);
	fill(f, 5);
	auto im = FileImporterFactory::createXMLFileImporter();
	im->_import("b.xml", f);
	REQUIRE(text(f) == before, "importing the exported document gives another net:\n" << text(f));
	if (r.chance(10))
	{
		REQUIRE(!thrown([&] { x->_export(e, "no-such-directory/a.xml"); }).empty(), "an export that cannot write its file does not throw");
		REQUIRE(!thrown([&] { im->_import("no-such-file.xml", f); }).empty(), "an import of a missing file does not throw");
	}
	// another net through the same exporter and importer
	if (r.chance(30))
	{
		PTN_Engine g(OPTS[r.below(4)]);
		PlaceProperties p;
		p.name = "only";
		p.initialNumberOfTokens = 7;
		g.createPlace(p);
		x->_export(g, "b.xml");
		PTN_Engine h(Opt::EVENT_LOOP);
		im->_import("b.xml", h);
		REQUIRE(text(h) == text(g), "the same exporter and importer, used for a second net, give another net:\n" << text(h));
	}
}

static bool decimal(const string &s, size_t &v)
{
	if (s.empty())
	{
		return false;
	}
	v = 0;
	for (char c : s)
	{
		if (c < '0' || c > '9')
		{
			return false;
		}
		if (v > (MAXT - size_t(c - '0')) / 10)
		{
			return false;
		}
		v = v * 10 + size_t(c - '0');
	}
	return true;
}

static void numerals(Rng &r, size_t)
{
	static const vector<string> PIECES = { "0", "1", "9", "12", "007", "-", "+", " ", ".", "e3", "x", "0x10", "18446744073709551615", "18446744073709551616", "18446744073709551614", "99999999999999999999999", "4294967296", "-1", "a", "1844674407370955161", "," };
	string n;
	for (size_t i = 1 + (r.chance(50) ? 0 : r.below(3)); i > 0; --i)
	{
		n += r.pick(PIECES);
	}
	bool weight = r.chance(50);
	string where = weight ? "weight" : "token count";
	note(where + " text '" + n + "'");
	{
		std::ofstream f("n.xml");
		f << "<?xml version=\"1.0\"?>\n<PTN-Engine version=\"3.0\" actionsThreadOption=\"EVENT_LOOP\"><Places><Place name=\"p\" tokens=\"" << (weight ? "3" : n)
		  << "\" input=\"true\"/></Places><Transitions><Transition><Name value=\"t\"/><RequireNoActionsInExecution value=\"false\"/></Transition></Transitions><Arcs><Arc><Place value=\"p\"/><Transition value=\"t\"/><Weight value=\""
		  << (weight ? n : "2") << "\"/><Type value=\"Activation\"/></Arc></Arcs></PTN-Engine>\n";
	}
	size_t v = 0;
	bool good = decimal(n, v);
	if (weight && v == 0)
	{
		good = false;
	}
	PTN_Engine e(Opt::EVENT_LOOP);
	auto im = FileImporterFactory::createXMLFileImporter();
	string x = thrown([&] { im->_import("n.xml", e); });
	REQUIRE(good == x.empty(), "the text is " << (good ? "a numeral in range, but rejected with " + x : "no numeral in range, but accepted"));
	if (good && !weight)
	{
		REQUIRE(e.getNumberOfTokens("p") == v, "the text was read as " << e.getNumberOfTokens("p"));
	}
	if (good && weight)
	{
		REQUIRE(e.getTransitionsProperties().at(0).activationArcs.at(0).weight == v, "the text was read as " << e.getTransitionsProperties().at(0).activationArcs.at(0).weight);
	}
}

// documents with each type of arc, each option name, each flag
static void documents(Rng &r, size_t)
{
	static const vector<string> TYPES = { "Activation", "Destination", "Inhibitor", "Bidirectional", "activation", "", "Other" };
	static const vector<string> NAMES = { "SINGLE_THREAD", "EVENT_LOOP", "DETACHED", "JOB_QUEUE", "", "single_thread", "JOB_QUEUE ", "EVENT LOOP", "0", "JOB_QUEU" };
	static const vector<string> FLAGS = { "true", "false", "", "TRUE", "1" };
	string ty = r.pick(TYPES), op = r.pick(NAMES), fl = r.pick(FLAGS), in = r.pick(FLAGS);
	if (r.chance(60))
	{
		op = OPTNAMES[r.below(4)];
		fl = FLAGS[r.below(2)];
		ty = TYPES[r.below(4)];
	}
	note("document with arc type '" + ty + "', option '" + op + "', flag '" + fl + "', input '" + in + "'");
	{
		std::ofstream f("d.xml");
		f << "<PTN-Engine actionsThreadOption=\"" << op << "\"><Places><Place name=\"p\" tokens=\"1\" input=\"" << in
		  << "\"/></Places><Transitions><Transition><Name value=\"t\"/><RequireNoActionsInExecution value=\"" << fl
		  << "\"/></Transition></Transitions><Arcs><Arc><Place value=\"p\"/><Transition value=\"t\"/><Weight value=\"3\"/><Type value=\"" << ty << "\"/></Arc></Arcs></PTN-Engine>\n";
	}
	auto oi = std::find(OPTNAMES.begin(), OPTNAMES.end(), op);
	bool goodType = ty == "Activation" || ty == "Destination" || ty == "Inhibitor" || ty == "Bidirectional";
	bool good = oi != OPTNAMES.end() && (fl == "true" || fl == "false") && goodType;
	PTN_Engine e(r.pick(OPTS));
	auto im = FileImporterFactory::createXMLFileImporter();
	string x = thrown([&] { im->_import("d.xml", e); });
	REQUIRE(good == x.empty(), (good ? "a correct document is rejected with " + x : "a wrong document is accepted"));
	if (!good)
	{
		return;
	}
	REQUIRE(e.getActionsThreadOption() == OPTS[size_t(oi - OPTNAMES.begin())], "the option is read as " << int(e.getActionsThreadOption()));
	auto t = e.getTransitionsProperties().at(0);
	bool bi = ty == "Bidirectional";
	REQUIRE(t.activationArcs.size() == (ty == "Activation" || bi) && t.destinationArcs.size() == (ty == "Destination" || bi) && t.inhibitorArcs.size() == (ty == "Inhibitor"), "the arc is read as one of another type");
	REQUIRE(t.requireNoActionsInExecution == (fl == "true"), "the flag is read as " << t.requireNoActionsInExecution);
	REQUIRE(e.getPlacesProperties().at(0).input == (in == "true") || (in != "true" && in != "false"), "the input flag is read as " << e.getPlacesProperties().at(0).input);
}

int main(int argc, char **argv)
{
	string name = argv[1];
	std::map<string, Scenario> all{ { "roundtrip", roundtrip }, { "numerals", numerals }, { "documents", documents } };
	return drive(name, all.at(name), strtoull(argv[2], nullptr, 10), atof(argv[3]), 25);
}
