// Every option and a range of names through the conversions of the actions thread option.
#include "PTN_Engine/ImportExport/ActionsThreadOptionConversions.h"
#include "common.h"

using namespace ptne;
using Opt = PTN_Engine::ACTIONS_THREAD_OPTION;

static void convert(Rng &r, size_t)
{
	static const vector<Opt> OPTS = { Opt::SINGLE_THREAD, Opt::EVENT_LOOP, Opt::DETACHED, Opt::JOB_QUEUE };
	static const vector<string> NAMES = { "SINGLE_THREAD", "EVENT_LOOP", "DETACHED", "JOB_QUEUE" };
	for (size_t i = 0; i < 4; ++i)
	{
		note("option " + NAMES[i]);
		REQUIRE(ActionsThreadOptionConversions::toString(OPTS[i]) == NAMES[i], "its name is given as " << ActionsThreadOptionConversions::toString(OPTS[i]));
		REQUIRE(ActionsThreadOptionConversions::toACTIONS_THREAD_OPTION(NAMES[i]) == OPTS[i], "its name is read as another option");
	}
	for (int k = 0; k < 50; ++k)
	{
		int v = int(r.below(2000)) - 1000;
		bool known = false;
		for (auto o : OPTS)
		{
			known = known || int(o) == v;
		}
		if (!known)
		{
			note("option value " + std::to_string(v));
			REQUIRE(!thrown([&] { ActionsThreadOptionConversions::toString(Opt(v)); }).empty(), "the value has a name");
		}
		string s = NAMES[r.below(4)];
		size_t at = r.below(s.size());
		switch (r.below(4))
		{
		case 0:
			s[at] = char(s[at] ^ 32);
			break;
		case 1:
			s.erase(at);
			break;
		case 2:
			s += s[at];
			break;
		default:
			s = string(1, ' ') + s;
		}
		note("option name '" + s + "'");
		REQUIRE(!thrown([&] { ActionsThreadOptionConversions::toACTIONS_THREAD_OPTION(s); }).empty(), "the name is accepted");
	}
}

int main(int argc, char **argv)
{
	return drive("convert", convert, strtoull(argv[2], nullptr, 10), atof(argv[3]), 25);
}
