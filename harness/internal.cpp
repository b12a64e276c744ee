// Searches on places, transitions and the engine behind the public object.
#include "PTN_Engine/Executor/IActionsExecutor.h"
#include "PTN_Engine/PTN_EngineImp.h"
#include "PTN_Engine/PTN_Exception.h"
#include "PTN_Engine/Place.h"
#include "PTN_Engine/Transition.h"
#include "common.h"
#include <algorithm>

using namespace ptne;
using Opt = PTN_Engine::ACTIONS_THREAD_OPTION;
using AT = ArcProperties::Type;

static string num(size_t n)
{
	return n > MAXT - 100 ? "MAX-" + std::to_string(MAXT - n) : std::to_string(n);
}

struct Recorder : IActionsExecutor
{
	std::mutex m;
	std::atomic<int> calls = 0;
	void executeAction(const ActionFunction &action, std::atomic<size_t> &counter) override
	{
		++counter;
		calls++;
		{
			std::lock_guard l(m);
			action();
		}
		--counter;
	}
};

static vector<string> seen;

// Hands over, but leaves the actions in execution until they are released.
struct Holder : IActionsExecutor
{
	vector<std::atomic<size_t> *> held;
	bool hold = false;
	void executeAction(const ActionFunction &action, std::atomic<size_t> &counter) override
	{
		action();
		if (hold)
		{
			++counter;
			held.push_back(&counter);
		}
	}
	void release()
	{
		for (auto c : held)
		{
			--*c;
		}
		held.clear();
	}
};

// ------------------------------------------------------------------ operations of a place
static void place(Rng &r, size_t)
{
	static const vector<size_t> V = { 0, 1, 2, 3, MAXT, MAXT - 1, MAXT - 2, MAXT / 2, MAXT / 2 + 1, 10 };
	auto ex = std::make_shared<Recorder>();
	std::shared_ptr<IActionsExecutor> e1 = ex;
	PlaceProperties pp;
	bool en = r.chance(60), xt = r.chance(60), named = r.chance(40);
	pp.name = "place" + std::to_string(r.below(9));
	size_t t = r.chance(50) ? r.below(4) : r.pick(V);
	pp.initialNumberOfTokens = t;
	pp.input = r.chance(50);
	if (en)
	{
		pp.onEnterAction = [] { seen.push_back("enter"); };
		pp.onEnterActionFunctionName = named ? "en" : "";
	}
	if (xt)
	{
		pp.onExitAction = [] { seen.push_back("exit"); };
		pp.onExitActionFunctionName = named ? "xt" : "";
	}
	std::ostringstream hist;
	hist << "place with " << num(t) << " tokens" << (en ? ", on-enter action" : "") << (xt ? ", on-exit action" : "") << ":";
	Place p(pp, e1);
	seen.clear();
	vector<string> want;
	for (int k = 0; k < 12; ++k)
	{
		size_t n = r.chance(40) ? r.below(3) : r.pick(V);
		int op = int(r.below(5));
		string got, exp;
		if (op <= 1)
		{
			hist << " enter(" << num(n) << ")";
			note(hist.str());
			if (n == 0)
			{
				exp = "NullTokensException";
			}
			else if (n > MAXT - t)
			{
				exp = "OverflowException";
			}
			else
			{
				t += n;
				if (en)
				{
					want.push_back("enter");
				}
			}
			got = thrown([&] { p.enterPlace(n); });
		}
		else if (op <= 3)
		{
			hist << " exit(" << num(n) << ")";
			note(hist.str());
			if (n > t)
			{
				exp = "NotEnoughTokensException";
			}
			else
			{
				t = n == 0 ? 0 : t - n;
				if (xt)
				{
					want.push_back("exit");
				}
			}
			got = thrown([&] { p.exitPlace(n); });
		}
		else
		{
			hist << " set(" << num(n) << ")";
			note(hist.str());
			p.setNumberOfTokens(n);
			t = n;
		}
		REQUIRE(got == exp, "exception '" << got << "' instead of '" << exp << "'");
		REQUIRE(p.getNumberOfTokens() == t, num(p.getNumberOfTokens()) << " tokens instead of " << num(t));
		REQUIRE(seen == want, "the actions run so far are not the ones the entries and exits ask for (" << seen.size() << " instead of " << want.size() << ")");
		REQUIRE(!p.isOnEnterActionInExecution(), "an action is reported in execution after it returned");
		PlaceProperties q = p.placeProperties();
		REQUIRE(q.name == pp.name && p.getName() == pp.name && q.initialNumberOfTokens == t && q.input == pp.input && p.isInputPlace() == pp.input
				&& q.onEnterActionFunctionName == pp.onEnterActionFunctionName && q.onExitActionFunctionName == pp.onExitActionFunctionName
				&& p.getOnEnterActionName() == pp.onEnterActionFunctionName && p.getOnExitActionName() == pp.onExitActionFunctionName
				&& bool(q.onEnterAction) == en && bool(q.onExitAction) == xt, "the reported properties are not the ones of the place");
		if (r.chance(10))
		{
			auto ex2 = std::make_shared<Recorder>();
			std::shared_ptr<IActionsExecutor> e2 = ex2;
			p.setActionsExecutor(e2);
			int before = ex->calls;
			hist << " newExecutor";
			if (t < MAXT)
			{
				hist << " enter(1)";
				note(hist.str());
				p.enterPlace(1);
				t++;
				if (en)
				{
					want.push_back("enter");
				}
				REQUIRE(ex->calls == before && ex2->calls == (en ? 1 : 0), "the action did not go to the executor set last");
				REQUIRE(seen == want, "the action was not run once by the executor set last");
			}
			p.setActionsExecutor(e1);
			hist << " oldExecutor";
		}
	}
}

// ------------------------------------------------------------------ one transition
static void trans(Rng &r, size_t)
{
	static const vector<size_t> V = { 0, 1, 2, 3, MAXT, MAXT - 1, MAXT - 2, MAXT / 2, MAXT / 2 + 1 };
	auto ex = std::make_shared<Holder>();
	std::shared_ptr<IActionsExecutor> e1 = ex;
	ex->hold = r.chance(40);
	bool small = r.chance(60);
	size_t np = 1 + r.below(5);
	vector<size_t> t(np);
	vector<char> en(np), xt(np);
	vector<std::shared_ptr<Place>> P;
	std::ostringstream o;
	for (size_t i = 0; i < np; ++i)
	{
		t[i] = small ? r.below(5) : r.pick(V);
		en[i] = r.chance(60);
		xt[i] = r.chance(60);
		PlaceProperties pp;
		pp.name = "p" + std::to_string(i);
		pp.initialNumberOfTokens = t[i];
		if (en[i])
		{
			pp.onEnterAction = [i] { seen.push_back("enter p" + std::to_string(i)); };
		}
		if (xt[i])
		{
			pp.onExitAction = [i] { seen.push_back("exit p" + std::to_string(i)); };
		}
		P.push_back(std::make_shared<Place>(pp, e1));
		o << pp.name << "=" << num(t[i]) << (en[i] ? " onEnter" : "") << (xt[i] ? " onExit" : "") << "; ";
	}
	struct A
	{
		size_t p, w;
	};
	auto arcs = [&](int pc, const char *nm)
	{
		vector<A> v;
		for (size_t i = 0; i < np; ++i)
		{
			if (r.chance(pc))
			{
				v.push_back({ i, small ? 1 + r.below(3) : std::max<size_t>(1, r.pick(V)) });
			}
		}
		for (size_t i = v.size(); i > 1; --i)
		{
			std::swap(v[i - 1], v[r.below(i)]);
		}
		o << nm << "[";
		for (auto &a : v)
		{
			o << " p" << a.p << "*" << num(a.w);
		}
		o << " ] ";
		return v;
	};
	auto va = arcs(50, "activation"), vd = arcs(50, "destination"), vh = arcs(r.chance(60) ? 0 : 25, "inhibitor");
	if (r.chance(60))
	{
		for (auto &a : va)
		{
			if (t[a.p] < a.w)
			{
				t[a.p] = a.w;
				P[a.p]->setNumberOfTokens(a.w);
				o << "then p" << a.p << "=" << num(a.w) << "; ";
			}
		}
	}
	vector<int> conds;
	o << "conditions[";
	for (size_t i = r.below(4); i > 0 && r.chance(60); --i)
	{
		conds.push_back(r.chance(75) ? 1 : int(r.below(4)));
		o << " " << (conds.back() == 0 ? "false" : conds.back() == 1 ? "true" : conds.back() == 2 ? "throws" : "unset");
	}
	bool flag = r.chance(50);
	o << " ]" << (flag ? " requireNoActionsInExecution" : "");
	auto conv = [&](const vector<A> &v)
	{
		vector<Arc> x;
		for (auto &a : v)
		{
			x.push_back({ P[a.p], a.w });
		}
		return x;
	};
	vector<std::pair<string, ConditionFunction>> cs;
	for (size_t i = 0; i < conds.size(); ++i)
	{
		int c = conds[i];
		ConditionFunction f;
		if (c == 2)
		{
			f = []() -> bool { throw UserError(); };
		}
		else if (c != 3)
		{
			f = [c] { return c == 1; };
		}
		cs.push_back({ "c" + std::to_string(i), f });
	}
	note(o.str());
	Transition T("t", conv(va), conv(vd), conv(vh), cs, flag);
	vector<int> busy(np);
	for (int k = 0; k < 4; ++k)
	{
		if (r.chance(30))
		{
			o << " actionsReturn";
			ex->release();
			busy.assign(np, 0);
		}
		o << (ex->hold ? " (actions stay in execution)" : "") << " execute";
		note(o.str());
		bool on = true;
		string exc;
		for (auto &a : va)
		{
			on = on && t[a.p] >= a.w;
		}
		for (auto &a : vh)
		{
			on = on && t[a.p] == 0;
		}
		bool marked = on, condThrows = false;
		if (flag && on)
		{
			for (auto &a : va)
			{
				on = on && busy[a.p] == 0;
			}
		}
		for (int c : conds)
		{
			if (!on)
			{
				break;
			}
			if (c == 0)
			{
				on = false;
			}
			else if (c >= 2)
			{
				condThrows = true;
				exc = c == 2 ? "UserError" : "any";
				break;
			}
		}
		if (!condThrows)
		{
			bool got = false;
			string x = thrown([&] { got = T.isEnabled(); });
			REQUIRE(x.empty() && (!on || got) && (!got || marked), "isEnabled() is " << got << x << ", the firing rule says " << on);
		}
		auto want = t;
		vector<string> exits, enters;
		if (on && !condThrows)
		{
			for (auto &a : va)
			{
				want[a.p] -= a.w;
				if (xt[a.p])
				{
					exits.push_back("exit p" + std::to_string(a.p));
				}
			}
			for (auto &a : vd)
			{
				if (a.w > MAXT - want[a.p])
				{
					exc = "OverflowException";
					break;
				}
				want[a.p] += a.w;
				if (en[a.p])
				{
					enters.push_back("enter p" + std::to_string(a.p));
				}
			}
			if (!exc.empty())
			{
				exits.clear();
				enters.clear();
				want = t;
			}
		}
		seen.clear();
		bool fired = false;
		string got = thrown([&] { fired = T.execute(); });
		REQUIRE(exc == "any" ? !got.empty() : got == exc, "exception '" << got << "' instead of '" << exc << "'");
		if (exc.empty())
		{
			REQUIRE(fired == on, "the attempt reports " << fired << ", the firing rule says " << on);
		}
		for (size_t i = 0; i < np; ++i)
		{
			REQUIRE(P[i]->getNumberOfTokens() == want[i], "p" << i << " has " << num(P[i]->getNumberOfTokens()) << " tokens instead of " << num(want[i]));
		}
		REQUIRE(seen.size() == exits.size() + enters.size(), seen.size() << " actions handed over instead of " << exits.size() + enters.size());
		vector<string> sx(seen.begin(), seen.begin() + long(exits.size())), se(seen.begin() + long(exits.size()), seen.end());
		std::sort(sx.begin(), sx.end());
		std::sort(se.begin(), se.end());
		std::sort(exits.begin(), exits.end());
		std::sort(enters.begin(), enters.end());
		REQUIRE(sx == exits && se == enters, "the actions handed over are not each exit action once, then each enter action once");
		t = want;
		if (on && exc.empty() && ex->hold)
		{
			for (auto &a : vd)
			{
				busy[a.p] += en[a.p];
			}
		}
		// no place may be left blocked
		o << " enterAll";
		note(o.str());
		for (size_t i = 0; i < np; ++i)
		{
			if (t[i] < MAXT && r.chance(50))
			{
				seen.clear();
				P[i]->enterPlace(1);
				t[i]++;
				busy[i] += en[i] && ex->hold;
				REQUIRE(P[i]->isOnEnterActionInExecution() == (busy[i] > 0), "an on-enter action of p" << i << " is reported in execution: " << P[i]->isOnEnterActionInExecution());
				REQUIRE(seen.size() == (en[i] ? 1u : 0u), "the action of p" << i << " was not handed over once");
			}
		}
	}
	TransitionProperties q = T.getTransitionProperties();
	auto eq = [&](const vector<ArcProperties> &g, const vector<A> &w, AT ty)
	{
		if (g.size() != w.size())
		{
			return false;
		}
		for (size_t i = 0; i < g.size(); ++i)
		{
			if (g[i].placeName != "p" + std::to_string(w[i].p) || g[i].weight != w[i].w || g[i].type != ty)
			{
				return false;
			}
		}
		return true;
	};
	REQUIRE(eq(q.activationArcs, va, AT::ACTIVATION) && eq(q.destinationArcs, vd, AT::DESTINATION) && eq(q.inhibitorArcs, vh, AT::INHIBITOR), "the reported arcs are not the ones of the transition");
	REQUIRE(q.name == "t" && T.getName() == "t" && q.requireNoActionsInExecution == flag && q.additionalConditionsNames.size() == conds.size(), "the reported properties are not the ones of the transition");
}

// ------------------------------------------------------------------ sweeps and input places of the engine
static void engine(Rng &r, size_t)
{
	PTN_EngineImp e(Opt::EVENT_LOOP);
	IPTN_EngineEL &el = e;
	std::ostringstream o;
	size_t np = 2 + r.below(4);
	vector<size_t> t(np);
	vector<char> in(np);
	if (r.chance(35))
	{
		// another net before this one
		size_t before = 1 + r.below(3);
		o << "first a net of " << before << " input places; ";
		for (size_t i = 0; i < before; ++i)
		{
			PlaceProperties p;
			p.name = "p" + std::to_string(i);
			p.input = true;
			e.createPlace(p);
			e.incrementInputPlace(p.name);
		}
		if (r.chance(50))
		{
			o << "clearInputPlaces; ";
			e.clearInputPlaces();
			for (size_t i = 0; i < before; ++i)
			{
				REQUIRE(e.getNumberOfTokens("p" + std::to_string(i)) == 0, o.str() << "p" << i << " is not empty");
			}
		}
		o << "clearNet; ";
		e.clearNet();
		note(o.str());
	}
	for (size_t i = 0; i < np; ++i)
	{
		PlaceProperties p;
		p.name = "p" + std::to_string(i);
		p.initialNumberOfTokens = t[i] = r.below(4);
		p.input = in[i] = r.chance(50);
		e.createPlace(p);
		o << p.name << "=" << t[i] << (in[i] ? " input" : "") << "; ";
		if (r.chance(20))
		{
			o << "again " << p.name << " as an input place; ";
			p.input = true;
			p.initialNumberOfTokens = 1;
			REQUIRE(thrown([&] { e.createPlace(p); }) != "", o.str() << "a second place of one name was accepted");
		}
	}
	struct Tr
	{
		vector<std::pair<size_t, size_t>> a, d, h;
	};
	vector<Tr> tr(1 + r.below(4));
	for (size_t k = 0; k < tr.size(); ++k)
	{
		TransitionProperties q;
		q.name = "t" + std::to_string(k);
		o << q.name << ":";
		for (size_t i = 0; i < np; ++i)
		{
			auto add = [&](int pc, vector<std::pair<size_t, size_t>> &v, vector<ArcProperties> &w, const char *nm)
			{
				if (r.chance(pc))
				{
					v.push_back({ i, 1 + r.below(2) });
					ArcProperties x;
					x.placeName = "p" + std::to_string(i);
					x.weight = v.back().second;
					w.push_back(x);
					o << " " << nm << " p" << i << "*" << x.weight;
				}
			};
			add(35, tr[k].a, q.activationArcs, "from");
			add(35, tr[k].d, q.destinationArcs, "to");
			add(10, tr[k].h, q.inhibitorArcs, "not");
		}
		o << "; ";
		e.createTransition(q);
	}
	note(o.str());
	auto enabled = [&](const vector<size_t> &m, const Tr &x)
	{
		for (auto &a : x.a)
		{
			if (m[a.first] < a.second)
			{
				return false;
			}
		}
		for (auto &a : x.h)
		{
			if (m[a.first] != 0)
			{
				return false;
			}
		}
		return true;
	};
	for (int k = 0; k < 4; ++k)
	{
		vector<size_t> on;
		for (size_t i = 0; i < tr.size(); ++i)
		{
			if (enabled(t, tr[i]))
			{
				on.push_back(i);
			}
		}
		REQUIRE(e.enabledTransitions().size() == on.size(), e.enabledTransitions().size() << " transitions collected as enabled instead of " << on.size());
		// every order of attempts
		std::set<std::pair<vector<size_t>, bool>> ok;
		do
		{
			auto m = t;
			bool any = false;
			for (size_t i : on)
			{
				if (enabled(m, tr[i]))
				{
					any = true;
					for (auto &a : tr[i].a)
					{
						m[a.first] -= a.second;
					}
					for (auto &a : tr[i].d)
					{
						m[a.first] += a.second;
					}
				}
			}
			ok.insert({ m, any });
		} while (std::next_permutation(on.begin(), on.end()));
		o << " sweep";
		note(o.str());
		bool got = el.executeInt(false, o);
		vector<size_t> m;
		for (size_t i = 0; i < np; ++i)
		{
			m.push_back(e.getNumberOfTokens("p" + std::to_string(i)));
		}
		REQUIRE(ok.count({ m, got }), "no order of attempting each enabled transition once gives these tokens and the result " << got);
		t = m;
		if (r.chance(40))
		{
			size_t i = r.below(np);
			o << " increment p" << i;
			note(o.str());
			REQUIRE(thrown([&] { e.incrementInputPlace("p" + std::to_string(i)); }) == (in[i] ? "" : "NotInputPlaceException"), "wrong exception of incrementInputPlace");
			t[i] += in[i] ? 1 : 0;
			REQUIRE(e.getNumberOfTokens("p" + std::to_string(i)) == t[i], "incrementInputPlace did not add one token");
			if (in[i])
			{
				REQUIRE(el.getNewInputReceived(), "the new input is not recorded");
			}
		}
		if (r.chance(25))
		{
			o << " clearInputPlaces";
			note(o.str());
			string x = thrown([&] { e.clearInputPlaces(); });
			REQUIRE(x == "", "clearInputPlaces threw " << x);
			for (size_t i = 0; i < np; ++i)
			{
				t[i] = in[i] ? 0 : t[i];
				REQUIRE(e.getNumberOfTokens("p" + std::to_string(i)) == t[i], "after clearInputPlaces, p" << i << " has " << e.getNumberOfTokens("p" + std::to_string(i)) << " tokens instead of " << t[i]);
			}
		}
	}
}

// ------------------------------------------------------------------ blocked places
static void blocked(Rng &r, size_t)
{
	auto ex = std::make_shared<Recorder>();
	std::shared_ptr<IActionsExecutor> e1 = ex;
	std::atomic<int> entered = 0;
	PlaceProperties pp;
	pp.name = "p";
	pp.initialNumberOfTokens = 3;
	pp.onEnterAction = [&entered] { entered++; };
	auto P = std::make_shared<Place>(pp, e1);
	pp.name = "q";
	auto Q = std::make_shared<Place>(pp, e1);
	bool throws = r.chance(30), fires = r.chance(60), two = r.chance(50);
	size_t nEnter = 1 + r.below(2);
	std::ostringstream o;
	o << "transition with requireNoActionsInExecution; during its condition " << nEnter << " token entries into " << (two ? "its second" : "its") << " activation place; the condition then "
	  << (throws ? "throws" : fires ? "is true" : "is false");
	note(o.str());
	auto target = two ? Q : P;
	string bad;
	vector<std::thread> th;
	std::atomic<int> done = 0;
	bool once = false;
	ConditionFunction f = [&]() -> bool
	{
		if (once)
		{
			return fires;
		}
		once = true;
		for (size_t i = 0; i < nEnter; ++i)
		{
			th.emplace_back(
			[&]
			{
				target->enterPlace(1);
				done++;
			});
		}
		ms(30);
		if (entered != 0)
		{
			bad = "an on-enter action started in an activation place during the firing";
		}
		for (int i = 0; i < 20; ++i)
		{
			if (target->getNumberOfTokens() > 3 + nEnter)
			{
				bad = "wrong number of tokens";
			}
			ms(1);
		}
		sh->beat++;
		if (entered != 0)
		{
			bad = "an on-enter action started in an activation place during the firing";
		}
		if (throws)
		{
			throw UserError();
		}
		return fires;
	};
	vector<Arc> a{ { P, 1 } };
	if (two)
	{
		a.push_back({ Q, 1 });
	}
	Transition T("t", a, {}, {}, { { "c", f } }, true);
	bool fired = false;
	string got = thrown([&] { fired = T.execute(); });
	for (auto &t : th)
	{
		t.join();
	}
	REQUIRE(bad.empty(), bad);
	REQUIRE(got == (throws ? "UserError" : "") && (throws || fired == fires), "wrong result of the attempt: " << got << fired);
	REQUIRE(entered == int(nEnter), entered << " on-enter actions started for " << nEnter << " entries");
	REQUIRE(target->getNumberOfTokens() == 3 + nEnter - (fired ? 1 : 0), "wrong number of tokens at the end");
}

int main(int argc, char **argv)
{
	string name = argv[1];
	std::map<string, Scenario> all{ { "place", place }, { "trans", trans }, { "engine", engine }, { "blocked", blocked } };
	return drive(name, all.at(name), strtoull(argv[2], nullptr, 10), atof(argv[3]), 25);
}
