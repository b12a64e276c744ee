// Searches through the public interface only.
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include "common.h"
#include <algorithm>

using namespace ptne;
using Opt = PTN_Engine::ACTIONS_THREAD_OPTION;
using AT = ArcProperties::Type;

static string num(size_t n)
{
	return n > MAXT - 100 ? "MAX-" + std::to_string(MAXT - n) : std::to_string(n);
}

static ArcProperties arc(const string &p, size_t w, AT t = AT::ACTIVATION, const string &tr = "")
{
	ArcProperties a;
	a.placeName = p;
	a.weight = w;
	a.type = t;
	a.transitionName = tr;
	return a;
}

// ------------------------------------------------------------------ firing
struct FPlace
{
	size_t tokens;
	bool input, enter, exit;
};
struct FArc
{
	size_t p, w;
};
struct FNet
{
	vector<FPlace> places;
	vector<FArc> A, D, H;
	vector<int> conds; // 0 false, 1 true, 2 throws, 3 unset
	bool flag = false;
	string text() const
	{
		std::ostringstream o;
		for (size_t i = 0; i < places.size(); ++i)
		{
			o << "p" << i << "=" << num(places[i].tokens) << (places[i].input ? " input" : "") << (places[i].enter ? " onEnter" : "") << (places[i].exit ? " onExit" : "") << "; ";
		}
		auto list = [&](const char *n, const vector<FArc> &v)
		{
			o << n << "[";
			for (auto &a : v)
			{
				o << " p" << a.p << "*" << num(a.w);
			}
			o << " ] ";
		};
		list("activation", A);
		list("destination", D);
		list("inhibitor", H);
		o << "conditions[";
		for (int c : conds)
		{
			o << (c == 0 ? " false" : c == 1 ? " true" : c == 2 ? " throws" : " unset");
		}
		o << " ]" << (flag ? " requireNoActionsInExecution" : "");
		return o.str();
	}
};

struct FRun
{
	string exc;
	vector<vector<string>> exits, enters;
	bool endless = false;
};

// The firing rule, written down independently.
static FRun model(FNet &n)
{
	FRun r;
	for (int k = 0;; ++k)
	{
		if (k > 30)
		{
			r.endless = true;
			return r;
		}
		for (auto &a : n.A)
		{
			if (n.places[a.p].tokens < a.w)
			{
				return r;
			}
		}
		for (auto &a : n.H)
		{
			if (n.places[a.p].tokens != 0)
			{
				return r;
			}
		}
		for (int c : n.conds)
		{
			if (c == 0)
			{
				return r;
			}
			if (c == 2)
			{
				r.exc = "UserError";
				return r;
			}
			if (c == 3)
			{
				r.exc = "any";
				return r;
			}
		}
		vector<FPlace> q = n.places;
		vector<string> ex, en;
		for (auto &a : n.A)
		{
			q[a.p].tokens -= a.w;
			if (q[a.p].exit)
			{
				ex.push_back("exit p" + std::to_string(a.p));
			}
		}
		for (auto &a : n.D)
		{
			if (a.w > MAXT - q[a.p].tokens)
			{
				r.exc = "OverflowException";
				return r;
			}
			q[a.p].tokens += a.w;
			if (q[a.p].enter)
			{
				en.push_back("enter p" + std::to_string(a.p));
			}
		}
		n.places = q;
		std::sort(ex.begin(), ex.end());
		std::sort(en.begin(), en.end());
		r.exits.push_back(ex);
		r.enters.push_back(en);
	}
}

static vector<string> log_;

static void compare(const PTN_Engine &e, const FNet &before, const FNet &m, const FRun &r, const string &exc)
{
	if (r.exc == "any")
	{
		REQUIRE(exc != "", "an attempt with an unset condition did not throw");
	}
	else
	{
		REQUIRE(exc == r.exc, "expected " << (r.exc.empty() ? "no exception" : r.exc) << ", got " << (exc.empty() ? "none" : exc));
	}
	for (size_t i = 0; i < m.places.size(); ++i)
	{
		size_t t = e.getNumberOfTokens("p" + std::to_string(i));
		REQUIRE(t == m.places[i].tokens, "p" << i << " holds " << num(t) << " tokens, the firing rule gives " << num(m.places[i].tokens) << " after " << r.exits.size() << " firings");
	}
	size_t at = 0;
	auto seg = [&](size_t n)
	{
		vector<string> s;
		for (size_t i = 0; i < n && at < log_.size(); ++i)
		{
			s.push_back(log_[at++]);
		}
		std::sort(s.begin(), s.end());
		return s;
	};
	std::ostringstream o;
	for (auto &l : log_)
	{
		o << l << ", ";
	}
	for (size_t k = 0; k < r.exits.size(); ++k)
	{
		REQUIRE(seg(r.exits[k].size()) == r.exits[k], "actions of firing " << k + 1 << ": exit actions differ; called: " << o.str());
		REQUIRE(seg(r.enters[k].size()) == r.enters[k], "actions of firing " << k + 1 << ": enter actions differ; called: " << o.str());
	}
	REQUIRE(at == log_.size(), "more actions than firings call for: " << o.str());
}

static void fire(Rng &r, size_t)
{
	static const vector<size_t> W = { 1, 1, 1, 2, 3, 5, MAXT, MAXT - 1, MAXT / 2 + 1 };
	static const vector<size_t> T = { 0, 0, 1, 1, 2, 3, 4, 7, MAXT, MAXT - 1, MAXT - 2, MAXT / 2 + 1 };
	FNet n;
	size_t np = 1 + r.below(5);
	bool small = r.chance(60);
	for (size_t i = 0; i < np; ++i)
	{
		n.places.push_back({ small ? r.below(5) : r.pick(T), r.chance(50), r.chance(60), r.chance(60) });
	}
	auto arcs = [&](int pc, vector<FArc> &v)
	{
		for (size_t i = 0; i < np; ++i)
		{
			if (r.chance(pc))
			{
				v.push_back({ i, small ? 1 + r.below(3) : r.pick(W) });
			}
		}
		for (size_t i = v.size(); i > 1; --i)
		{
			std::swap(v[i - 1], v[r.below(i)]);
		}
	};
	arcs(45, n.A);
	arcs(50, n.D);
	arcs(r.chance(50) ? 0 : 25, n.H);
	for (size_t i = r.below(4); i > 0 && r.chance(60); --i)
	{
		n.conds.push_back(r.chance(70) ? 1 : int(r.below(4)));
	}
	if (r.chance(50))
	{
		// make it enabled
		for (auto &a : n.A)
		{
			if (n.places[a.p].tokens < a.w)
			{
				n.places[a.p].tokens = a.w + r.below(2) * (a.w < MAXT);
			}
		}
	}
	n.flag = r.chance(40);
	bool named = r.chance(50);
	FNet trial = n;
	if (model(trial).endless)
	{
		// a place that stops it after one firing
		n.places.push_back({ 0, false, false, false });
		n.D.push_back({ np, 1 });
		n.H.push_back({ np, 1 });
	}
	note(n.text());
	log_.clear();
	PTN_Engine e(Opt::SINGLE_THREAD);
	for (size_t i = 0; i < n.places.size(); ++i)
	{
		PlaceProperties p;
		p.name = "p" + std::to_string(i);
		p.initialNumberOfTokens = n.places[i].tokens;
		p.input = n.places[i].input;
		if (n.places[i].enter)
		{
			ActionFunction f = [i] { log_.push_back("enter p" + std::to_string(i)); };
			if (named)
			{
				p.onEnterActionFunctionName = "e" + std::to_string(i);
				e.registerAction(p.onEnterActionFunctionName, f);
			}
			else
			{
				p.onEnterAction = f;
			}
		}
		if (n.places[i].exit)
		{
			ActionFunction f = [i] { log_.push_back("exit p" + std::to_string(i)); };
			if (named)
			{
				p.onExitActionFunctionName = "x" + std::to_string(i);
				e.registerAction(p.onExitActionFunctionName, f);
			}
			else
			{
				p.onExitAction = f;
			}
		}
		e.createPlace(p);
	}
	TransitionProperties t;
	t.name = "t";
	t.requireNoActionsInExecution = n.flag;
	auto put = [](const vector<FArc> &v, vector<ArcProperties> &out, AT ty)
	{
		for (auto &a : v)
		{
			out.push_back(arc("p" + std::to_string(a.p), a.w, ty, "t"));
		}
	};
	put(n.A, t.activationArcs, AT::ACTIVATION);
	put(n.D, t.destinationArcs, AT::DESTINATION);
	put(n.H, t.inhibitorArcs, AT::INHIBITOR);
	for (size_t i = 0; i < n.conds.size(); ++i)
	{
		int c = n.conds[i];
		ConditionFunction f = nullptr;
		if (c < 3)
		{
			f = [c]() -> bool
			{
				if (c == 2)
				{
					throw UserError{};
				}
				return c == 1;
			};
		}
		if (named)
		{
			string nm = "c" + std::to_string(i);
			e.registerCondition(nm, f);
			t.additionalConditionsNames.push_back(nm);
		}
		else
		{
			t.additionalConditions.push_back(f);
		}
	}
	e.createTransition(t);
	for (int again = 0; again < 2; ++again)
	{
		FNet m = n;
		FRun run = model(m);
		if (run.endless)
		{
			return;
		}
		log_.clear();
		string exc = thrown([&] { e.execute(); });
		compare(e, n, m, run, exc);
		REQUIRE(!e.isEventLoopRunning(), "an event loop runs after a single-thread execute");
		auto tp = e.getTransitionsProperties();
		REQUIRE(tp.size() == 1 && tp[0].activationArcs.size() == n.A.size() && tp[0].destinationArcs.size() == n.D.size() && tp[0].inhibitorArcs.size() == n.H.size(), "firing changed the arcs");
		n = m;
		// the net is still usable: no place is left blocked
		for (size_t i = 0; i < n.places.size(); ++i)
		{
			log_.clear();
			string p = "p" + std::to_string(i);
			string x = thrown([&] { e.incrementInputPlace(p); });
			if (!n.places[i].input)
			{
				REQUIRE(x == "NotInputPlaceException" && log_.empty(), "incrementing " << p << ", no input place, gave " << x);
			}
			else if (n.places[i].tokens == MAXT)
			{
				REQUIRE(x == "OverflowException" && log_.empty(), "incrementing the full " << p << " gave " << x);
			}
			else
			{
				n.places[i].tokens++;
				REQUIRE(x == "", "incrementing " << p << " threw " << x);
				REQUIRE(log_.size() == (n.places[i].enter ? 1 : 0), "incrementing " << p << " called " << log_.size() << " actions");
				REQUIRE(!n.places[i].enter || log_[0] == "enter p" + std::to_string(i), "incrementing " << p << " called " << log_[0]);
			}
			for (size_t k = 0; k < n.places.size(); ++k)
			{
				REQUIRE(e.getNumberOfTokens("p" + std::to_string(k)) == n.places[k].tokens, "after incrementing " << p << " the tokens of p" << k << " are wrong");
			}
		}
		note(n.text() + " (second round)");
	}
}

// ------------------------------------------------------------------ structure and reports, against a model of the net
struct MPlace
{
	string name;
	size_t tokens;
	bool input;
	string en, xn;
	int ef, xf; // ids of the functions, 0: none
};
struct MTrans
{
	string name;
	vector<std::pair<string, size_t>> A, D, H;
	vector<std::pair<string, int>> conds;
	bool flag;
};
struct MNet
{
	std::map<string, MPlace> places;
	std::map<string, MTrans> trans;
	std::map<string, int> actions, conditions;
	Opt opt = Opt::JOB_QUEUE;
	long sleep = 100;
};

static std::atomic<int> called{ 0 }, calls{ 0 };

static ActionFunction action(int id)
{
	if (!id)
	{
		return nullptr;
	}
	return [id]
	{
		called = id;
		calls++;
	};
}
static ConditionFunction condition(int id)
{
	if (!id)
	{
		return nullptr;
	}
	return [id]
	{
		called = id;
		return true;
	};
}
template <class F> int which(const F &f)
{
	if (!f)
	{
		return 0;
	}
	called = -1;
	f();
	return called;
}

static void same(const PTN_Engine &e, const MNet &m)
{
	auto ps = e.getPlacesProperties();
	REQUIRE(ps.size() == m.places.size(), "the report has " << ps.size() << " places instead of " << m.places.size());
	std::set<string> seen;
	for (auto &p : ps)
	{
		auto it = m.places.find(p.name);
		REQUIRE(it != m.places.end() && seen.insert(p.name).second, "the report has an extra place '" << p.name << "'");
		auto &q = it->second;
		REQUIRE(p.initialNumberOfTokens == q.tokens, "place " << p.name << " reported with " << num(p.initialNumberOfTokens) << " tokens instead of " << num(q.tokens));
		REQUIRE(p.input == q.input, "place " << p.name << ": input flag");
		REQUIRE(p.onEnterActionFunctionName == q.en && p.onExitActionFunctionName == q.xn, "place " << p.name << ": action names '" << p.onEnterActionFunctionName << "', '" << p.onExitActionFunctionName << "'");
		REQUIRE(which(p.onEnterAction) == q.ef, "place " << p.name << ": on-enter action " << which(p.onEnterAction) << " instead of " << q.ef);
		REQUIRE(which(p.onExitAction) == q.xf, "place " << p.name << ": on-exit action " << which(p.onExitAction) << " instead of " << q.xf);
		REQUIRE(e.getNumberOfTokens(p.name) == q.tokens, "getNumberOfTokens(" << p.name << ")");
	}
	auto ts = e.getTransitionsProperties();
	REQUIRE(ts.size() == m.trans.size(), "the report has " << ts.size() << " transitions instead of " << m.trans.size());
	seen.clear();
	for (auto &t : ts)
	{
		auto it = m.trans.find(t.name);
		REQUIRE(it != m.trans.end() && seen.insert(t.name).second, "the report has an extra transition '" << t.name << "'");
		auto &q = it->second;
		auto cmp = [&](const vector<ArcProperties> &a, const vector<std::pair<string, size_t>> &b, AT ty, const char *kind)
		{
			std::ostringstream o;
			for (auto &x : a)
			{
				o << x.placeName << "*" << num(x.weight) << " ";
			}
			REQUIRE(a.size() == b.size(), "transition " << t.name << ": " << kind << " arcs are " << o.str());
			for (size_t i = 0; i < a.size(); ++i)
			{
				REQUIRE(a[i].placeName == b[i].first && a[i].weight == b[i].second && a[i].type == ty && a[i].transitionName == t.name,
						"transition " << t.name << ": " << kind << " arc " << i << " of " << o.str() << " should be " << b[i].first << "*" << num(b[i].second));
			}
		};
		cmp(t.activationArcs, q.A, AT::ACTIVATION, "activation");
		cmp(t.destinationArcs, q.D, AT::DESTINATION, "destination");
		cmp(t.inhibitorArcs, q.H, AT::INHIBITOR, "inhibitor");
		REQUIRE(t.requireNoActionsInExecution == q.flag, "transition " << t.name << ": requireNoActionsInExecution");
		REQUIRE(t.additionalConditionsNames.size() == q.conds.size() && t.additionalConditions.size() == q.conds.size(), "transition " << t.name << ": number of conditions");
		for (size_t i = 0; i < q.conds.size(); ++i)
		{
			REQUIRE(t.additionalConditionsNames[i] == q.conds[i].first, "transition " << t.name << ": condition " << i << " is named '" << t.additionalConditionsNames[i] << "'");
			REQUIRE(which(t.additionalConditions[i]) == q.conds[i].second, "transition " << t.name << ": condition " << i << " is function " << which(t.additionalConditions[i]));
		}
	}
	REQUIRE(e.getActionsThreadOption() == m.opt, "getActionsThreadOption gives " << int(e.getActionsThreadOption()));
	REQUIRE(e.getEventLoopSleepDuration().count() == m.sleep, "getEventLoopSleepDuration gives " << e.getEventLoopSleepDuration().count());
	REQUIRE(thrown([&] { e.getNumberOfTokens("nowhere"); }) == "InvalidNameException", "getNumberOfTokens of an unknown place");
	std::ostringstream o;
	e.printState(o);
	for (auto &p : m.places)
	{
		REQUIRE(o.str().find(p.first) != string::npos, "printState misses place " << p.first << ": " << o.str());
	}
}

static string expect(const string &got, const string &want, const string &what)
{
	if (want == "any")
	{
		REQUIRE(got != "", what << " was not rejected");
	}
	else
	{
		REQUIRE(got == want, what << ": expected " << (want.empty() ? "success" : want) << ", got " << (got.empty() ? "success" : got));
	}
	return want;
}

static void structure(Rng &r, size_t)
{
	called = calls = 0;
	static const vector<string> PN = { "a", "b", "c", "d", "a", "b", "c", "d", "" }, TN = { "t", "u", "v", "t", "u", "v", "w", "" }, FN = { "f", "g", "h", "f", "g", "" };
	static const vector<Opt> OP = { Opt::SINGLE_THREAD, Opt::EVENT_LOOP, Opt::DETACHED, Opt::JOB_QUEUE };
	MNet m;
	m.opt = r.pick(OP);
	PTN_Engine e(m.opt);
	string hist = "option " + std::to_string(int(m.opt)) + ": ";
	int ids = 100;
	size_t steps = 4 + r.below(28);
	for (size_t s = 0; s < steps; ++s)
	{
		size_t op = s < 6 && r.chance(50) ? r.below(3) : r.below(13);
		std::ostringstream h;
		auto say = [&]
		{
			hist += h.str() + "; ";
			note(hist);
		};
		if (op == 0 || op == 3)
		{
			MPlace p{ r.pick(PN), r.chance(10) ? MAXT - r.below(2) : r.below(5), r.chance(50), r.chance(40) ? r.pick(FN) : "", r.chance(40) ? r.pick(FN) : "", 0, 0 };
			if (r.chance(4))
			{
				p.en = "unknown";
			}
			if (r.chance(4))
			{
				p.xn = "unknown";
			}
			PlaceProperties q;
			q.name = p.name;
			q.initialNumberOfTokens = p.tokens;
			q.input = p.input;
			q.onEnterActionFunctionName = p.en;
			q.onExitActionFunctionName = p.xn;
			p.ef = r.chance(40) ? ids++ : 0;
			p.xf = r.chance(40) ? ids++ : 0;
			q.onEnterAction = action(p.ef);
			q.onExitAction = action(p.xf);
			h << "createPlace '" << p.name << "' tokens " << num(p.tokens) << " input " << p.input << " enter '" << p.en << "'/" << p.ef << " exit '" << p.xn << "'/" << p.xf;
			say();
			string want;
			auto bind = [&](const string &n, int &f)
			{
				if (n.empty())
				{
					return;
				}
				auto it = m.actions.find(n);
				if (it == m.actions.end())
				{
					want = "InvalidFunctionNameException";
					return;
				}
				f = it->second;
				if (!f && want.empty())
				{
					want = "any";
				}
			};
			bind(p.en, p.ef);
			bind(p.xn, p.xf);
			if (want.empty() && (p.name.empty() || m.places.count(p.name)))
			{
				want = "any";
			}
			if (want != "" && want != "any" && (p.name.empty() || m.places.count(p.name)))
			{
				want = "any";
			}
			expect(thrown([&] { e.createPlace(q); }), want, h.str());
			if (want.empty())
			{
				m.places[p.name] = p;
			}
		}
		else if (op == 1 || op == 4)
		{
			MTrans t;
			t.name = r.pick(TN);
			t.flag = r.chance(40);
			TransitionProperties q;
			q.name = t.name;
			q.requireNoActionsInExecution = t.flag;
			h << "createTransition '" << t.name << "'" << (t.flag ? " flag" : "");
			bool unknown = false, zero = false;
			bool rep[3];
			auto make = [&](vector<std::pair<string, size_t>> &mv, vector<ArcProperties> &qv, AT ty, int k)
			{
				vector<string> names{ "a", "b", "c", "d" };
				for (size_t i = names.size(); i > 1; --i)
				{
					std::swap(names[i - 1], names[r.below(i)]);
				}
				h << " " << k << "[";
				for (size_t n = r.below(4), i = 0; i < n; ++i)
				{
					string p = r.chance(8) ? r.pick(PN) : names[i];
					size_t w = r.chance(4) ? 0 : r.chance(5) ? MAXT : 1 + r.below(4);
					mv.push_back({ p, w });
					qv.push_back(arc(p, w, r.chance(80) ? ty : AT::INHIBITOR, r.chance(50) ? t.name : r.chance(60) ? "" : r.chance(50) ? "some other transition" : r.pick(TN)));
					unknown |= !m.places.count(p);
					zero |= w == 0;
					h << p << "*" << num(w) << " ";
				}
				h << "]";
				std::set<string> u;
				for (auto &x : mv)
				{
					u.insert(x.first);
				}
				rep[k] = u.size() != mv.size();
			};
			make(t.A, q.activationArcs, AT::ACTIVATION, 0);
			make(t.D, q.destinationArcs, AT::DESTINATION, 1);
			make(t.H, q.inhibitorArcs, AT::INHIBITOR, 2);
			bool badfn = false;
			if (r.chance(35))
			{
				for (size_t n = 1 + r.below(3), i = 0; i < n; ++i)
				{
					string f = r.chance(5) ? "unknown" : r.pick(FN);
					q.additionalConditionsNames.push_back(f);
					h << " cond '" << f << "'";
					auto it = m.conditions.find(f);
					if (it == m.conditions.end())
					{
						badfn = true;
					}
					else
					{
						t.conds.push_back({ f, it->second });
					}
				}
			}
			if (r.chance(40))
			{
				for (size_t n = 1 + r.below(3), i = 0; i < n; ++i)
				{
					int id = r.chance(90) ? ids++ : 0;
					q.additionalConditions.push_back(condition(id));
					h << " anonymous condition " << id;
					if (q.additionalConditionsNames.empty())
					{
						t.conds.push_back({ "", id });
					}
				}
			}
			say();
			string want;
			int wrong = badfn + unknown + zero + rep[0] + rep[1] + rep[2] + (t.name.empty() || m.trans.count(t.name));
			if (wrong)
			{
				want = "any";
			}
			if (wrong == 1)
			{
				want = badfn ? "InvalidFunctionNameException" : zero ? "ZeroValueWeightException" : rep[0] ? "ActivationPlaceRepetitionException" : rep[1] ? "DestinationPlaceRepetitionException" : rep[2] ? "InhibitorPlaceRepetitionException" : "any";
			}
			expect(thrown([&] { e.createTransition(q); }), want, h.str());
			if (want.empty())
			{
				m.trans[t.name] = t;
			}
		}
		else if (op == 2)
		{
			string n = r.chance(50) ? FN[r.below(3)] : r.pick(FN);
			int id = r.chance(92) ? ids++ : 0;
			bool act = r.chance(50);
			h << (act ? "registerAction '" : "registerCondition '") << n << "' function " << id;
			say();
			auto &reg = act ? m.actions : m.conditions;
			string want = n.empty() ? "InvalidFunctionNameException" : reg.count(n) ? "RepeatedFunctionException" : "";
			expect(thrown([&] { act ? e.registerAction(n, action(id)) : e.registerCondition(n, condition(id)); }), want, h.str());
			if (want.empty())
			{
				reg[n] = id;
			}
		}
		else if (op == 5 || op == 6 || op == 7 || op == 8)
		{
			bool add = op < 7;
			static const vector<AT> TY = { AT::ACTIVATION, AT::DESTINATION, AT::INHIBITOR, AT::BIDIRECTIONAL, AT(9) };
			AT ty = r.chance(97) ? TY[r.below(4)] : TY[4];
			string p = r.chance(95) ? PN[r.below(4)] : "x", t = r.chance(95) ? TN[r.below(3)] : "x";
			if (!m.trans.empty() && r.chance(70))
			{
				auto it = m.trans.begin();
				std::advance(it, r.below(m.trans.size()));
				t = it->first;
				vector<std::pair<string, size_t>> all = it->second.A;
				all.insert(all.end(), it->second.D.begin(), it->second.D.end());
				all.insert(all.end(), it->second.H.begin(), it->second.H.end());
				if (!all.empty() && !add && r.chance(70))
				{
					p = r.pick(all).first;
				}
			}
			size_t w = r.chance(6) ? 0 : r.chance(5) ? MAXT : 1 + r.below(4);
			h << (add ? "addArc " : "removeArc ") << p << " " << t << " kind " << int(ty) << " weight " << num(w);
			say();
			bool ok = m.places.count(p) && m.trans.count(t) && ty != AT(9);
			vector<vector<std::pair<string, size_t>> *> lists;
			if (ok)
			{
				auto &x = m.trans[t];
				if (ty == AT::ACTIVATION || ty == AT::BIDIRECTIONAL)
				{
					lists.push_back(&x.A);
				}
				if (ty == AT::DESTINATION || ty == AT::BIDIRECTIONAL)
				{
					lists.push_back(&x.D);
				}
				if (ty == AT::INHIBITOR)
				{
					lists.push_back(&x.H);
				}
				for (auto *l : lists)
				{
					bool in = std::any_of(l->begin(), l->end(), [&](auto &y) { return y.first == p; });
					ok = ok && (add ? !in : in);
				}
				ok = ok && (!add || w);
			}
			string want = ok ? "" : "any";
			if (add && !w && m.places.count(p) && m.trans.count(t) && ty != AT(9))
			{
				want = "any";
			}
			ArcProperties q = arc(p, w, ty, t);
			expect(thrown([&] { add ? e.addArc(q) : e.removeArc(q); }), want, h.str());
			if (want.empty())
			{
				for (auto *l : lists)
				{
					if (add)
					{
						l->push_back({ p, w });
					}
					else
					{
						l->erase(std::find_if(l->begin(), l->end(), [&](auto &y) { return y.first == p; }));
					}
				}
			}
		}
		else if (op == 9)
		{
			string p = r.chance(90) ? PN[r.below(4)] : "x";
			bool async = m.opt == Opt::DETACHED || m.opt == Opt::JOB_QUEUE;
			if (async && m.places.count(p) && m.places[p].ef)
			{
				continue;
			}
			h << "incrementInputPlace " << p;
			say();
			auto it = m.places.find(p);
			string want = it == m.places.end() ? "InvalidNameException" : !it->second.input ? "NotInputPlaceException" : it->second.tokens == MAXT ? "OverflowException" : "";
			int c0 = calls;
			expect(thrown([&] { e.incrementInputPlace(p); }), want, h.str());
			int n = 0;
			if (want.empty())
			{
				it->second.tokens++;
				n = it->second.ef ? 1 : 0;
			}
			REQUIRE(eventually([&] { return calls >= c0 + n; }), h.str() << ": its on-enter action was not called");
			if (n)
			{
				REQUIRE(called == it->second.ef, h.str() << " called action " << called << " instead of " << it->second.ef);
			}
			REQUIRE(calls == c0 + n, h.str() << ": too many action calls");
		}
		else if (op == 10)
		{
			Opt o = r.chance(95) ? r.pick(OP) : Opt(11);
			h << "setActionsThreadOption " << int(o);
			say();
			string want = o == Opt(11) ? "any" : "";
			expect(thrown([&] { e.setActionsThreadOption(o); }), want, h.str());
			if (want.empty())
			{
				m.opt = o;
			}
		}
		else if (op == 11 && r.chance(30))
		{
			h << "clearNet";
			say();
			expect(thrown([&] { e.clearNet(); }), "", h.str());
			m.places.clear();
			m.trans.clear();
		}
		else
		{
			m.sleep = long(r.below(500));
			h << "setEventLoopSleepDuration " << m.sleep;
			say();
			e.setEventLoopSleepDuration(PTN_Engine::EventLoopSleepDuration(m.sleep));
		}
		same(e, m);
		REQUIRE(!e.isEventLoopRunning(), "an event loop runs though none was started");
	}
}

// ------------------------------------------------------------------ one sweep, and running to completion
static void sweeps(Rng &r, size_t)
{
	PTN_Engine e(Opt::SINGLE_THREAD);
	size_t np = 1 + r.below(3), nt = 1 + r.below(5);
	vector<size_t> tok;
	std::ostringstream o;
	for (size_t i = 0; i < np; ++i)
	{
		PlaceProperties p;
		p.name = "p" + std::to_string(i);
		tok.push_back(p.initialNumberOfTokens = r.below(4));
		o << p.name << "=" << tok[i] << " ";
		e.createPlace(p);
	}
	struct T
	{
		vector<size_t> a, d, h;
		int attempts = 0;
	};
	auto ts = std::make_shared<vector<T>>(nt);
	bool observe = r.chance(50);
	for (size_t k = 0; k < nt; ++k)
	{
		T &t = (*ts)[k];
		TransitionProperties q;
		q.name = "t" + std::to_string(k);
		o << q.name << ":";
		for (size_t i = 0; i < np; ++i)
		{
			t.a.push_back(r.chance(50) ? 1 + r.below(2) : 0);
			t.d.push_back(r.chance(40) ? 1 + r.below(2) : 0);
			t.h.push_back(r.chance(12) ? 1 : 0);
		}
		if (!observe)
		{
			// fewer tokens with every firing
			size_t in = 0, out = 0;
			for (size_t i = 0; i < np; ++i)
			{
				in += t.a[i];
			}
			if (!in)
			{
				in = t.a[r.below(np)] = 1;
			}
			for (size_t i = 0; i < np; ++i)
			{
				if (out + t.d[i] >= in)
				{
					t.d[i] = 0;
				}
				out += t.d[i];
			}
		}
		for (size_t i = 0; i < np; ++i)
		{
			string p = "p" + std::to_string(i);
			if (t.a[i])
			{
				q.activationArcs.push_back(arc(p, t.a[i]));
			}
			if (t.d[i])
			{
				q.destinationArcs.push_back(arc(p, t.d[i]));
			}
			if (t.h[i])
			{
				q.inhibitorArcs.push_back(arc(p, 1));
			}
			o << " " << t.a[i] << "/" << t.d[i] << "/" << t.h[i];
		}
		q.requireNoActionsInExecution = r.chance(20);
		if (observe)
		{
			q.additionalConditions = { [ts, k]
									   {
										   (*ts)[k].attempts++;
										   return false;
									   } };
		}
		o << "; ";
		e.createTransition(q);
	}
	note(o.str() + (observe ? "(all conditions false: one sweep)" : ""));
	auto enabled = [&](const vector<size_t> &m, const T &t)
	{
		for (size_t i = 0; i < np; ++i)
		{
			if (m[i] < t.a[i] || (t.h[i] && m[i]))
			{
				return false;
			}
		}
		return true;
	};
	e.execute();
	vector<size_t> now;
	for (size_t i = 0; i < np; ++i)
	{
		now.push_back(e.getNumberOfTokens("p" + std::to_string(i)));
	}
	if (observe)
	{
		REQUIRE(now == tok, "tokens moved though every condition is false");
		for (size_t k = 0; k < nt; ++k)
		{
			int want = enabled(tok, (*ts)[k]);
			REQUIRE((*ts)[k].attempts == want, "t" << k << " was attempted " << (*ts)[k].attempts << " times in the sweep instead of " << want);
		}
		return;
	}
	std::ostringstream f;
	for (size_t x : now)
	{
		f << x << " ";
	}
	for (size_t k = 0; k < nt; ++k)
	{
		REQUIRE(!enabled(now, (*ts)[k]), "t" << k << " can still fire after execute(); marking " << f.str());
	}
	std::set<vector<size_t>> seen{ tok };
	vector<vector<size_t>> todo{ tok };
	while (!todo.empty())
	{
		auto m = todo.back();
		todo.pop_back();
		for (auto &t : *ts)
		{
			if (enabled(m, t))
			{
				auto n = m;
				for (size_t i = 0; i < np; ++i)
				{
					n[i] = n[i] - t.a[i] + t.d[i];
				}
				if (seen.insert(n).second)
				{
					todo.push_back(n);
				}
			}
		}
	}
	REQUIRE(seen.count(now), "marking " << f.str() << "is not reachable");
}

// An engine that is never destroyed: its detached actions may still be ending.
static PTN_Engine &lasting(Opt o)
{
	return *new PTN_Engine(o);
}

// ------------------------------------------------------------------ the event loop's life
static void io_net(PTN_Engine &e, std::atomic<int> *ran = nullptr)
{
	PlaceProperties a;
	a.name = "a";
	a.input = true;
	e.createPlace(a);
	PlaceProperties b;
	b.name = "b";
	if (ran)
	{
		b.onEnterAction = [ran] { (*ran)++; };
	}
	e.createPlace(b);
	TransitionProperties t;
	t.name = "t";
	t.activationArcs = { arc("a", 1) };
	t.destinationArcs = { arc("b", 1) };
	e.createTransition(t);
}

static void lifecycle(Rng &r, size_t)
{
	static const vector<Opt> OP = { Opt::EVENT_LOOP, Opt::DETACHED, Opt::JOB_QUEUE };
	Opt o = r.pick(OP);
	string h = "option " + std::to_string(int(o)) + ": ";
	auto ran = std::make_shared<std::atomic<int>>(0);
	PTN_Engine &e = lasting(o);
	io_net(e, ran.get());
	e.setEventLoopSleepDuration(PTN_Engine::EventLoopSleepDuration(long(r.below(3))));
	size_t given = 0;
	for (size_t k = 1 + r.below(6); k > 0; --k)
	{
		e.execute();
		h += "execute; ";
		note(h);
		REQUIRE(e.isEventLoopRunning(), "not running after execute");
		if (r.chance(50))
		{
			REQUIRE(thrown([&] { e.execute(); }) != "", "a second execute while running did not throw");
			REQUIRE(e.isEventLoopRunning(), "not running after a rejected execute");
		}
		if (r.chance(60))
		{
			auto ps = e.getPlacesProperties().size();
			auto ts = e.getTransitionsProperties();
			auto ap = arc("b", 1, AT::INHIBITOR, "t"), rp = arc("a", 1, AT::ACTIVATION, "t");
			REQUIRE(thrown([&] { e.addArc(ap); }) != "", "addArc while running did not throw");
			REQUIRE(thrown([&] { e.removeArc(rp); }) != "", "removeArc while running did not throw");
			REQUIRE(thrown([&] { e.clearNet(); }) != "", "clearNet while running did not throw");
			REQUIRE(thrown([&] { e.setActionsThreadOption(o == Opt::DETACHED ? Opt::JOB_QUEUE : Opt::DETACHED); }) != "", "setActionsThreadOption while running did not throw");
			REQUIRE(thrown([&] { e.setActionsThreadOption(o); }) != "", "setActionsThreadOption to the same option while running did not throw");
			REQUIRE(e.getActionsThreadOption() == o, "a rejected setActionsThreadOption changed the option");
			auto t2 = e.getTransitionsProperties();
			REQUIRE(e.getPlacesProperties().size() == ps && t2.size() == 1 && t2[0].activationArcs.size() == 1 && t2[0].inhibitorArcs.empty() && t2[0].destinationArcs.size() == 1, "a rejected call changed the net");
		}
		for (size_t n = r.below(5); n > 0; --n)
		{
			e.incrementInputPlace("a");
			h += "increment; ";
			given++;
		}
		note(h);
		if (r.chance(60))
		{
			REQUIRE(eventually([&] { return e.getNumberOfTokens("b") == given; }), "the running loop does not process the input: " << e.getNumberOfTokens("b") << " of " << given);
			REQUIRE(e.isEventLoopRunning(), "the loop ended without a stop request");
		}
		e.stop();
		h += "stop; ";
		note(h);
		REQUIRE(!e.isEventLoopRunning(), "running after stop");
		size_t b = e.getNumberOfTokens("b");
		e.incrementInputPlace("a");
		given++;
		if (r.chance(30))
		{
			ms(3);
		}
		REQUIRE(e.getNumberOfTokens("b") == b && e.getNumberOfTokens("a") == given - b, "a transition fired after stop");
		if (r.chance(40))
		{
			e.stop();
		}
		if (r.chance(20))
		{
			// every firing started one action; the executor that holds them is about to go
			REQUIRE(eventually([&] { return size_t(*ran) == b; }), "on-enter actions run: " << *ran << " for " << b << " tokens");
			e.setActionsThreadOption(Opt::SINGLE_THREAD);
			e.execute();
			REQUIRE(!e.isEventLoopRunning(), "running after a single-thread execute");
			REQUIRE(e.getNumberOfTokens("b") == given, "a single-thread execute left work");
			o = r.pick(OP);
			e.setActionsThreadOption(o);
		}
		sh->beat++;
	}
	// every firing started one action; let them end before anything is destroyed
	size_t fired = e.getNumberOfTokens("b");
	REQUIRE(eventually([&] { return size_t(*ran) == fired; }), "on-enter actions run: " << *ran << " for " << fired << " tokens");
	if (o == Opt::EVENT_LOOP && r.chance(50))
	{
		e.stop();
		e.clearNet();
		REQUIRE(e.getPlacesProperties().empty() && e.getTransitionsProperties().empty(), "clearNet left something");
		io_net(e);
		e.incrementInputPlace("a");
		e.execute();
		REQUIRE(eventually([&] { return e.getNumberOfTokens("b") == 1; }), "a net built after clearNet does not work");
	}
	e.stop();
	static vector<std::shared_ptr<std::atomic<int>>> keep;
	keep.push_back(ran);
}

// No input is missed by a loop that sleeps for long.
static void wake(Rng &r, size_t)
{
	PTN_Engine e(Opt::EVENT_LOOP);
	io_net(e);
	e.setEventLoopSleepDuration(PTN_Engine::EventLoopSleepDuration(20000));
	note("sleep duration 20 s; increments from outside must be taken up at once");
	if (r.below(2))
	{
		// inputs that arrive in the middle of a sweep
		auto turn = std::make_shared<std::atomic<int>>(0);
		auto inside = std::make_shared<std::atomic<bool>>(false);
		for (const char *n : { "always", "never" })
		{
			PlaceProperties p;
			p.name = n;
			p.initialNumberOfTokens = p.name == "always";
			e.createPlace(p);
		}
		TransitionProperties t;
		t.name = "asks";
		t.activationArcs = { ArcProperties(1, "always") };
		t.destinationArcs = { ArcProperties(1, "never") };
		t.additionalConditions = { [turn, inside]
								   {
									   if (*turn > 0 && --*turn == 0)
									   {
										   *inside = true;
										   for (int i = 0; i < 4000 && *inside; ++i)
										   {
											   std::this_thread::sleep_for(std::chrono::milliseconds(1));
										   }
									   }
									   return false;
								   } };
		e.createTransition(t);
		note("a transition whose condition is false, and waits in the middle of a sweep until a second increment was made");
		e.execute();
		for (size_t k = 2; k <= 40; k += 2)
		{
			*turn = 1 + int(r.below(2));
			e.incrementInputPlace("a");
			REQUIRE(eventually([&] { return inside->load(); }, 4000), "the sweep after increment " << k - 1 << " did not take place within 4 s");
			e.incrementInputPlace("a");
			*inside = false;
			REQUIRE(eventually([&] { return e.getNumberOfTokens("b") == k; }, 4000), "increment " << k << ", made during a sweep, was not taken up within 4 s");
			sh->beat++;
		}
		e.stop();
		return;
	}
	e.execute();
	for (size_t k = 1; k <= 300; ++k)
	{
		for (volatile size_t spin = r.below(3000); spin > 0; spin = spin - 1)
		{
		}
		e.incrementInputPlace("a");
		REQUIRE(eventually([&] { return e.getNumberOfTokens("b") == k; }, 4000), "increment " << k << " was not taken up within 4 s");
		sh->beat++;
	}
	e.stop();
}

// The turns of the loop: cascades end while it would sleep for long, conditions that change without an input are seen, and a net
// that never rests can be stopped.
static void turns(Rng &r, size_t round)
{
	PTN_Engine &e = lasting(r.chance(50) ? Opt::EVENT_LOOP : r.chance(50) ? Opt::DETACHED : Opt::JOB_QUEUE);
	auto place = [&](const string &n, size_t tokens, bool input = false)
	{
		PlaceProperties p;
		p.name = n;
		p.initialNumberOfTokens = tokens;
		p.input = input;
		e.createPlace(p);
	};
	auto tr = [&](const string &a, const string &b, ConditionFunction f = nullptr)
	{
		TransitionProperties t;
		t.name = a + "-" + b;
		t.activationArcs = { ArcProperties(1, a) };
		t.destinationArcs = { ArcProperties(1, b) };
		if (f)
		{
			t.additionalConditions = { f };
		}
		e.createTransition(t);
	};
	std::ostringstream h;
	const size_t kind = round % 3;
	if (kind == 0)
	{
		const size_t n = 2 + r.below(12), k = 1 + r.below(3);
		const bool input = r.chance(50);
		for (size_t i = 0; i <= n; ++i)
		{
			place("p" + std::to_string(i), i == 0 && !input ? k : 0, i == 0);
		}
		for (size_t i = 0; i < n; ++i)
		{
			tr("p" + std::to_string(i), "p" + std::to_string(i + 1));
		}
		e.setEventLoopSleepDuration(PTN_Engine::EventLoopSleepDuration(20000));
		h << "sleep duration 20 s, a chain of " << n << " transitions, " << k << " tokens " << (input ? "by incrementInputPlace" : "at the start");
		note(h.str());
		e.execute();
		for (size_t i = 0; input && i < k; ++i)
		{
			e.incrementInputPlace("p0");
		}
		REQUIRE(eventually([&] { return e.getNumberOfTokens("p" + std::to_string(n)) == k; }, 6000), "the running loop did not finish the cascade within 6 s");
		// stop waits for a loop that sleeps: let it sleep shortly first
		e.setEventLoopSleepDuration(PTN_Engine::EventLoopSleepDuration(1));
		e.incrementInputPlace("p0");
		REQUIRE(eventually([&] { return e.getNumberOfTokens("p" + std::to_string(n)) == k + 1; }, 6000), "the running loop did not take up an input within 6 s");
		e.stop();
		return;
	}
	if (kind == 1)
	{
		auto on = std::make_shared<std::atomic<bool>>(false);
		place("a", 1);
		place("b", 0);
		tr("a", "b", [on] { return on->load(); });
		e.setEventLoopSleepDuration(PTN_Engine::EventLoopSleepDuration(long(1 + r.below(20))));
		note("a condition that turns true while the loop runs, without an input; sleep duration below 20 ms");
		e.execute();
		ms(int(r.below(30)));
		*on = true;
		REQUIRE(eventually([&] { return e.getNumberOfTokens("b") == 1; }), "the running loop did not fire an enabled transition within 5 s");
		e.stop();
		return;
	}
	place("a", 1 + r.below(2));
	place("b", 0);
	auto asked = std::make_shared<std::atomic<size_t>>(0);
	tr("a", "b", [asked] { ++*asked; return true; });
	tr("b", "a");
	const bool rests = r.chance(60);
	e.setEventLoopSleepDuration(PTN_Engine::EventLoopSleepDuration(rests ? long(r.below(5)) : 60000));
	note(string("two transitions that move tokens round and round; stop while they do; sleep duration ") + (rests ? "below 5 ms" : "60 s, long enough for 1500 turns"));
	e.execute();
	ms(int(r.below(10)));
	REQUIRE(rests || eventually([&] { return *asked > 1500; }, 10000), "the running loop rests although transitions are enabled");
	static std::atomic<bool> done;
	done = false;
	std::thread &stopper = *new std::thread([&e] { e.stop(); done = true; });
	REQUIRE(eventually([&] { return done.load(); }, 8000), "stop did not return within 8 s while transitions kept firing");
	stopper.join();
	delete &stopper;
	REQUIRE(!e.isEventLoopRunning(), "running after stop");
	const size_t a = e.getNumberOfTokens("a");
	ms(int(r.below(4)));
	REQUIRE(e.getNumberOfTokens("a") == a, "a transition fired after stop");
}

// ------------------------------------------------------------------ threads of actions
static void options(Rng &r, size_t)
{
	static const vector<Opt> OP = { Opt::SINGLE_THREAD, Opt::EVENT_LOOP, Opt::DETACHED, Opt::JOB_QUEUE };
	struct Rec
	{
		std::mutex m;
		std::condition_variable cv;
		vector<std::pair<int, std::thread::id>> log;
		int inside = 0, most = 0, want = 0;
		bool wait = false;
	};
	static vector<std::shared_ptr<Rec>> keep;
	auto rec = std::make_shared<Rec>();
	keep.push_back(rec);
	Opt o = r.pick(OP);
	string h = "option " + std::to_string(int(o)) + "; ";
	PTN_Engine &e = lasting(o);
	int n = 0;
	auto add = [&]
	{
		int id = n++;
		PlaceProperties p;
		p.name = "p" + std::to_string(id);
		p.input = true;
		p.onEnterAction = [rec, id]
		{
			std::unique_lock g(rec->m);
			rec->inside++;
			rec->most = std::max(rec->most, rec->inside);
			rec->log.push_back({ id, std::this_thread::get_id() });
			rec->cv.notify_all();
			if (rec->wait)
			{
				rec->cv.wait_for(g, std::chrono::seconds(5), [&] { return rec->inside >= 2 || rec->most >= 2; });
			}
			rec->inside--;
		};
		e.createPlace(p);
		h += "createPlace p" + std::to_string(id) + "; ";
	};
	add();
	for (size_t k = 2 + r.below(6); k > 0; --k)
	{
		if (r.chance(60))
		{
			o = r.pick(OP);
			e.setActionsThreadOption(o);
			h += "setActionsThreadOption " + std::to_string(int(o)) + "; ";
		}
		if (r.chance(50))
		{
			add();
		}
		note(h);
		size_t cnt = o == Opt::DETACHED && n > 1 ? 2 : 1 + r.below(6);
		{
			std::unique_lock g(rec->m);
			rec->log.clear();
			rec->inside = rec->most = 0;
			rec->wait = o == Opt::DETACHED && n > 1 && cnt >= 2;
		}
		vector<int> order;
		for (size_t i = 0; i < cnt; ++i)
		{
			int id = rec->wait ? int(i) : int(r.below(n));
			order.push_back(id);
			e.incrementInputPlace("p" + std::to_string(id));
			if (o == Opt::SINGLE_THREAD || o == Opt::EVENT_LOOP)
			{
				std::unique_lock g(rec->m);
				REQUIRE(rec->log.size() == i + 1 && rec->log[i] == std::make_pair(id, std::this_thread::get_id()), "the action of p" << id << " did not run in the calling thread before the call returned");
			}
		}
		REQUIRE(eventually(
				[&]
				{
					std::unique_lock g(rec->m);
					return rec->log.size() >= cnt && rec->inside == 0;
				},
				8000),
				"not all actions ran");
		std::unique_lock g(rec->m);
		REQUIRE(rec->log.size() == cnt, "too many actions ran");
		std::set<std::thread::id> th;
		vector<int> got;
		for (auto &x : rec->log)
		{
			got.push_back(x.first);
			th.insert(x.second);
		}
		if (o == Opt::JOB_QUEUE)
		{
			REQUIRE(got == order, "the job queue ran the actions out of order");
			REQUIRE(rec->most == 1, "two actions of the job queue overlapped");
		}
		if (o == Opt::JOB_QUEUE || o == Opt::DETACHED)
		{
			REQUIRE(!th.count(std::this_thread::get_id()), "an action ran in the calling thread");
		}
		if (rec->wait)
		{
			REQUIRE(rec->most >= 2, "detached actions of two places did not run side by side");
		}
	}
	ms(20);
}

// ------------------------------------------------------------------ blocked places (event loop, actions in the calling thread)
static void gate(Rng &r, size_t)
{
	struct S
	{
		PTN_Engine *e;
		std::atomic<int> entered{ 0 }, seen{ -1 }, mode{ 0 };
		std::thread t;
	};
	auto s = std::make_shared<S>();
	PTN_Engine e(Opt::SINGLE_THREAD);
	size_t others = r.below(3);
	int mode = int(r.below(3)); // the condition gives true, false, throws
	note("transition with requireNoActionsInExecution over a and " + std::to_string(others) + " other places; a token enters a during the evaluation of its condition, which then " + (mode == 0 ? "is true" : mode == 1 ? "is false" : "throws"));
	for (size_t i = 0; i <= others; ++i)
	{
		PlaceProperties p;
		p.name = i ? "o" + std::to_string(i) : "a";
		p.initialNumberOfTokens = 1;
		p.input = true;
		p.onEnterAction = [s] { s->entered++; };
		e.createPlace(p);
	}
	PlaceProperties b;
	b.name = "b";
	e.createPlace(b);
	TransitionProperties t;
	t.name = "t";
	t.requireNoActionsInExecution = true;
	t.activationArcs = { arc("a", 1) };
	for (size_t i = 1; i <= others; ++i)
	{
		t.activationArcs.push_back(arc("o" + std::to_string(i), 1));
		if (r.chance(50))
		{
			std::swap(t.activationArcs.front(), t.activationArcs.back());
		}
	}
	t.destinationArcs = { arc("b", 1) };
	t.additionalConditions = { [mode]() -> bool
							   {
								   if (mode == 2)
								   {
									   throw UserError{};
								   }
								   return mode == 0;
							   } };
	e.createTransition(t);
	string x = thrown([&] { e.execute(); });
	REQUIRE(x == (mode == 2 ? "UserError" : ""), "execute gave " << x);
	REQUIRE(e.getNumberOfTokens("b") == (mode == 0 ? 1 : 0), "firing result");
	for (size_t i = 0; i <= others; ++i)
	{
		int c = s->entered;
		e.incrementInputPlace(i ? "o" + std::to_string(i) : "a");
		REQUIRE(s->entered == c + 1, "the on-enter action after the firing");
	}
}

// ------------------------------------------------------------------ many threads
static void stress(Rng &r, size_t)
{
	static const vector<Opt> OP = { Opt::EVENT_LOOP, Opt::DETACHED, Opt::JOB_QUEUE, Opt::SINGLE_THREAD };
	Opt o = r.pick(OP);
	note("option " + std::to_string(int(o)) + ": eight threads call every public function at once");
	auto ran = std::make_shared<std::atomic<int>>(0);
	static vector<std::shared_ptr<std::atomic<int>>> keep;
	keep.push_back(ran);
	PTN_Engine &e = lasting(o);
	io_net(e, ran.get());
	TransitionProperties back;
	back.name = "back";
	back.requireNoActionsInExecution = true;
	back.activationArcs = { arc("b", 1) };
	back.destinationArcs = { arc("c", 1) };
	PlaceProperties c;
	c.name = "c";
	c.onExitAction = [ran] { (*ran)++; };
	e.createPlace(c);
	e.createTransition(back);
	e.setEventLoopSleepDuration(PTN_Engine::EventLoopSleepDuration(1));
	std::atomic<bool> go{ true };
	std::atomic<size_t> added{ 0 };
	vector<std::thread> th;
	uint64_t seed = r.next();
	for (int k = 0; k < 8; ++k)
	{
		th.emplace_back(
		[&, k]
		{
			Rng q(seed + uint64_t(k));
			int made = 0;
			while (go)
			{
				std::ostringstream sink;
				switch (q.below(16))
				{
				case 0:
				case 1:
				case 2:
					e.incrementInputPlace("a");
					added++;
					break;
				case 3:
					e.getPlacesProperties();
					break;
				case 4:
					e.getTransitionsProperties();
					break;
				case 5:
					e.getNumberOfTokens("b");
					break;
				case 6:
					thrown([&] { e.addArc(arc("c", 1, AT::INHIBITOR, "t")); });
					break;
				case 7:
					thrown([&] { e.removeArc(arc("c", 1, AT::INHIBITOR, "t")); });
					break;
				case 8:
					thrown([&] { e.execute(); });
					break;
				case 9:
					e.stop();
					break;
				case 10:
					e.isEventLoopRunning();
					break;
				case 11:
					e.setEventLoopSleepDuration(e.getEventLoopSleepDuration());
					break;
				case 12:
					e.printState(sink);
					break;
				case 13:
					thrown([&] { e.setActionsThreadOption(OP[q.below(4)]); });
					e.getActionsThreadOption();
					break;
				case 14:
					thrown([&] { e.registerAction("r" + std::to_string(q.below(50)), [] {}); });
					thrown([&] { e.registerCondition("r" + std::to_string(q.below(50)), [] { return true; }); });
					break;
				case 15:
					if (made++ < 5)
					{
						PlaceProperties p;
						p.name = "n" + std::to_string(k) + "_" + std::to_string(made);
						p.input = true;
						e.createPlace(p);
						TransitionProperties t;
						t.name = p.name;
						t.activationArcs = { arc(p.name, 1) };
						e.createTransition(t);
					}
					break;
				}
				sh->beat++;
			}
		});
	}
	ms(150);
	go = false;
	for (auto &t : th)
	{
		t.join();
	}
	e.stop();
	size_t sum = e.getNumberOfTokens("a") + e.getNumberOfTokens("b") + e.getNumberOfTokens("c");
	REQUIRE(sum == added, "tokens were lost or made: " << sum << " of " << added);
	// let the actions in flight end before the net goes
	e.setActionsThreadOption(Opt::SINGLE_THREAD);
	int last = -1;
	while (last != *ran)
	{
		last = *ran;
		ms(10);
		sh->beat++;
	}
}

// an option set while an action of a place is still running in its thread
static void inflight(Rng &r, size_t)
{
	static std::atomic<int> started, ended, go;
	static std::thread::id caller;
	static std::atomic<int> wrong;
	started = ended = go = wrong = 0;
	static const vector<Opt> NEXT = { Opt::SINGLE_THREAD, Opt::EVENT_LOOP, Opt::JOB_QUEUE };
	Opt next = r.pick(NEXT);
	bool inl = next != Opt::JOB_QUEUE;
	note(string("an on-enter action runs detached while the option is set to ") + (next == Opt::SINGLE_THREAD ? "SINGLE_THREAD" : next == Opt::EVENT_LOOP ? "EVENT_LOOP" : "JOB_QUEUE") + "; then a token enters the place again");
	PTN_Engine &e = *new PTN_Engine(Opt::DETACHED);
	caller = std::this_thread::get_id();
	PlaceProperties p;
	p.name = "p";
	p.input = true;
	p.onEnterAction = [inl]
	{
		if (started++ == 0)
		{
			while (!go)
			{
				std::this_thread::sleep_for(std::chrono::microseconds(50));
			}
		}
		else if ((std::this_thread::get_id() == caller) != inl)
		{
			wrong++;
		}
		ended++;
	};
	e.createPlace(p);
	p.name = "other";
	p.onEnterAction = nullptr;
	e.createPlace(p);
	e.incrementInputPlace("p");
	REQUIRE(eventually([&] { return started == 1; }), "the action was not started");
	string x = thrown([&] { e.setActionsThreadOption(next); });
	REQUIRE(x.empty(), "setting the option throws " << x);
	x = thrown([&] { e.incrementInputPlace("p"); });
	REQUIRE(x.empty(), "incrementInputPlace throws " << x);
	REQUIRE(eventually([&] { return started == 2; }), "the second action was not started");
	REQUIRE(!inl || ended == 1, "the second action did not run in the calling thread");
	go = 1;
	REQUIRE(eventually([&] { return ended == 2; }), "the actions did not end");
	REQUIRE(wrong == 0, "the action ran in a thread that does not belong to the option");
	// the engine is kept: its actions may still be returning
}

int main(int argc, char **argv)
{
	string name = argv[1];
	std::map<string, Scenario> all{ { "fire", fire }, { "structure", structure }, { "sweeps", sweeps }, { "lifecycle", lifecycle }, { "wake", wake }, { "turns", turns }, { "options", options }, { "gate", gate }, { "stress", stress }, { "inflight", inflight } };
	return drive(name, all.at(name), strtoull(argv[2], nullptr, 10), atof(argv[3]), 25);
}
