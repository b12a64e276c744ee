// Searches on the job queue and the executors.
#include "PTN_Engine/Executor/ActionsExecutorFactory.h"
#include "PTN_Engine/JobQueue/JobQueue.h"
#include "PTN_Engine/PTN_Exception.h"
#include "common.h"

using namespace ptne;
using Opt = PTN_Engine::ACTIONS_THREAD_OPTION;

// ------------------------------------------------------------------ order, once, one at a time
static void queue(Rng &r, size_t)
{
	int producers = 1 + int(r.below(3)), each = 1 + int(r.below(30));
	std::ostringstream o;
	o << producers << " threads add " << each << " jobs each";
	std::mutex m;
	vector<std::pair<int, int>> ran;
	std::atomic<int> inside = 0, over = 0, total = 0;
	bool nested = r.chance(40), pauses = r.chance(50);
	o << (nested ? ", the first job of each adds another one" : "") << (pauses ? ", with pauses" : "");
	note(o.str());
	JobQueue q;
	vector<std::thread> th;
	int expect = producers * each + (nested ? producers : 0);
	for (int p = 0; p < producers; ++p)
	{
		uint64_t seed = r.next();
		th.emplace_back(
		[&, p, seed]
		{
			Rng rr(seed);
			for (int i = 0; i < each; ++i)
			{
				bool first = i == 0, slow = rr.chance(10);
				q.addJob(
				[&, p, i, first, slow]
				{
					if (++inside > 1)
					{
						over++;
					}
					{
						std::lock_guard l(m);
						ran.push_back({ p, i });
					}
					if (first && nested)
					{
						q.addJob([&] { total++; });
					}
					if (slow)
					{
						std::this_thread::sleep_for(std::chrono::microseconds(300));
					}
					--inside;
					total++;
				});
				if (pauses && rr.chance(30))
				{
					std::this_thread::sleep_for(std::chrono::microseconds(rr.below(800)));
				}
			}
		});
	}
	for (auto &t : th)
	{
		t.join();
	}
	bool all = eventually([&] { return total == expect; }, 10000);
	REQUIRE(all, "only " << total << " of " << expect << " jobs were run");
	ms(1);
	REQUIRE(total == expect, total << " jobs run instead of " << expect);
	REQUIRE(over == 0, "two jobs ran at the same time");
	std::map<int, int> next;
	for (auto &x : ran)
	{
		REQUIRE(next[x.first] == x.second, "job " << x.second << " of thread " << x.first << " ran when job " << next[x.first] << " was due");
		next[x.first]++;
	}
	if (producers == 1 && !nested)
	{
		REQUIRE(int(ran.size()) == each, "a job was dropped or repeated");
	}
	q.deactivate();
}

// a job added just when the worker finds the queue empty
static void handoff(Rng &r, size_t)
{
	note("each job is added shortly after the last one was run");
	JobQueue q;
	std::atomic<int> ran = 0;
	for (int i = 0; i < 500; ++i)
	{
		q.addJob([&] { ran++; });
		auto end = std::chrono::steady_clock::now() + std::chrono::seconds(5);
		while (ran != i + 1)
		{
			REQUIRE(std::chrono::steady_clock::now() < end, "job " << i << " is not run");
		}
		for (volatile size_t k = r.below(200); k > 0; k = k - 1)
			;
	}
	q.deactivate();
}

// ------------------------------------------------------------------ stopping and taking up again
static void stopping(Rng &r, size_t)
{
	std::ostringstream o;
	std::mutex m;
	vector<int> ran;
	std::atomic<int> inside = 0, over = 0;
	int added = 0;
	JobQueue q;
	REQUIRE(q.isActive(), "a new job queue is not active");
	bool active = true;
	auto add = [&]
	{
		int i = added++;
		bool slow = r.chance(30);
		q.addJob(
		[&, i, slow]
		{
			if (++inside > 1)
			{
				over++;
			}
			if (slow)
			{
				std::this_thread::sleep_for(std::chrono::microseconds(700));
			}
			std::lock_guard l(m);
			ran.push_back(i);
			--inside;
		});
	};
	auto count = [&]
	{
		std::lock_guard l(m);
		return int(ran.size());
	};
	for (int k = 0; k < 12; ++k)
	{
		switch (r.below(4))
		{
		case 0:
		case 1:
			for (size_t i = 1 + r.below(6); i > 0; --i)
			{
				add();
				o << " add";
			}
			break;
		case 2:
			o << " deactivate";
			note(o.str());
			q.deactivate();
			active = false;
			{
				REQUIRE(inside == 0, "deactivate returned while a job was running");
				int c = count();
				std::this_thread::sleep_for(std::chrono::microseconds(500));
				REQUIRE(count() == c && inside == 0, "a job was started after deactivate returned");
			}
			break;
		default:
			o << " activate";
			note(o.str());
			q.activate();
			active = true;
		}
		note(o.str());
		REQUIRE(q.isActive() == active, "isActive() is " << q.isActive());
		if (!active)
		{
			int c = count();
			std::this_thread::sleep_for(std::chrono::microseconds(500));
			REQUIRE(count() == c && inside == 0, "a job was run while the queue is inactive");
		}
		else if (r.chance(30))
		{
			o << " drain";
			REQUIRE(eventually([&] { return count() == added; }, 10000), "only " << count() << " of " << added << " jobs were run by the active queue");
		}
	}
	o << " activate";
	note(o.str());
	q.activate();
	REQUIRE(eventually([&] { return count() == added; }, 10000), "only " << count() << " of " << added << " jobs were run after activation");
	REQUIRE(over == 0, "two jobs ran at the same time");
	for (int i = 0; i < added; ++i)
	{
		REQUIRE(ran[size_t(i)] == i, "job " << ran[size_t(i)] << " ran when job " << i << " was due");
	}
	q.deactivate();
	REQUIRE(!q.isActive(), "the queue is active after deactivate");
}

// jobs added by other threads while the queue is stopped
static void addstop(Rng &r, size_t)
{
	JobQueue q;
	std::atomic<int> ran = 0, added = 0, inside = 0;
	std::atomic<bool> end = false;
	note("one thread adds jobs while another deactivates and activates the queue");
	std::thread t(
	[&]
	{
		while (!end)
		{
			q.addJob(
			[&]
			{
				++inside;
				ran++;
				--inside;
			});
			if (++added > 3000)
			{
				break;
			}
		}
	});
	string bad;
	for (int k = 0; k < 20; ++k)
	{
		std::this_thread::sleep_for(std::chrono::microseconds(r.below(600)));
		q.deactivate();
		int c = ran;
		if (inside != 0)
		{
			bad = "a job was running after deactivate returned";
		}
		std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
		if (ran != c)
		{
			bad = "a job was run while the queue was inactive";
		}
		q.activate();
	}
	end = true;
	t.join();
	q.deactivate();
	q.activate();
	REQUIRE(bad.empty(), bad);
	REQUIRE(eventually([&] { return ran == added; }, 10000), ran << " of " << added << " jobs were run");
	q.deactivate();
}

// ------------------------------------------------------------------ executors
static void executors(Rng &r, size_t)
{
	static const vector<std::pair<Opt, string>> all = { { Opt::SINGLE_THREAD, "SINGLE_THREAD" }, { Opt::EVENT_LOOP, "EVENT_LOOP" }, { Opt::DETACHED, "DETACHED" }, { Opt::JOB_QUEUE, "JOB_QUEUE" } };
	auto [opt, name] = r.pick(all);
	note("executor of " + name);
	for (int bad : { -1, 4, 5, 100 })
	{
		if (bad == int(Opt::SINGLE_THREAD) || bad == int(Opt::EVENT_LOOP) || bad == int(Opt::DETACHED) || bad == int(Opt::JOB_QUEUE))
		{
			continue;
		}
		REQUIRE(!thrown([&] { ActionsExecutorFactory::createExecutor(Opt(bad)); }).empty(), "the option value " << bad << " is accepted");
	}
	auto e = ActionsExecutorFactory::createExecutor(opt);
	bool inline_ = opt == Opt::SINGLE_THREAD || opt == Opt::EVENT_LOOP;
	int n = 1 + int(r.below(4));
	static std::atomic<size_t> counter; // outlives a late worker
	counter = 0;
	static std::mutex m;
	static vector<int> order;
	static std::set<std::thread::id> ids;
	static std::atomic<int> ran, lowCounter, inside, most, gate;
	order.clear();
	ids.clear();
	ran = lowCounter = inside = most = 0;
	gate = 0;
	static vector<ActionFunction> keep;
	keep.clear();
	for (int i = 0; i < n; ++i)
	{
		keep.push_back(
		[i, inline_]
		{
			int c = ++inside;
			int h = most;
			while (c > h && !most.compare_exchange_weak(h, c))
			{
			}
			if (counter == 0)
			{
				lowCounter++;
			}
			{
				std::lock_guard l(m);
				order.push_back(i);
				ids.insert(std::this_thread::get_id());
			}
			while (!inline_ && gate == 0)
			{
				std::this_thread::sleep_for(std::chrono::microseconds(50));
			}
			if (counter == 0)
			{
				lowCounter++;
			}
			--inside;
			ran++;
		});
	}
	for (int i = 0; i < n; ++i)
	{
		e->executeAction(keep[size_t(i)], counter);
		if (inline_)
		{
			REQUIRE(ran == i + 1, name << ": the action had not run when executeAction returned");
			REQUIRE(counter == 0, name << ": the counter is " << counter << " after the action returned");
		}
		else
		{
			REQUIRE(counter == size_t(i + 1), name << ": the counter is " << counter << " with " << i + 1 << " actions handed over and not finished");
		}
	}
	if (opt == Opt::DETACHED)
	{
		REQUIRE(eventually([&] { return inside == n; }), name << ": only " << inside << " of " << n << " actions run at the same time");
	}
	if (opt == Opt::JOB_QUEUE)
	{
		REQUIRE(eventually([&] { return inside >= 1; }), name << ": no action is started");
		std::this_thread::sleep_for(std::chrono::microseconds(500));
		REQUIRE(most == 1, name << ": " << most << " actions run at the same time");
	}
	gate = 1;
	REQUIRE(eventually([&] { return ran == n && counter == 0; }), name << ": " << ran << " of " << n << " actions ran, counter " << counter);
	REQUIRE(lowCounter == 0, name << ": the counter was 0 while an action ran");
	std::lock_guard l(m);
	REQUIRE(int(order.size()) == n, name << ": an action ran twice");
	for (int i = 0; i < n && opt != Opt::DETACHED; ++i)
	{
		REQUIRE(order[size_t(i)] == i, name << ": the actions ran out of order");
	}
	bool here = ids.count(std::this_thread::get_id());
	REQUIRE(here == inline_, name << ": an action ran in the wrong thread");
	if (opt == Opt::DETACHED)
	{
		REQUIRE(int(ids.size()) == n, name << ": " << ids.size() << " threads for " << n << " actions");
	}
}

int main(int argc, char **argv)
{
	string name = argv[1];
	std::map<string, Scenario> all{ { "queue", queue }, { "handoff", handoff }, { "stopping", stopping }, { "addstop", addstop }, { "executors", executors } };
	return drive(name, all.at(name), strtoull(argv[2], nullptr, 10), atof(argv[3]), 25);
}
