// Common parts of the programs that look for a failing input in the real code.
#pragma once
#include <atomic>
#include <chrono>
#include <climits>
#include <condition_variable>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <typeinfo>
#include <unistd.h>
#include <vector>

using std::size_t;
using std::string;
using std::vector;
constexpr size_t MAXT = SIZE_MAX;

struct Bad
{
	string what;
};

struct Shared
{
	std::atomic<long> beat;
	char note[60000];
	char bad[8000];
};
inline Shared *sh = nullptr;

inline void note(const string &s)
{
	strncpy(sh->note, s.c_str(), sizeof(sh->note) - 1);
	sh->beat++;
}

#define REQUIRE(c, w)              \
	do                             \
	{                              \
		if (!(c))                  \
		{                          \
			std::ostringstream o_; \
			o_ << w;               \
			throw Bad{ o_.str() }; \
		}                          \
	} while (0)

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed)
	: s(seed * 0x9E3779B97F4A7C15ull + 0x1234567)
	{
	}
	uint64_t next()
	{
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	size_t below(size_t n)
	{
		return n ? next() % n : 0;
	}
	bool chance(int percent)
	{
		return below(100) < size_t(percent);
	}
	template <class T> const T &pick(const vector<T> &v)
	{
		return v[below(v.size())];
	}
};

inline string demangled(const std::type_info &t)
{
	int st;
	char *p = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st);
	string s = p ? p : t.name();
	free(p);
	auto i = s.rfind("::");
	return i == string::npos ? s : s.substr(i + 2);
}

struct UserError
{
};

// "" or the name of the exception thrown.
template <class F> string thrown(F f)
{
	try
	{
		f();
	}
	catch (const Bad &)
	{
		throw;
	}
	catch (const UserError &)
	{
		return "UserError";
	}
	catch (const std::exception &e)
	{
		return demangled(typeid(e));
	}
	catch (...)
	{
		return "unknown";
	}
	return "";
}

template <class F> bool eventually(F f, int ms = 5000)
{
	auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
	while (std::chrono::steady_clock::now() < end)
	{
		if (f())
		{
			return true;
		}
		std::this_thread::sleep_for(std::chrono::microseconds(200));
	}
	return f();
}

inline void ms(int n)
{
	std::this_thread::sleep_for(std::chrono::milliseconds(n));
}

using Scenario = std::function<void(Rng &, size_t round)>;

// Runs a scenario again and again in a child process; reports a failed requirement, a crash, or no progress.
inline int drive(const string &name, const Scenario &f, uint64_t seed, double seconds, int stuckSeconds, long rounds = LONG_MAX)
{
	sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	pid_t pid = fork();
	if (pid == 0)
	{
		auto end = std::chrono::steady_clock::now() + std::chrono::duration<double>(seconds);
		for (size_t i = 0; long(i) < rounds && (i == 0 || std::chrono::steady_clock::now() < end); ++i)
		{
			Rng r(seed * 1000003 + i);
			try
			{
				f(r, i);
				sh->beat++;
			}
			catch (const Bad &b)
			{
				snprintf(sh->bad, sizeof sh->bad, "%s", b.what.c_str());
				_exit(9);
			}
			catch (const std::exception &e)
			{
				snprintf(sh->bad, sizeof sh->bad, "unexpected exception %s: %s", demangled(typeid(e)).c_str(), e.what());
				_exit(9);
			}
		}
		_exit(0);
	}
	long last = -1;
	auto t = std::chrono::steady_clock::now();
	for (;;)
	{
		int st;
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid)
		{
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
			{
				printf("OK %s, %ld steps\n", name.c_str(), sh->beat.load());
				return 0;
			}
			if (WIFEXITED(st) && WEXITSTATUS(st) == 9)
			{
				printf("FAIL %s (seed %lu): %s\ninput: %s\n", name.c_str(), (unsigned long)seed, sh->bad, sh->note);
			}
			else if (WIFEXITED(st))
			{
				printf("FAIL %s (seed %lu): the program ended with code %d (sanitizer report or exit)\ninput: %s\n", name.c_str(), (unsigned long)seed, WEXITSTATUS(st), sh->note);
			}
			else
			{
				printf("FAIL %s (seed %lu): the program was ended by signal %d\ninput: %s\n", name.c_str(), (unsigned long)seed, WTERMSIG(st), sh->note);
			}
			return 3;
		}
		long b = sh->beat.load();
		auto now = std::chrono::steady_clock::now();
		if (b != last)
		{
			last = b;
			t = now;
		}
		else if (now - t > std::chrono::seconds(stuckSeconds))
		{
			kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			printf("FAIL %s (seed %lu): a call does not return (%d s without progress)\ninput: %s\n", name.c_str(), (unsigned long)seed, stuckSeconds, sh->note);
			return 3;
		}
		usleep(20000);
	}
}
