#include "mc.h"
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>
namespace mc
{
static std::vector<std::pair<std::string, std::function<void()> > >& registry()
{
	static std::vector<std::pair<std::string, std::function<void()> > > r;
	return r;
}
Registrar::Registrar(const char* name, std::function<void()> f)
{
	registry().push_back(std::make_pair(std::string(name), f));
}
static std::vector<int> pathv, arity;
static size_t pos = 0;
static bool replaying = false, isThorough = false, finished = false;
static uint64_t executions = 0, pruned = 0, transitions = 0;
static std::unordered_set<uint64_t> states, outcomes;
static std::vector<std::string> samples;
static std::map<std::string, int> failkeys;
static std::string cursection;
static char notebuf[2048];
static int outfd = 2;

static uint64_t hash(const std::string& s)
{
	uint64_t h = 1469598103934665603ull;
	for(unsigned char c : s)
	{
		h ^= c;
		h *= 1099511628211ull;
	}
	h ^= h >> 29;
	h *= 0xbf58476d1ce4e5b9ull;
	return h ^ (h >> 32);
}
static std::string clean(const std::string& s)
{
	std::string r;
	for(char c : s)
	{
		if(c == '\n' || c == '\r' || c == '\t')
			r += ' ';
		else if(static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126)
			r += '?';
		else
			r += c;
	}
	return r;
}
static void emit(const std::string& s)
{
	size_t off = 0;
	while(off < s.size())
	{
		ssize_t n = write(outfd, s.data() + off, s.size() - off);
		if(n <= 0)
			break;
		off += n;
	}
}
static size_t prefixlen = 0;
static std::string pathString()
{
	std::string p;
	for(size_t i = 0; i < pos && i < pathv.size(); i++)
	{
		if(i)
			p += ',';
		p += std::to_string(pathv[i]);
	}
	return p.empty() ? "-" : p;
}
static void emitFail(const std::string& key, const std::string& msg)
{
	if(failkeys[key]++ == 0 && failkeys.size() < 60)
		emit("MCFAIL\t" + cursection + "\t" + clean(key) + "\t" + pathString() + "\t" + clean(msg) + "\n");
}
int choose(int n)
{
	if(n <= 0)
		prune();
	if(pos < pathv.size())
	{
		if(!replaying && arity[pos] != n)
		{
			emit("MCERR\tnondeterministic choice arity\n");
			_exit(71);
		}
		if(pathv[pos] >= n)
		{
			emit("MCERR\treplay choice out of range\n");
			_exit(71);
		}
		return pathv[pos++];
	}
	pathv.push_back(0);
	arity.push_back(n);
	pos++;
	return 0;
}
void prune()
{
	throw PruneExecution();
}
bool state(const std::string& c)
{
	bool isnew = states.insert(hash(cursection + '\0' + c)).second;
	// on the common prefix with the previous execution this is the same visit again, not a revisit
	return isnew || replaying || pos < prefixlen;
}
bool fresh()
{
	return replaying || pos >= prefixlen;
}
void step(uint64_t n)
{
	transitions += n;
}
void sample(const std::string& s)
{
	if(samples.size() < 3)
		samples.push_back(s.substr(0, 400));
}
void outcome(const std::string& s)
{
	if(outcomes.size() < 100000)
		outcomes.insert(hash(s));
}
bool thorough()
{
	return isThorough;
}
void note(const std::string& s)
{
	strncpy(notebuf, s.c_str(), sizeof(notebuf) - 1);
}
void fail(const std::string& key, const std::string& msg)
{
	throw Violation{key, msg};
}
void report(const std::string& key, const std::string& msg)
{
	step();
	emitFail(key, msg);
}
static void fatal(const char* what)
{
	finished = true;
	emitFail(std::string("fatal:") + what, std::string("library terminated the process (") + what + ") case: " + notebuf);
	_exit(70);
}
static uint64_t lastExec = ~0ull;
static int sameTicks = 0;
static void onsig(int sig)
{
	if(sig == SIGVTALRM)
	{
		if(lastExec == executions)
			sameTicks++;
		else
			sameTicks = 0;
		lastExec = executions;
		if(sameTicks >= 40) // 80-82 s of CPU in one execution
			fatal("hang");
		return;
	}
	fatal(sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" :
		"signal");
}
static void onexit()
{
	if(!finished)
		fatal("exit() called");
}
static std::string jstr(const std::string& s)
{
	std::string r = "\"";
	for(char c : clean(s))
	{
		if(c == '"' || c == '\\')
			r += '\\';
		r += c;
	}
	return r + "\"";
}
}
using namespace mc;
int main(int argc, char** argv)
{
	std::string section, replay;
	double budget = 600;
	bool list = false, doreplay = false;
	for(int i = 1; i < argc; i++)
	{
		std::string a = argv[i];
		if(a == "--list")
			list = true;
		else if(a == "--section")
			section = argv[++i];
		else if(a == "--thorough")
			isThorough = true;
		else if(a == "--budget")
			budget = atof(argv[++i]);
		else if(a == "--replay")
		{
			replay = argv[++i];
			doreplay = true;
		}
		else if(a == "--out")
			outfd = open(argv[++i], O_WRONLY | O_CREAT | O_TRUNC, 0644);
	}
	if(list)
	{
		for(auto& r : registry())
			printf("%s\n", r.first.c_str());
		return 0;
	}
	std::function<void()> body;
	for(auto& r : registry())
		if(r.first == section)
			body = r.second;
	if(!body)
	{
		emit("MCERR\tno such section\n");
		return 71;
	}
	cursection = section;
	atexit(onexit);
	for(int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM})
	{
		struct sigaction sa;
		memset(&sa, 0, sizeof sa);
		sa.sa_handler = onsig;
		sa.sa_flags = SA_RESTART;
		sigaction(s, &sa, nullptr);
	}
	itimerval it = {{2, 0}, {2, 0}};
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
	if(doreplay)
	{
		replaying = true;
		if(replay != "-")
		{
			std::istringstream is(replay);
			std::string t;
			while(std::getline(is, t, ','))
			{
				pathv.push_back(atoi(t.c_str()));
				arity.push_back(1 << 30);
			}
		}
	}
	bool capped = false;
	timespec t0, t1;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	for(;;)
	{
		pos = 0;
		notebuf[0] = 0;
		executions++;
		try
		{
			body();
		}
		catch(Violation& v)
		{
			emitFail(v.key, v.msg);
		}
		catch(PruneExecution&)
		{
			pruned++;
		}
		catch(std::exception& e)
		{
			emitFail("unexpected-exception", std::string("unexpected exception escaped: ") + e.what() + " case: " + notebuf);
		}
		catch(...)
		{
			emitFail("unexpected-exception", std::string("unexpected non-std exception escaped, case: ") + notebuf);
		}
		if(doreplay)
			break;
		pathv.resize(pos);
		arity.resize(pos);
		while(!pathv.empty() && pathv.back() + 1 >= arity.back())
		{
			pathv.pop_back();
			arity.pop_back();
		}
		if(pathv.empty())
			break;
		pathv.back()++;
		prefixlen = pathv.size();
		clock_gettime(CLOCK_MONOTONIC, &t1);
		if((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > budget)
		{
			capped = true;
			break;
		}
	}
	clock_gettime(CLOCK_MONOTONIC, &t1);
	std::string js = "MCRES\t{\"section\":" + jstr(section) + ",\"executions\":" + std::to_string(executions) +
		",\"pruned\":" + std::to_string(pruned) + ",\"states\":" + std::to_string(states.size()) +
		",\"transitions\":" + std::to_string(transitions) + ",\"outcomes\":" + std::to_string(outcomes.size()) +
		",\"capped\":" + (capped ? "true" : "false") + ",\"wall\":" +
		std::to_string((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec)) + ",\"samples\":[";
	for(size_t i = 0; i < samples.size(); i++)
		js += (i ? "," : "") + jstr(samples[i]);
	js += "]}\n";
	emit(js);
	finished = true;
	_exit(0);
}
