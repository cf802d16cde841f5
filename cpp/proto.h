// Request/response plumbing of the harness servers.  A server reads requests from stdin, runs
// every request in a forked child (so each case starts from the same fresh process state and a
// crash of the code under test is confined to its case), and sends the child's answer back.
//
// frame   := u64 length, payload
// request := str name, u32 nargs, arg*        response := u8 status, u32 nargs, arg*
// arg     := u8 type ('d','i','s'), u64 count, data
#ifndef VERIF_PROTO_H
#define VERIF_PROTO_H
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace proto
{
struct Arg
{
	char t;
	std::vector<double> d;
	std::vector<int64_t> i;
	std::string s;
};
typedef std::vector<Arg> Args;

struct Out
{
	std::string buf;
	uint32_t n;
	Out() : n(0) {}
	void raw(const void* p, size_t k) { buf.append((const char*)p, k); }
	void put(const std::vector<double>& v)
	{
		char t = 'd'; uint64_t c = v.size(); raw(&t, 1); raw(&c, 8); if (c) raw(&v[0], 8 * c); n++;
	}
	void put(const std::vector<int64_t>& v)
	{
		char t = 'i'; uint64_t c = v.size(); raw(&t, 1); raw(&c, 8); if (c) raw(&v[0], 8 * c); n++;
	}
	void put(const std::vector<size_t>& v)
	{
		char t = 'i'; uint64_t c = v.size(); raw(&t, 1); raw(&c, 8); if (c) raw(&v[0], 8 * c); n++;
	}
	void put(const std::string& v)
	{
		char t = 's'; uint64_t c = v.size(); raw(&t, 1); raw(&c, 8); raw(v.data(), c); n++;
	}
};
typedef void (*Handler)(Args&, Out&);
typedef std::map<std::string, Handler> Table;

inline bool rd(int fd, void* p, size_t n)
{
	char* c = (char*)p;
	while (n)
	{
		ssize_t k = read(fd, c, n);
		if (k < 0 && errno == EINTR) continue;
		if (k <= 0) return false;
		c += k; n -= (size_t)k;
	}
	return true;
}
inline bool wr(int fd, const void* p, size_t n)
{
	const char* c = (const char*)p;
	while (n)
	{
		ssize_t k = write(fd, c, n);
		if (k < 0 && errno == EINTR) continue;
		if (k <= 0) return false;
		c += k; n -= (size_t)k;
	}
	return true;
}
inline void parse(const std::string& b, std::string& name, Args& a)
{
	size_t p = 0;
	uint32_t nl; memcpy(&nl, &b[p], 4); p += 4;
	name = b.substr(p, nl); p += nl;
	uint32_t n; memcpy(&n, &b[p], 4); p += 4;
	a.resize(n);
	for (uint32_t k = 0; k < n; k++)
	{
		a[k].t = b[p]; p++;
		uint64_t c; memcpy(&c, &b[p], 8); p += 8;
		if (a[k].t == 'd') { a[k].d.resize(c); if (c) memcpy(&a[k].d[0], &b[p], 8 * c); p += 8 * c; }
		else if (a[k].t == 'i') { a[k].i.resize(c); if (c) memcpy(&a[k].i[0], &b[p], 8 * c); p += 8 * c; }
		else { a[k].s = b.substr(p, c); p += c; }
	}
}
// one request: "!name" handlers are the table's; the last argument list entry is the case's time limit
inline int serve(const Table& table)
{
	int in = dup(0), out = dup(1);
	fcntl(in, F_SETFD, FD_CLOEXEC); fcntl(out, F_SETFD, FD_CLOEXEC);
	int nul = open("/dev/null", O_RDWR);
	dup2(nul, 0); dup2(nul, 1);
	signal(SIGPIPE, SIG_IGN);
	while (true)
	{
		uint64_t len; double limit;
		if (!rd(in, &len, 8) || !rd(in, &limit, 8)) return 0;
		std::string b(len, '\0');
		if (len && !rd(in, &b[0], len)) return 0;
		int pfd[2];
		if (pipe(pfd)) return 3;
		pid_t pid = fork();
		if (pid == 0)
		{
			close(pfd[0]); close(in); close(out);
			setpgid(0, 0);
			std::string name; Args a; Out o; uint8_t st = 0;
			parse(b, name, a);
			try
			{
				Table::const_iterator it = table.find(name);
				if (it == table.end()) throw std::runtime_error("no such handler " + name);
				it->second(a, o);
			}
			catch (std::exception& e)
			{
				st = 1; o = Out(); o.put(std::string(e.what()));
			}
			wr(pfd[1], &st, 1); wr(pfd[1], &o.n, 4); wr(pfd[1], o.buf.data(), o.buf.size());
			uint8_t end = 0xA5; wr(pfd[1], &end, 1);
			close(pfd[1]);
			_exit(0);
		}
		close(pfd[1]);
		std::string resp; bool timeout = false;
		struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
		char tmp[65536];
		while (true)
		{
			clock_gettime(CLOCK_MONOTONIC, &t1);
			double left = limit - ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec));
			if (left <= 0) { timeout = true; break; }
			struct pollfd pf; pf.fd = pfd[0]; pf.events = POLLIN; pf.revents = 0;
			int r = poll(&pf, 1, (int)(left * 1000) + 1);
			if (r < 0 && errno == EINTR) continue;
			if (r == 0) continue;
			ssize_t k = read(pfd[0], tmp, sizeof tmp);
			if (k < 0 && errno == EINTR) continue;
			if (k <= 0) break;
			resp.append(tmp, (size_t)k);
		}
		close(pfd[0]);
		if (timeout) { kill(-pid, SIGKILL); kill(pid, SIGKILL); }
		int ws = 0; waitpid(pid, &ws, 0);
		bool ok = !timeout && resp.size() >= 6 && (uint8_t)resp[resp.size() - 1] == 0xA5
			&& WIFEXITED(ws) && WEXITSTATUS(ws) == 0;
		if (ok) resp.resize(resp.size() - 1);
		else
		{
			Out o; char msg[200];
			if (timeout) snprintf(msg, sizeof msg, "timeout");
			else if (WIFSIGNALED(ws)) snprintf(msg, sizeof msg, "killed by signal %d", WTERMSIG(ws));
			else snprintf(msg, sizeof msg, "exited with status %d", WEXITSTATUS(ws));
			o.put(std::string(msg));
			uint8_t st = timeout ? 3 : 2;
			resp.assign((char*)&st, 1); resp.append((char*)&o.n, 4); resp += o.buf;
		}
		uint64_t rl = resp.size();
		if (!wr(out, &rl, 8) || !wr(out, resp.data(), rl)) return 0;
	}
}
}
#endif
