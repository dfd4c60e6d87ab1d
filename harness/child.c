/* child SCRIPT [ARG...]: what a started program does in the C11 check. Script words, separated by spaces:
 *  oN:S  N bytes of pattern S to stdout    eN:S  the same to stderr    wP   most bytes per write
 *  r     read stdin to its end, print its length and hash to stdout
 *  a     print the arguments after SCRIPT, each with its length
 *  v     print $VTEST and the working directory   d  print the numbers of the open descriptors above 2
 *  tP    make the file P    fP  wait until there is a file P (15 s at most, then exit 98)
 *  p     print whether SIGPIPE is ignored
 *  sN    sleep N ms   c1 c2 c0  close that descriptor   xN  exit   kN  signal
 */
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>

enum { N = 65521 };
static unsigned char table[N];
static size_t most = 1 << 16;

static void put(int fd, void const* p, size_t n)
{
	char const* c = p;
	while(n)
	{
		ssize_t k = write(fd, c, n < most ? n : most);
		if(k < 0)
		{
			if(errno == EINTR) continue;
			_exit(99);
		}
		c += k;
		n -= (size_t)k;
	}
}

static void pattern(int fd, size_t n, size_t seed)
{
	size_t pos = seed % N;
	while(n)
	{
		size_t k = N - pos < n ? N - pos : n;
		put(fd, table + pos, k);
		n -= k;
		pos = 0;
	}
}

int main(int argc, char** argv)
{
	struct rlimit no_core = {0, 0};
	setrlimit(RLIMIT_CORE, &no_core);
	uint32_t x = 12345;
	for(int k = 0; k < N; ++k)
	{
		x = x * 1664525u + 1013904223u;
		table[k] = (unsigned char)(x >> 24);
	}
	char* save = NULL;
	char buf[65536];
	for(char* w = strtok_r(argv[1], " ", &save); w; w = strtok_r(NULL, " ", &save))
	{
		char* e;
		long n = strtol(w + 1, &e, 10);
		switch(*w)
		{
			case 'o': pattern(1, (size_t)n, (size_t)atol(e + 1)); break;
			case 'e': pattern(2, (size_t)n, (size_t)atol(e + 1)); break;
			case 'w': most = (size_t)n; break;
			case 's': usleep((useconds_t)n * 1000); break;
			case 'c': close((int)n); break;
			case 'x': _exit((int)n);
			case 'k':
			{
				signal((int)n, SIG_DFL);
				sigset_t s;
				sigemptyset(&s);
				sigaddset(&s, (int)n);
				sigprocmask(SIG_UNBLOCK, &s, NULL);
				raise((int)n);
				break;
			}
			case 'r':
			{
				uint64_t h = 14695981039346656037ull;
				size_t total = 0;
				ssize_t k;
				while((k = read(0, buf, sizeof(buf))) > 0)
				{
					for(ssize_t i = 0; i < k; ++i)
					{
						h ^= (unsigned char)buf[i];
						h *= 1099511628211ull;
					}
					total += (size_t)k;
				}
				put(1, buf, (size_t)sprintf(buf, "[%zu %016llx]", total, (unsigned long long)h));
				break;
			}
			case 'p':
			{
				struct sigaction a;
				sigaction(SIGPIPE, NULL, &a);
				put(1, a.sa_handler == SIG_IGN ? "{ignored}" : "{default}", 9);
				break;
			}
			case 't': close(open(w + 1, O_WRONLY | O_CREAT, 0644)); break;
			case 'f':
			{
				int k = 0;
				while(access(w + 1, F_OK) != 0)
				{
					if(++k > 15000) _exit(98);
					usleep(1000);
				}
				break;
			}
			case 'a':
				for(int i = 2; i < argc; ++i)
				{
					put(1, buf, (size_t)sprintf(buf, "<%zu ", strlen(argv[i])));
					put(1, argv[i], strlen(argv[i]));
					put(1, ">", 1);
				}
				break;
			case 'v':
				put(1, getenv("VTEST") ? getenv("VTEST") : "", getenv("VTEST") ? strlen(getenv("VTEST")) : 0);
				put(1, "|", 1);
				if(getcwd(buf, sizeof(buf))) put(1, buf, strlen(buf));
				break;
		}
	}
	return 0;
}
