/* rec: the recording recipe that the checks use in place of a compiler.
 *
 * It is invoked by maike exactly like any recipe ("rec compile JSON", "rec configure JSON",
 * "rec get_tags JSON") and
 *  - appends one line per event (with one atomic O_APPEND write) to $VREC_LOG,
 *  - on compile, writes each target with a content that is a function of what it was told to use: the
 *    source's bytes, the bytes of every dependency file, the configuration and the target's name,
 *  - obeys per-source orders from $VREC_CTL/<source path with / replaced by %>.
 *
 * Orders (one per line): sleep MS | exit N | signal N | out BYTES | err BYTES | nowrite | late N
 *   cfgout FILE   (configure: print FILE)     tags FILE   (get_tags: print FILE)
 *   outfile FILE, errfile FILE (write the contents of a file in $VREC_CTL)     chunks N US (... in pieces
 *   of N bytes, taken in turn, with pauses)
 *   cfgwrap N     (configure: print the settings given, wrapped, with N bytes more)
 * Orders for the configure step are those for $VREC_CONF, or else "configure".
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <jansson.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

static uint64_t fnv(uint64_t h, void const* p, size_t n)
{
	unsigned char const* c = p;
	while(n--)
	{
		h ^= *c++;
		h *= 1099511628211ull;
	}
	return h;
}

static uint64_t fnv_str(uint64_t h, char const* s)
{
	return fnv(h, s, strlen(s) + 1);
}

#define FNV0 14695981039346656037ull

static int64_t now(void)
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1000000000ll + t.tv_nsec;
}

static void log_obj(json_t* obj)
{
	char const* path = getenv("VREC_LOG");
	if(path == NULL)
	{
		json_decref(obj);
		return;
	}
	json_object_set_new(obj, "t", json_integer(now()));
	json_object_set_new(obj, "pid", json_integer(getpid()));
	char* s = json_dumps(obj, JSON_COMPACT);
	size_t n = strlen(s);
	s[n] = '\n';
	int fd = open(path, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
	if(fd >= 0)
	{
		size_t done = 0;
		while(done < n + 1)
		{
			ssize_t k = write(fd, s + done, n + 1 - done);
			if(k <= 0) break;
			done += (size_t)k;
		}
		close(fd);
	}
	free(s);
	json_decref(obj);
}

/* FNV of a file's bytes; 0 when it can't be read, 1 when it is a directory */
static uint64_t hash_file(char const* path)
{
	struct stat st;
	if(stat(path, &st) != 0) return 0;
	if(S_ISDIR(st.st_mode)) return 1;
	int fd = open(path, O_RDONLY);
	if(fd < 0) return 0;
	uint64_t h = FNV0;
	char buf[65536];
	ssize_t n;
	while((n = read(fd, buf, sizeof(buf))) > 0) h = fnv(h, buf, (size_t)n);
	close(fd);
	return h;
}

static char* ctl_path(char const* src)
{
	char const* dir = getenv("VREC_CTL");
	if(dir == NULL) return NULL;
	char* ret = malloc(strlen(dir) + strlen(src) + 3);
	sprintf(ret, "%s/f", dir);
	char* p = ret + strlen(ret);
	while(src[0] == '.' && src[1] == '/') src += 2;
	for(; *src; ++src) *p++ = *src == '/' ? '%' : *src;
	*p = 0;
	return ret;
}

static void emit(int fd, long n, unsigned seed)
{
	char buf[4096];
	long k = 0;
	while(k < n)
	{
		long m = n - k < (long)sizeof(buf) ? n - k : (long)sizeof(buf);
		for(long i = 0; i < m; ++i)
		{
			long pos = k + i;
			buf[i] = pos % 61 == 60 ? '\n' : (char)('a' + (pos / 61 + pos * 7 + seed) % 26);
		}
		ssize_t w = write(fd, buf, (size_t)m);
		if(w <= 0) return;
		k += w;
	}
}

static void cat(char const* path)
{
	int fd = open(path, O_RDONLY);
	if(fd < 0) return;
	char buf[65536];
	ssize_t n;
	while((n = read(fd, buf, sizeof(buf))) > 0)
		if(write(1, buf, (size_t)n) < 0) break;
	close(fd);
}

static char* slurp(char const* name, size_t* n)
{
	char path[4096];
	*n = 0;
	snprintf(path, sizeof(path), "%s/%s", getenv("VREC_CTL"), name);
	struct stat st;
	int fd = name[0] ? open(path, O_RDONLY) : -1;
	if(fd < 0 || fstat(fd, &st) != 0) return NULL;
	char* ret = malloc((size_t)st.st_size + 1);
	ssize_t k;
	while(*n < (size_t)st.st_size && (k = read(fd, ret + *n, (size_t)st.st_size - *n)) > 0) *n += (size_t)k;
	close(fd);
	return ret;
}

static void emit_files(char const* out, char const* err, size_t chunk, long pause)
{
	size_t n[2], done[2] = {0, 0};
	char* data[2] = {slurp(out, &n[0]), slurp(err, &n[1])};
	while(done[0] < n[0] || done[1] < n[1])
	{
		for(int i = 0; i < 2; ++i)
		{
			size_t end = chunk && done[i] + chunk < n[i] ? done[i] + chunk : n[i];
			while(done[i] < end)
			{
				ssize_t k = write(i + 1, data[i] + done[i], end - done[i]);
				if(k <= 0) return;
				done[i] += (size_t)k;
			}
			if(pause) usleep((useconds_t)pause);
		}
	}
	free(data[0]);
	free(data[1]);
}

static int time_before(struct timespec a, struct timespec b)
{
	return a.tv_sec < b.tv_sec || (a.tv_sec == b.tv_sec && a.tv_nsec < b.tv_nsec);
}

int main(int argc, char** argv)
{
	struct rlimit no_core = {0, 0};
	setrlimit(RLIMIT_CORE, &no_core);
	char const* verb = argc > 1 ? argv[1] : "";
	json_error_t err;
	json_t* arg = argc > 2 ? json_loads(argv[2], JSON_DECODE_ANY, &err) : NULL;
	char const* src = arg && json_is_object(arg) ? json_string_value(json_object_get(arg, "source_file")) : NULL;

	json_t* ev = json_object();
	json_object_set_new(ev, "ev", json_string("start"));
	json_object_set_new(ev, "verb", json_string(verb));
	/* scripts that hand over to this program say who they are */
	json_object_set_new(ev, "self", json_string(getenv("VREC_SELF") ? getenv("VREC_SELF") : argv[0]));
	json_object_set_new(ev, "argc", json_integer(argc));
	if(arg) json_object_set(ev, "arg", arg);
	else if(argc > 2) json_object_set_new(ev, "raw", json_string(argv[2]));
	log_obj(ev);

	long sleep_ms = 0, out_bytes = 0, err_bytes = 0, do_exit = -1, do_signal = 0, cfgwrap = -1;
	int nowrite = 0;
	char cfgout[4096] = "", tags[4096] = "", outfile[256] = "", errfile[256] = "";
	long chunk = 0, pause_us = 0;
	/* configure: orders for the recipe itself are under the name "configure" */
	if(!strcmp(verb, "configure"))
	{
		src = NULL;
		if(getenv("VREC_CONF")) verb = getenv("VREC_CONF");
	}
	char* ctl = ctl_path(src ? src : verb);
	if(argc > 1) verb = argv[1];
	if(ctl)
	{
		FILE* f = fopen(ctl, "r");
		if(f)
		{
			char line[8192];
			while(fgets(line, sizeof(line), f))
			{
				line[strcspn(line, "\n")] = 0;
				char* v = strchr(line, ' ');
				if(v) *v++ = 0;
				if(!strcmp(line, "sleep")) sleep_ms = atol(v);
				else if(!strcmp(line, "exit")) do_exit = atol(v);
				else if(!strcmp(line, "signal")) do_signal = atol(v);
				else if(!strcmp(line, "out")) out_bytes = atol(v);
				else if(!strcmp(line, "err")) err_bytes = atol(v);
				else if(!strcmp(line, "outfile")) snprintf(outfile, sizeof(outfile), "%s", v);
				else if(!strcmp(line, "errfile")) snprintf(errfile, sizeof(errfile), "%s", v);
				else if(!strcmp(line, "chunks")) sscanf(v, "%ld %ld", &chunk, &pause_us);
				else if(!strcmp(line, "nowrite")) nowrite = 1;
				else if(!strcmp(line, "cfgout")) snprintf(cfgout, sizeof(cfgout), "%s", v);
				else if(!strcmp(line, "cfgwrap")) cfgwrap = atol(v);
				else if(!strcmp(line, "tags")) snprintf(tags, sizeof(tags), "%s", v);
			}
			fclose(f);
		}
		free(ctl);
	}

	int status = 0;
	if(!strcmp(verb, "configure"))
	{
		emit(2, err_bytes, 2);
		if(cfgout[0]) cat(cfgout);
		if(cfgwrap >= 0 && arg)
		{
			json_t* w = json_object();
			json_object_set(w, "was", arg);
			char* pad = malloc((size_t)cfgwrap + 1);
			for(long i = 0; i < cfgwrap; ++i) pad[i] = (char)('a' + (i * 7 + i / 26) % 26);
			pad[cfgwrap] = 0;
			json_object_set_new(w, "pad", json_string(pad));
			char* text = json_dumps(w, JSON_COMPACT);
			size_t n = strlen(text), k = 0;
			while(k < n)
			{
				ssize_t m = write(1, text + k, n - k);
				if(m <= 0) break;
				k += (size_t)m;
			}
			free(text);
			free(pad);
			json_decref(w);
		}
		if(do_exit >= 0) status = (int)do_exit;
	}
	else if(!strcmp(verb, "get_tags"))
	{
		if(tags[0])
		{
			emit(2, err_bytes, 2);
			cat(tags);
			if(do_exit >= 0) status = (int)do_exit;
		}
		else do_signal = 0;
	}
	else if(!strcmp(verb, "compile") && arg)
	{
		char const* maxdelay = getenv("VREC_MAXDELAY_US");
		if(maxdelay && src && atol(maxdelay) > 0)
		{
			uint64_t h = fnv_str(FNV0, getenv("VREC_SEED") ? getenv("VREC_SEED") : "0");
			usleep((useconds_t)((fnv_str(h, src) >> 17) % (uint64_t)atol(maxdelay)));
		}
		if(sleep_ms) usleep((useconds_t)(sleep_ms * 1000));
		emit(1, out_bytes, 1);
		emit(2, err_bytes, 2);
		emit_files(outfile, errfile, (size_t)chunk, pause_us);

		int will_fail = do_exit > 0 || do_signal > 0;
		json_t* targets = json_object_get(arg, "targets");
		json_t* deps = json_object_get(arg, "dependencies");
		size_t i;
		json_t* t;
		/* with $VREC_ROOT, damaged projects are built: nothing is written outside of the working directory */
		json_array_foreach(targets, i, t)
		{
			char const* name = json_string_value(t);
			if(getenv("VREC_ROOT") && (name == NULL || name[0] == '/' || strstr(name, "..")))
			{
				fprintf(stderr, "the target is elsewhere\n");
				will_fail = 1;
				status = 1;
			}
		}
		struct stat st;
		int src_is_dir = src && stat(src, &st) == 0 && S_ISDIR(st.st_mode);
		if(!will_fail && src_is_dir)
		{
			json_array_foreach(targets, i, t)
			{
				char buf[8192];
				snprintf(buf, sizeof(buf), "%s", json_string_value(t));
				size_t l = strlen(buf);
				if(l > 2 && !strcmp(buf + l - 2, "/.")) buf[l - 2] = 0;
				if(mkdir(buf, 0777) != 0 && errno != EEXIST)
				{
					fprintf(stderr, "mkdir %s: %s\n", buf, strerror(errno));
					status = 1;
				}
			}
		}
		else if(!will_fail && !nowrite)
		{
			struct timespec newest = {0, 0};
			if(src && stat(src, &st) == 0) newest = st.st_mtim;
			/* the dependency set, independent of the order it is listed in: sum of item hashes */
			uint64_t sum = 0;
			json_array_foreach(deps, i, t)
			{
				char const* ref = json_string_value(json_object_get(t, "ref"));
				char const* origin = json_string_value(json_object_get(t, "origin"));
				uint64_t h = fnv_str(fnv_str(FNV0, ref), origin);
				if(!strcmp(origin, "project") || !strcmp(origin, "generated"))
				{
					uint64_t c = hash_file(ref);
					h = fnv(h, &c, sizeof(c));
					if(stat(ref, &st) == 0 && !S_ISDIR(st.st_mode) && time_before(newest, st.st_mtim))
						newest = st.st_mtim;
				}
				sum += h;
			}
			char* cfg = json_dumps(json_object_get(arg, "compiler_cfg"), JSON_SORT_KEYS | JSON_COMPACT);
			json_array_foreach(targets, i, t)
			{
				char const* name = json_string_value(t);
				uint64_t h = fnv_str(FNV0, name);
				h = fnv_str(h, src ? src : "");
				uint64_t c = src ? hash_file(src) : 0;
				h = fnv(h, &c, sizeof(c));
				h = fnv(h, &sum, sizeof(sum));
				if(cfg) h = fnv_str(h, cfg);
				char* tmp = malloc(strlen(name) + 32);
				sprintf(tmp, "%s.tmp%d", name, (int)getpid());
				char text[64];
				int n = snprintf(text, sizeof(text), "%016llx\n", (unsigned long long)h);
				int fd = open(tmp, O_WRONLY | O_CREAT | O_TRUNC, 0666);
				if(fd < 0 || write(fd, text, (size_t)n) != n)
				{
					fprintf(stderr, "%s: %s\n", tmp, strerror(errno));
					status = 1;
					if(fd >= 0) close(fd);
					free(tmp);
					continue;
				}
				/* a target made from something is later than it, whatever the clock's grain */
				for(int k = 0; k < 2000; ++k)
				{
					struct timespec ts[2] = {{0, UTIME_OMIT}, {0, UTIME_NOW}};
					futimens(fd, ts);
					if(fstat(fd, &st) != 0 || time_before(newest, st.st_mtim)) break;
					usleep(1000);
				}
				close(fd);
				if(rename(tmp, name) != 0)
				{
					fprintf(stderr, "%s: %s\n", name, strerror(errno));
					unlink(tmp);
					status = 1;
				}
				free(tmp);
			}
			free(cfg);
		}
		if(do_exit >= 0) status = (int)do_exit;
	}

	ev = json_object();
	json_object_set_new(ev, "ev", json_string("end"));
	json_object_set_new(ev, "verb", json_string(verb));
	if(src) json_object_set_new(ev, "src", json_string(src));
	json_object_set_new(ev, "status", json_integer(status));
	json_object_set_new(ev, "signal", json_integer(do_signal));
	log_obj(ev);
	if(do_signal)
	{
		signal((int)do_signal, SIG_DFL);
		raise((int)do_signal);
	}
	return status;
}
