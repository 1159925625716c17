/* Preloaded into the command-line program: every system call it makes for files, entropy and
 * the clock is classified, recorded, and answered according to the plan of the scenario.
 * Plan and record live in a file that is shared with the simulator. */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { C_OTHER, C_IN, C_OUT, C_STDOUT, C_STDERR };
/* What faults count: one counter per kind of operation. */
enum { OP_OPEN_IN, OP_READ, OP_SEEK, OP_OPEN_OUT, OP_WRITE, OP_STDOUT, OP_STDERR, OP_ENTROPY, OP_CLOCK, OP_FOREIGN, OP_SYNC, OP_KINDS };
enum { K_ERRNO, K_SHORT, K_NONE, K_CRASH, K_TORN };
enum { F_FIRED = 1, F_WRITES = 2, F_DENIED = 4 };

struct fault { uint32_t op, nth, kind, arg; };
struct rec { uint32_t op, flags; int64_t res; uint64_t size; };
struct ctl {
	uint32_t magic, nfaults;
	struct fault faults[16];
	uint64_t capacity;         /* bytes that fit into the output */
	uint64_t seed;
	int64_t clock, step;
	uint32_t entropy_fails, read_max, write_max, budget;
	char in[512], out[512], scratch[512];
	/* filled in by the program's run */
	uint32_t started, nrec, fired, over;
	uint64_t bytes_out, counts[16], clock_moved;
	struct rec recs[4096];
};

static struct ctl *ctl;
static uint8_t cls[4096];
static uint64_t rng;

static uint64_t next(void) {
	uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

__attribute__((constructor)) static void start(void) {
	const char *p = getenv("CLISIM_CTL");
	if (!p) return;
	int fd = syscall(SYS_open, p, O_RDWR | O_CLOEXEC, 0);
	if (fd < 0) _exit(97);
	void *m = mmap(NULL, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	syscall(SYS_close, fd);
	if (m == MAP_FAILED) _exit(97);
	ctl = m;
	if (ctl->magic != 0x51AB1E) _exit(97);
	rng = ctl->seed;
	ctl->started = 1;
	cls[1] = C_STDOUT;
	cls[2] = C_STDERR;
	unsetenv("CLISIM_CTL");
	unsetenv("LD_PRELOAD");
	/* Endless loops end here, counted in CPU time */
	struct itimerval t = {{0, 0}, {20, 0}};
	syscall(SYS_setitimer, ITIMER_PROF, &t, NULL);
}

static void record(uint32_t op, uint32_t flags, int64_t res, uint64_t size) {
	if (!ctl) return;
	if (op == OP_FOREIGN && (flags & F_WRITES)) ctl->counts[14]++;
	/* How much is logged is up to the options */
	if (op == OP_STDERR && !(flags & F_FIRED)) return;
	uint32_t n = ctl->nrec++;
	if (n < 4096) ctl->recs[n] = (struct rec){op, flags, res, size};
	if (n > ctl->budget) {
		ctl->over = 1;
		if (n > ctl->budget * 2) syscall(SYS_exit_group, 98);
	}
}

static void crash(void) {
	for (;;) syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
}

/* The fault planned for this operation, if any. */
static struct fault *planned(uint32_t op) {
	if (!ctl) return NULL;
	uint64_t n = ctl->counts[op]++;
	for (uint32_t i = 0; i < ctl->nfaults && i < 16; i++)
		if (ctl->faults[i].op == op && ctl->faults[i].nth == n) {
			ctl->fired |= 1u << i;
			if (ctl->faults[i].kind == K_CRASH) crash();
			return &ctl->faults[i];
		}
	return NULL;
}

static long ret(long r) {
	if (r < 0 && r > -4096) {
		errno = -r;
		return -1;
	}
	return r;
}
static long raw(long n, long a, long b, long c, long d, long e) {
	long r;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8) : "rcx", "r11", "memory");
	return r;
}

/* Where a path leads, with the scratch directory taken off; NULL if it is outside. */
static const char *inside(const char *p, char *buf) {
	size_t n = strlen(ctl->scratch);
	if (p[0] == '/') {
		if (strncmp(p, ctl->scratch, n) != 0 || p[n] != '/') return NULL;
		p += n + 1;
	}
	while (p[0] == '.' && p[1] == '/') p += 2;
	if (strstr(p, "..")) return NULL;
	snprintf(buf, 512, "%s", p);
	return buf;
}
static uint8_t classify(const char *p) {
	char b[512];
	const char *r = inside(p, b);
	if (!r) return C_OTHER;
	if (strcmp(r, ctl->in) == 0) return C_IN;
	if (strcmp(r, ctl->out) == 0) return C_OUT;
	return C_OTHER;
}

static int do_open(int dir, const char *p, int flags, mode_t mode) {
	if (!ctl) return ret(raw(SYS_openat, dir, (long)p, flags, mode, 0));
	int writes = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
	uint8_t c = classify(p);
	uint32_t op = c == C_IN && !writes ? OP_OPEN_IN : c == C_OUT && writes ? OP_OPEN_OUT : OP_FOREIGN;
	char b[512];
	if (op == OP_FOREIGN) {
		if (writes) {
			int denied = dir != AT_FDCWD || !inside(p, b);
			record(op, F_WRITES | (denied ? F_DENIED : 0), 0, 0);
			if (denied) {
				errno = EACCES;
				return -1;
			}
		}
		int fd = ret(raw(SYS_openat, dir, (long)p, flags, mode, 0));
		if (fd >= 0 && fd < 4096) cls[fd] = c == C_OUT ? C_OTHER : c;
		return fd;
	}
	struct fault *f = planned(op);
	if (f && f->kind == K_ERRNO) {
		record(op, F_FIRED, -(int64_t)f->arg, 0);
		errno = f->arg;
		return -1;
	}
	int fd = ret(raw(SYS_openat, dir, (long)p, flags, mode, 0));
	if (fd >= 0 && fd < 4096) cls[fd] = c;
	int e = errno;
	record(op, writes ? F_WRITES : 0, fd < 0 ? -e : fd, 0);
	errno = e;
	return fd;
}
#define MODE va_list ap; va_start(ap, flags); mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap)
int open(const char *p, int flags, ...) { MODE; return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE; return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE; return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE; return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }

static uint8_t klass(int fd) { return ctl && fd >= 0 && fd < 4096 ? cls[fd] : C_OTHER; }

int close(int fd) {
	if (ctl && fd >= 0 && fd < 4096) cls[fd] = C_OTHER;
	return ret(raw(SYS_close, fd, 0, 0, 0, 0));
}

/* Moves `n` bytes; `at` is an offset, or -1 for the position of the file. */
static ssize_t do_read(int fd, void *buf, size_t n, off_t at) {
	if (klass(fd) != C_IN) return ret(at < 0 ? raw(SYS_read, fd, (long)buf, n, 0, 0) : raw(SYS_pread64, fd, (long)buf, n, at, 0));
	struct fault *f = planned(OP_READ);
	if (f && f->kind == K_ERRNO) {
		record(OP_READ, F_FIRED, -(int64_t)f->arg, n);
		errno = f->arg;
		return -1;
	}
	size_t want = n;
	if (ctl->read_max && want > ctl->read_max) want = 1 + next() % ctl->read_max;
	if (f && f->kind == K_SHORT && want > f->arg && f->arg) want = f->arg;
	ssize_t r = ret(at < 0 ? raw(SYS_read, fd, (long)buf, want, 0, 0) : raw(SYS_pread64, fd, (long)buf, want, at, 0));
	record(OP_READ, 0, r < 0 ? -errno : r, n);
	return r;
}
ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n, -1); }
ssize_t pread64(int fd, void *buf, size_t n, off_t at) { return do_read(fd, buf, n, at); }
ssize_t pread(int fd, void *buf, size_t n, off_t at) { return do_read(fd, buf, n, at); }
ssize_t readv(int fd, const struct iovec *v, int c) {
	if (klass(fd) != C_IN) return ret(raw(SYS_readv, fd, (long)v, c, 0, 0));
	for (int i = 0; i < c; i++)
		if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, -1);
	return 0;
}

static ssize_t do_write(int fd, const void *buf, size_t n, off_t at) {
	uint8_t c = klass(fd);
	if (c != C_OUT && c != C_STDOUT && c != C_STDERR) {
		if (ctl) record(OP_FOREIGN, F_WRITES, n, n);
		return ret(at < 0 ? raw(SYS_write, fd, (long)buf, n, 0, 0) : raw(SYS_pwrite64, fd, (long)buf, n, at, 0));
	}
	uint32_t op = c == C_OUT ? OP_WRITE : c == C_STDOUT ? OP_STDOUT : OP_STDERR;
	struct fault *f = planned(op);
	if (f && f->kind == K_ERRNO) {
		record(op, F_FIRED, -(int64_t)f->arg, n);
		errno = f->arg;
		return -1;
	}
	if (f && f->kind == K_NONE) {
		record(op, F_FIRED, 0, n);
		return 0;
	}
	size_t want = n;
	if (c != C_STDERR && ctl->write_max && want > ctl->write_max) want = 1 + next() % ctl->write_max;
	if (f && (f->kind == K_SHORT || f->kind == K_TORN) && want > f->arg && (f->arg || f->kind == K_TORN)) want = f->arg;
	/* The device that fills up is the one of the output */
	int limited = c == C_OUT || (c == C_STDOUT && strcmp(ctl->out, "-") == 0);
	if (limited) {
		if (n && ctl->bytes_out >= ctl->capacity) {
			ctl->counts[15]++;
			record(op, F_FIRED, -ENOSPC, n);
			errno = ENOSPC;
			return -1;
		}
		if (want > ctl->capacity - ctl->bytes_out) want = ctl->capacity - ctl->bytes_out;
	}
	ssize_t r = ret(at < 0 ? raw(SYS_write, fd, (long)buf, want, 0, 0) : raw(SYS_pwrite64, fd, (long)buf, want, at, 0));
	if (f && f->kind == K_TORN) crash();
	if (r > 0 && limited) ctl->bytes_out += r;
	int e = errno;
	record(op, 0, r < 0 ? -e : r, n);
	errno = e;
	return r;
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, -1); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t at) { return do_write(fd, buf, n, at); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t at) { return do_write(fd, buf, n, at); }
ssize_t writev(int fd, const struct iovec *v, int c) {
	for (int i = 0; i < c; i++)
		if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, -1);
	return do_write(fd, "", 0, -1);
}

static off_t do_seek(int fd, off_t o, int w) {
	if (klass(fd) == C_IN) {
		struct fault *f = planned(OP_SEEK);
		if (f && f->kind == K_ERRNO) {
			record(OP_SEEK, F_FIRED, -(int64_t)f->arg, 0);
			errno = f->arg;
			return -1;
		}
		off_t r = ret(raw(SYS_lseek, fd, o, w, 0, 0));
		record(OP_SEEK, 0, r, 0);
		return r;
	}
	return ret(raw(SYS_lseek, fd, o, w, 0, 0));
}
off_t lseek(int fd, off_t o, int w) { return do_seek(fd, o, w); }
off_t lseek64(int fd, off_t o, int w) { return do_seek(fd, o, w); }

/* Copies inside the kernel would go past the plan: programs fall back to reads and writes. */
ssize_t copy_file_range(int a, off_t *b, int c, off_t *d, size_t n, unsigned f) {
	(void)a; (void)b; (void)c; (void)d; (void)n; (void)f;
	errno = ENOSYS;
	return -1;
}
ssize_t sendfile(int o, int i, off_t *p, size_t n) { (void)o; (void)i; (void)p; (void)n; errno = EINVAL; return -1; }
ssize_t sendfile64(int o, int i, off_t *p, size_t n) { (void)o; (void)i; (void)p; (void)n; errno = EINVAL; return -1; }
ssize_t splice(int a, off_t *b, int c, off_t *d, size_t n, unsigned f) {
	(void)a; (void)b; (void)c; (void)d; (void)n; (void)f;
	errno = EINVAL;
	return -1;
}

static int sync_call(long n, int fd) {
	if (klass(fd) == C_OUT || klass(fd) == C_STDOUT) {
		struct fault *f = planned(OP_SYNC);
		if (f && f->kind == K_ERRNO) {
			record(OP_SYNC, F_FIRED, -(int64_t)f->arg, 0);
			errno = f->arg;
			return -1;
		}
		record(OP_SYNC, 0, 0, 0);
		return 0;
	}
	return ret(raw(n, fd, 0, 0, 0, 0));
}
int fsync(int fd) { return sync_call(SYS_fsync, fd); }
int fdatasync(int fd) { return sync_call(SYS_fdatasync, fd); }

/* Anything else that changes files is recorded; inside the scratch directory it is carried out. */
static int foreign(long n, const char *p, const char *q, long a, long b, long c, long d, long e) {
	if (ctl) {
		char x[512], y[512];
		int denied = !inside(p, x) || (q && !inside(q, y));
		record(OP_FOREIGN, F_WRITES | (denied ? F_DENIED : 0), 0, 0);
		if (denied) {
			errno = EACCES;
			return -1;
		}
	}
	return ret(raw(n, a, b, c, d, e));
}
int unlink(const char *p) { return foreign(SYS_unlink, p, NULL, (long)p, 0, 0, 0, 0); }
int unlinkat(int d, const char *p, int f) { return foreign(SYS_unlinkat, p, NULL, d, (long)p, f, 0, 0); }
int rename(const char *p, const char *q) { return foreign(SYS_rename, p, q, (long)p, (long)q, 0, 0, 0); }
int renameat(int d, const char *p, int e, const char *q) { return foreign(SYS_renameat, p, q, d, (long)p, e, (long)q, 0); }
int renameat2(int d, const char *p, int e, const char *q, unsigned f) { return foreign(SYS_renameat2, p, q, d, (long)p, e, (long)q, f); }
int link(const char *p, const char *q) { return foreign(SYS_link, p, q, (long)p, (long)q, 0, 0, 0); }
int linkat(int d, const char *p, int e, const char *q, int f) { return foreign(SYS_linkat, p, q, d, (long)p, e, (long)q, f); }
int symlink(const char *p, const char *q) { return foreign(SYS_symlink, q, NULL, (long)p, (long)q, 0, 0, 0); }
int symlinkat(const char *p, int d, const char *q) { return foreign(SYS_symlinkat, q, NULL, (long)p, d, (long)q, 0, 0); }
int mkdir(const char *p, mode_t m) { return foreign(SYS_mkdir, p, NULL, (long)p, m, 0, 0, 0); }
int mkdirat(int d, const char *p, mode_t m) { return foreign(SYS_mkdirat, p, NULL, d, (long)p, m, 0, 0); }
int rmdir(const char *p) { return foreign(SYS_rmdir, p, NULL, (long)p, 0, 0, 0, 0); }
int chmod(const char *p, mode_t m) { return foreign(SYS_chmod, p, NULL, (long)p, m, 0, 0, 0); }
int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; return foreign(SYS_fchmodat, p, NULL, d, (long)p, m, 0, 0); }
int truncate(const char *p, off_t n) { return foreign(SYS_truncate, p, NULL, (long)p, n, 0, 0, 0); }
int truncate64(const char *p, off_t n) { return foreign(SYS_truncate, p, NULL, (long)p, n, 0, 0, 0); }
static int ftrunc(int fd, off_t n) {
	if (ctl && klass(fd) != C_OUT) record(OP_FOREIGN, F_WRITES, 0, 0);
	return ret(raw(SYS_ftruncate, fd, n, 0, 0, 0));
}
int ftruncate(int fd, off_t n) { return ftrunc(fd, n); }
int ftruncate64(int fd, off_t n) { return ftrunc(fd, n); }

ssize_t getrandom(void *buf, size_t n, unsigned f) {
	if (!ctl) return ret(raw(SYS_getrandom, (long)buf, n, f, 0, 0));
	/* Hash maps of the standard library take 16 bytes and cannot do without them */
	if (ctl->entropy_fails && n > 0 && n < 16) {
		record(OP_ENTROPY, F_FIRED, -EIO, n);
		errno = EIO;
		return -1;
	}
	ctl->counts[OP_ENTROPY]++;
	for (size_t i = 0; i < n; i++) ((uint8_t *)buf)[i] = next();
	record(OP_ENTROPY, 0, n, n);
	return n;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
	if (!ctl) return ret(raw(SYS_clock_gettime, c, (long)ts, 0, 0, 0));
	int64_t t;
	if (c == CLOCK_REALTIME) {
		ctl->clock += ctl->step;
		t = ctl->clock;
	} else {
		ctl->clock_moved += 1000000 + ((uint64_t)ctl->step & 0xFFFFF);
		t = 1000000000000ll + ctl->clock_moved;
	}
	int64_t s = t / 1000000000, r = t % 1000000000;
	if (r < 0) {
		s--;
		r += 1000000000;
	}
	ts->tv_sec = s;
	ts->tv_nsec = r;
	ctl->counts[OP_CLOCK]++;
	return 0;
}
