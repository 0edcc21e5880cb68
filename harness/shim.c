// LD_PRELOAD fault injector. Counts the system calls a process makes on the files under NDS_DIR, on its standard input and
// output, and on pipes, and makes chosen ones fail. A call is named "<op> <label> <nth>": <label> is "f<i>" for the i-th path
// that appeared, "in", "out", or "pipe"; <nth> counts the calls of that op on that label.
//   NDS_FAULTS  op:label:nth:action[,...]; action: e<errno> | s<n> (transfers only n bytes) | k (SIGKILL instead of it)
//               | t<n> (transfers n bytes, then SIGKILL) | a (SIGKILL right after it)
//   NDS_XDEV    renames and links from one directory into another fail with EXDEV
//   NDS_LOG     file that gets a line "op label nth requested returned path" for every call
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NOPS = 40, NLAB = 64, NFD = 1024 };
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static char dir[PATH_MAX], cwd[PATH_MAX], *paths[NLAB];
static int npaths, logfd = -1, active;
static int fdlab[NFD]; // 0: none, 1: in, 2: out, 3: pipe, 4+i: path i
static struct { const char *op; int lab; unsigned n; } counts[NOPS * 8];
static int ncounts;
static struct { char op[24], label[16]; unsigned nth; char act; long arg; int used; } faults[8];
static int nfaults;

static const char *labname(int lab, char *buf) {
	if(lab == 1) return "in";
	if(lab == 2) return "out";
	if(lab == 3) return "pipe";
	sprintf(buf, "f%d", lab - 4);
	return buf;
}

__attribute__((constructor)) static void init(void) {
	const char *d = getenv("NDS_DIR"), *f = getenv("NDS_FAULTS"), *l = getenv("NDS_LOG");
	unsetenv("LD_PRELOAD"); // not for the children
	if(!d) return;
	strncpy(dir, d, sizeof dir - 1);
	if(!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
	if(l) {
		int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
		logfd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
		syscall(SYS_close, fd);
	}
	if(f) {
		char *s = strdup(f), *save = 0;
		for(char *t = strtok_r(s, ",", &save); t && nfaults < 8; t = strtok_r(0, ",", &save)) {
			char act[32];
			if(sscanf(t, "%23[^:]:%15[^:]:%u:%31s", faults[nfaults].op, faults[nfaults].label, &faults[nfaults].nth, act) == 4) {
				faults[nfaults].act = act[0];
				faults[nfaults].arg = atol(act + 1);
				nfaults++;
			}
		}
		free(s);
	}
	fdlab[0] = 1;
	fdlab[1] = 2;
	active = 1;
}

static int label_of_path(const char *p) {
	char full[2 * PATH_MAX];
	if(!active || !p) return 0;
	if(p[0] == '/') snprintf(full, sizeof full, "%s", p);
	else snprintf(full, sizeof full, "%s/%s", cwd, p[0] == '.' && p[1] == '/' ? p + 2 : p);
	size_t n = strlen(dir);
	if(strncmp(full, dir, n) != 0 || full[n] != '/') return 0;
	for(int i = 0; i < npaths; i++) if(strcmp(paths[i], full) == 0) return 4 + i;
	if(npaths == NLAB) return 0;
	paths[npaths] = strdup(full);
	return 4 + npaths++;
}

static int label_of_fd(int fd) {
	if(!active || fd < 0 || fd >= NFD) return 0;
	if(fdlab[fd]) return fdlab[fd];
	return 0;
}

static int is_pipe(int fd) {
	struct stat st;
	return fd > 2 && fd < NFD && syscall(SYS_fstat, fd, &st) == 0 && S_ISFIFO(st.st_mode);
}

static int rw_label(int fd) {
	int lab = label_of_fd(fd);
	if(!lab && active && is_pipe(fd)) return 3;
	return lab;
}

static void bind_fd(int fd, int lab) {
	if(fd >= 0 && fd < NFD) fdlab[fd] = lab;
}

// returns the index of a fault to apply, or -1; the lock is held by the caller
static int step(const char *op, int lab, unsigned *nth) {
	int i;
	for(i = 0; i < ncounts; i++) if(counts[i].lab == lab && strcmp(counts[i].op, op) == 0) break;
	if(i == ncounts) {
		if(ncounts == NOPS * 8) abort();
		counts[ncounts].op = op;
		counts[ncounts++].lab = lab;
	}
	*nth = counts[i].n++;
	char buf[16];
	const char *name = labname(lab, buf);
	for(i = 0; i < nfaults; i++)
		if(!faults[i].used && faults[i].nth == *nth && strcmp(faults[i].op, op) == 0 && strcmp(faults[i].label, name) == 0) {
			faults[i].used = 1;
			return i;
		}
	return -1;
}

static void note(const char *op, int lab, unsigned nth, long req, long ret) {
	if(logfd < 0) return;
	char line[PATH_MAX + 128], buf[16];
	int n = snprintf(line, sizeof line, "%s %s %u %ld %ld %s\n", op, labname(lab, buf), nth, req, ret, lab >= 4 ? paths[lab - 4] : "-");
	syscall(SYS_write, logfd, line, n);
}

static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for(;;) pause(); }

// CALL runs with `lim` bytes at most; evaluates to the result
#define OP(op_, lab_, req_, CALL) ({ \
	int lab__ = (lab_); long req__ = (req_), ret__; size_t lim = req__ < 0 ? 0 : (size_t)req__; (void)lim; \
	if(!lab__) { ret__ = (CALL); } else { \
		unsigned nth__; \
		pthread_mutex_lock(&mu); int f__ = step(op_, lab__, &nth__); pthread_mutex_unlock(&mu); \
		char act__ = f__ < 0 ? 0 : faults[f__].act; \
		if(act__ == 'k') die(); \
		if(act__ == 'e') { errno = faults[f__].arg; ret__ = -1; } \
		else { \
			if((act__ == 's' || act__ == 't') && (size_t)faults[f__].arg < lim) lim = faults[f__].arg; \
			ret__ = (act__ == 't' && lim == 0) ? 0 : (CALL); \
			if(act__ == 't' || act__ == 'a') die(); \
		} \
		int e__ = errno; pthread_mutex_lock(&mu); note(op_, lab__, nth__, req__, ret__); pthread_mutex_unlock(&mu); errno = e__; \
	} ret__; })

static int xopen(int at, const char *p, int flags, mode_t mode) {
	pthread_mutex_lock(&mu);
	int lab = at == AT_FDCWD || (p && p[0] == '/') ? label_of_path(p) : 0;
	pthread_mutex_unlock(&mu);
	int fd = OP((flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) ? "openw" : "open", lab, 0, syscall(SYS_openat, at, p, flags, mode));
	if(fd >= 0) bind_fd(fd, lab);
	return fd;
}
#define MODE(flags) mode_t mode = 0; if((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(flags); return xopen(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags); return xopen(AT_FDCWD, p, flags, mode); }
int openat(int at, const char *p, int flags, ...) { MODE(flags); return xopen(at, p, flags, mode); }
int openat64(int at, const char *p, int flags, ...) { MODE(flags); return xopen(at, p, flags, mode); }
int creat(const char *p, mode_t mode) { return xopen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return xopen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int close(int fd) { if(fd > 2) bind_fd(fd, 0); return syscall(SYS_close, fd); }

ssize_t read(int fd, void *b, size_t n) { return OP("read", rw_label(fd), n, syscall(SYS_read, fd, b, lab__ ? lim : n)); }
ssize_t write(int fd, const void *b, size_t n) { return OP("write", rw_label(fd), n, syscall(SYS_write, fd, b, lab__ ? lim : n)); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return OP("read", label_of_fd(fd), n, syscall(SYS_pread64, fd, b, lab__ ? lim : n, o)); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return OP("write", label_of_fd(fd), n, syscall(SYS_pwrite64, fd, b, lab__ ? lim : n, o)); }
static size_t total(const struct iovec *v, int n) { size_t s = 0; for(int i = 0; i < n; i++) s += v[i].iov_len; return s; }
static ssize_t vec(int nr, int fd, const struct iovec *v, int n, size_t lim, int limited) {
	if(!limited || lim >= total(v, n)) return syscall(nr, fd, v, n);
	for(int i = 0; i < n; i++) if(v[i].iov_len) {
		struct iovec one = { v[i].iov_base, v[i].iov_len < lim ? v[i].iov_len : lim };
		return syscall(nr, fd, &one, 1);
	}
	return 0;
}
ssize_t readv(int fd, const struct iovec *v, int n) { return OP("read", rw_label(fd), total(v, n), vec(SYS_readv, fd, v, n, lim, lab__)); }
ssize_t writev(int fd, const struct iovec *v, int n) { return OP("write", rw_label(fd), total(v, n), vec(SYS_writev, fd, v, n, lim, lab__)); }
ssize_t copy_file_range(int a, off64_t *oa, int b, off64_t *ob, size_t n, unsigned fl) {
	return OP("copy", label_of_fd(b), n, syscall(SYS_copy_file_range, a, oa, b, ob, lab__ ? lim : n, fl));
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return OP("copy", rw_label(o), n, syscall(SYS_sendfile, o, i, off, lab__ ? lim : n)); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return OP("copy", rw_label(o), n, syscall(SYS_sendfile, o, i, off, lab__ ? lim : n)); }

// NDS_XDEV: every directory is on a file system of its own
static int xdev(const char *a, const char *b) {
	static int on = -1;
	if(on < 0) on = getenv("NDS_XDEV") != 0;
	if(!active || !on) return 0;
	char x[PATH_MAX], y[PATH_MAX];
	strncpy(x, a, sizeof x - 1); x[sizeof x - 1] = 0;
	strncpy(y, b, sizeof y - 1); y[sizeof y - 1] = 0;
	char *s = strrchr(x, '/'), *t = strrchr(y, '/'), rx[PATH_MAX], ry[PATH_MAX];
	if(s) s[s == x] = 0; else strcpy(x, ".");
	if(t) t[t == y] = 0; else strcpy(y, ".");
	if(!realpath(x, rx) || !realpath(y, ry) || strcmp(rx, ry) == 0) return 0;
	errno = EXDEV;
	return 1;
}
static int pl(const char *p) { pthread_mutex_lock(&mu); int l = label_of_path(p); pthread_mutex_unlock(&mu); return l; }
int rename(const char *a, const char *b) { pl(a); return OP("rename", pl(b), 0, xdev(a, b) ? -1 : syscall(SYS_rename, a, b)); }
int renameat(int x, const char *a, int y, const char *b) { pl(a); return OP("rename", pl(b), 0, xdev(a, b) ? -1 : syscall(SYS_renameat, x, a, y, b)); }
int renameat2(int x, const char *a, int y, const char *b, unsigned fl) { pl(a); return OP("rename", pl(b), 0, xdev(a, b) ? -1 : syscall(SYS_renameat2, x, a, y, b, fl)); }
int unlink(const char *p) { return OP("unlink", pl(p), 0, syscall(SYS_unlink, p)); }
int unlinkat(int at, const char *p, int fl) { return OP("unlink", pl(p), 0, syscall(SYS_unlinkat, at, p, fl)); }
int link(const char *a, const char *b) { pl(a); return OP("link", pl(b), 0, xdev(a, b) ? -1 : syscall(SYS_link, a, b)); }
int linkat(int x, const char *a, int y, const char *b, int fl) { pl(a); return OP("link", pl(b), 0, xdev(a, b) ? -1 : syscall(SYS_linkat, x, a, y, b, fl)); }
int chmod(const char *p, mode_t m) { return OP("chmod", pl(p), 0, syscall(SYS_chmod, p, m)); }
int fchmod(int fd, mode_t m) { return OP("chmod", label_of_fd(fd), 0, syscall(SYS_fchmod, fd, m)); }
int fchmodat(int at, const char *p, mode_t m, int fl) { return OP("chmod", pl(p), 0, syscall(SYS_fchmodat, at, p, m)); }
int fchown(int fd, uid_t u, gid_t g) { return OP("chown", label_of_fd(fd), 0, syscall(SYS_fchown, fd, u, g)); }
int ftruncate(int fd, off_t n) { return OP("truncate", label_of_fd(fd), 0, syscall(SYS_ftruncate, fd, n)); }
int ftruncate64(int fd, off64_t n) { return OP("truncate", label_of_fd(fd), 0, syscall(SYS_ftruncate, fd, n)); }
int fsync(int fd) { return OP("fsync", label_of_fd(fd), 0, syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { return OP("fsync", label_of_fd(fd), 0, syscall(SYS_fdatasync, fd)); }
int fcntl(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	int r = syscall(SYS_fcntl, fd, cmd, arg);
	if((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0) bind_fd(r, label_of_fd(fd));
	return r;
}
int fcntl64(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	int r = syscall(SYS_fcntl, fd, cmd, arg);
	if((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0) bind_fd(r, label_of_fd(fd));
	return r;
}
int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
	static int (*next)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
	if(!next) next = dlsym(RTLD_NEXT, "posix_spawnp");
	int r = OP("spawn", active ? 3 : 0, 0, -next(pid, file, fa, at, argv, envp));
	return r == -1 && errno ? errno : -r;
}
