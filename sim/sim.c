/*
 * Deterministic simulator for selint: a simulated kernel (file system, descriptors,
 * stdio devices, allocator, clock) inside one process.
 *
 * The code under test is the unmodified selint sources of /repo plus the real glibc
 * (stdio, fts, getopt, malloc users) and the real libconfuse.  Every system call they
 * make is stopped by a seccomp filter (SECCOMP_RET_TRAP) and served by the SIGSYS
 * handler below from an in-memory file system.  One job (a byte string written by the
 * driver) fixes the file system, the argument vector, the environment, the "weather"
 * (directory order, chunk sizes, inode numbers, heap contents ...) and the faults, so
 * one job is one exactly repeatable execution.
 *
 * The program is a fork server: it reads jobs on stdin and writes results on stdout.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/sysmacros.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define NOSAN __attribute__((no_sanitize("address", "undefined")))

int selint_main(int argc, char **argv);

/* ---------------------------------------------------------------- raw system calls */

extern char sim_stub_ret[];
long sim_raw(long nr, long a, long b, long c, long d, long e, long f);
__asm__(
	".text\n.globl sim_raw\n.type sim_raw,@function\nsim_raw:\n"
	"mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\n"
	"syscall\n.globl sim_stub_ret\nsim_stub_ret:\nret\n.size sim_raw,.-sim_raw\n");

/* ---------------------------------------------------------------- shared results */

#define OUT_CAP (4u << 20)
#define ERR_CAP (256u << 10)
#define LOG_CAP (4u << 20)
#define COV_BITS 65536
#define MAXFAULT 64
#define MAXFORBID 16
#define NCNT 19

enum { C_SYSCALLS, C_OPENS, C_READS, C_GETDENTS, C_WRITES, C_STATS, C_SHORTREADS, C_SHORTWRITES,
       C_MAXFD, C_OPENLEFT, C_ALLOCS, C_SHORTDENTS, C_VTIME_US, C_BYTES_READ, C_CLOSES, C_HEAPERR, C_LIVE, C_LIVEBLK, C_PEAK };

struct shared {
	uint64_t steps;
	uint64_t log_hash;
	uint64_t cnt[NCNT];
	uint32_t out_len, err_len, log_len;
	uint32_t hang;          /* step or syscall budget exhausted */
	uint32_t finished;      /* exit() reached; exit status follows */
	int32_t exit_code;
	uint32_t nforbid;
	char forbid[MAXFORBID][160];
	uint32_t fired[MAXFAULT];
	uint8_t cov[COV_BITS / 8];
	char out[OUT_CAP];
	char err[ERR_CAP];
	char log[LOG_CAP];
};
static struct shared *sh;
static int active;              /* the simulated world is on */

/* ---------------------------------------------------------------- PRNG */

static uint64_t mix64(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
/* a stateless draw: no draw depends on how often another stream was used */
static uint64_t draw(uint64_t seed, uint64_t a, uint64_t b)
{
	return mix64(mix64(mix64(seed) ^ a) ^ b);
}

/* ---------------------------------------------------------------- job */

enum { T_FILE = 0, T_DIR = 1, T_LINK = 2 };
#define F_NOREAD 1      /* EACCES on open */
#define F_NOEXEC 2      /* EACCES on search */

struct dent { char *name; int ino; int dead; };  /* dead: not there (any more, or yet) */
struct inode {
	int type, flags;
	char *data; uint32_t len;       /* file content or symlink target */
	int64_t size_lie;               /* st_size to report, -1: the truth */
	struct dent *ents; int nents;
	uint32_t dev;
	int parent, shadow;             /* shadow: not linked into its directory at the start */
	uint64_t inum;
	uint32_t opens, reads, dents, stats;   /* occurrence counters */
};
#define MAXINODE 4096
static struct inode inodes[MAXINODE];
static int ninodes;

enum { OP_OPEN, OP_READ, OP_GETDENTS, OP_STAT, OP_WRITE, OP_CLOSE, OP_FCHDIR, OP_ACCESS, OP_ALLOC, OP_TICK };
enum { A_ERRNO, A_ERRNO_STICKY, A_SHORT, A_FLIP, A_EOF, A_UNLINK, A_LINK, A_REPLACE };
struct fault { uint32_t op; int32_t ino; uint32_t nth; uint32_t act; uint32_t arg; uint32_t arg2; };
static struct fault faults[MAXFAULT];
static int nfaults;
static uint32_t opcount[16];

static struct {
	uint32_t flags;
	uint32_t fdlimit;
	uint64_t step_budget;
	uint64_t sys_budget;
	uint64_t order_seed;    /* 0: directories list in stored order */
	uint64_t read_seed;     /* 0: reads are never short */
	uint32_t read_max;      /* with read_seed: a read returns 1..read_max bytes */
	uint64_t dents_seed;    /* 0: getdents fills the buffer */
	uint64_t write_seed;    /* 0: writes are never short */
	uint32_t write_max;
	uint32_t blksize;
	uint32_t out_kind;      /* 0 pipe, 1 tty, 2 regular file */
	uint32_t nlink_mode;    /* 0: 2+subdirs, 1: always 1 (btrfs), 2: always 2 (cifs, fuse) */
	uint32_t dtype_unknown;
	uint64_t ino_seed, dev_seed, env_seed;
	uint32_t umask_set;
	uint64_t heap_seed;     /* plain flavour: 0 zero fill, otherwise garbage */
	uint32_t heap_mode;     /* 0 never reuse, 1 reuse at once, 2 addresses fall, 3 addresses rise or fall at random */
	uint32_t log_full;
	uint64_t lat_seed;
	int32_t cwd;
	uint64_t size_seed;     /* 0: st_size is the truth, 1: always 0, otherwise seeded lies */
	uint32_t err_kind, in_kind;     /* as out_kind, for descriptors 2 and 0 */
	uint32_t closed;        /* bit n: descriptor n is closed at the start */
} J;
static int cwd_ino;

/* ---------------------------------------------------------------- event log */

static void log_raw(const char *s, uint32_t n)
{
	uint64_t h = sh->log_hash;
	for (uint32_t i = 0; i < n; i++) {
		h = (h ^ (unsigned char)s[i]) * 0x100000001b3ULL;
		if (J.log_full && sh->log_len < LOG_CAP)
			sh->log[sh->log_len++] = s[i];
	}
	sh->log_hash = h;
}
static void log_s(const char *s) { uint32_t n = 0; while (s[n]) n++; log_raw(s, n); }
static void log_n(long v)
{
	char b[24]; int i = 24; int neg = v < 0; unsigned long u = neg ? -(unsigned long)v : (unsigned long)v;
	do { b[--i] = (char)('0' + u % 10); u /= 10; } while (u);
	if (neg) b[--i] = '-';
	log_raw(b + i, (uint32_t)(24 - i));
}
static void log_ino_path(int ino)
{
	int chain[64], n = 0;
	if (ino < 0) { log_s("?"); return; }
	while (ino > 0 && n < 64) { chain[n++] = ino; ino = inodes[ino].parent; }
	if (!n) log_s("/");
	while (n--) {
		struct inode *p = &inodes[inodes[chain[n]].parent];
		log_s("/");
		for (int i = 0; i < p->nents; i++)
			if (p->ents[i].ino == chain[n]) { log_s(p->ents[i].name); break; }
	}
}

static void forbid(const char *what, const char *arg)
{
	if (sh->nforbid < MAXFORBID) {
		char *d = sh->forbid[sh->nforbid]; int i = 0;
		for (; *what && i < 150; what++) d[i++] = *what;
		d[i++] = ' ';
		for (; arg && *arg && i < 158; arg++) d[i++] = *arg;
		d[i] = 0;
	}
	sh->nforbid++;
	log_s("FORBIDDEN "); log_s(what); log_s("\n");
}

static void die_hang(int why)
{
	sh->hang = (uint32_t)why;
	sim_raw(SYS_exit_group, 97, 0, 0, 0, 0, 0);
}

/* ---------------------------------------------------------------- faults */

/* returns the fault that fires for this occurrence, or NULL */
static struct fault *hit(uint32_t op, int ino, uint32_t nth_ino, uint32_t nth_any)
{
	for (int i = 0; i < nfaults; i++) {
		struct fault *f = &faults[i];
		if (f->op != op) continue;
		if (f->ino >= 0 && f->ino != ino) continue;
		uint32_t n = f->ino >= 0 ? nth_ino : nth_any;
		if (n == f->nth || (f->act == A_ERRNO_STICKY && n >= f->nth)) {
			sh->fired[i]++;
			return f;
		}
	}
	return NULL;
}

/* ---------------------------------------------------------------- descriptors */

#define MAXFD 1024
#define PASS_BASE 2000
struct vfd { int used, ino; uint64_t pos; int cloexec; };
static struct vfd fds[MAXFD];

/* ---------------------------------------------------------------- path walk */

static int lookup(int dir, const char *name, int n)
{
	struct inode *d = &inodes[dir];
	if (n == 1 && name[0] == '.') return dir;
	if (n == 2 && name[0] == '.' && name[1] == '.') return d->parent;
	for (int i = 0; i < d->nents; i++) {
		const char *e = d->ents[i].name; int k = 0;
		while (k < n && e[k] && e[k] == name[k]) k++;
		if (k == n && !e[k] && !d->ents[i].dead) return d->ents[i].ino;
	}
	return -ENOENT;
}

static int walk(int at, const char *path, int follow, int depth)
{
	if (depth > 40) return -ELOOP;
	if (!path || !*path) return -ENOENT;
	int cur = at; const char *p = path;
	uint32_t total = 0; while (path[total]) total++;
	if (total >= 4096) return -ENAMETOOLONG;
	if (*p == '/') cur = 0;
	for (;;) {
		while (*p == '/') p++;
		if (!*p) break;
		const char *e = p; while (*e && *e != '/') e++;
		int n = (int)(e - p);
		if (n > 255) return -ENAMETOOLONG;
		if (inodes[cur].type != T_DIR) return -ENOTDIR;
		if (inodes[cur].flags & F_NOEXEC) return -EACCES;
		int nx = lookup(cur, p, n);
		if (nx < 0) return nx;
		int last = 1; for (const char *q = e; *q; q++) if (*q != '/') { last = 0; break; }
		if (inodes[nx].type == T_LINK && (!last || follow || *e == '/')) {
			nx = walk(cur, inodes[nx].data, 1, depth + 1);
			if (nx < 0) return nx;
		}
		if (*e == '/' && inodes[nx].type != T_DIR) return -ENOTDIR;
		cur = nx; p = e;
	}
	return cur;
}

static int at_dir(int dfd)
{
	if (dfd == AT_FDCWD) return cwd_ino;
	if (dfd < 0 || dfd >= MAXFD || !fds[dfd].used) return -EBADF;
	if (inodes[fds[dfd].ino].type != T_DIR) return -ENOTDIR;
	return fds[dfd].ino;
}

static int starts(const char *s, const char *p) { while (*p) if (*s++ != *p++) return 0; return 1; }

/* ---------------------------------------------------------------- calls */

static void fill_stat(struct stat *st, int ino)
{
	memset(st, 0, sizeof *st);
	struct inode *n = &inodes[ino];
	st->st_dev = n->dev; st->st_ino = n->inum;
	st->st_nlink = 1; st->st_blksize = J.blksize;
	if (n->type == T_DIR) {
		st->st_mode = S_IFDIR | 0755; st->st_size = 4096;
		if (J.nlink_mode == 0) {
			uint64_t k = 2;
			for (int i = 0; i < n->nents; i++) if (inodes[n->ents[i].ino].type == T_DIR && !n->ents[i].dead) k++;
			st->st_nlink = k;
		} else if (J.nlink_mode == 2)
			st->st_nlink = 2;
	} else if (n->type == T_LINK) {
		st->st_mode = S_IFLNK | 0777; st->st_size = n->len;
	} else {
		st->st_mode = S_IFREG | ((n->flags & F_NOREAD) ? 0 : 0644);
		st->st_size = n->len;
		if (n->size_lie >= 0) st->st_size = n->size_lie;
		else if (J.size_seed == 1) st->st_size = 0;
		else if (J.size_seed) {
			uint64_t r = draw(J.size_seed, 0x737a, (uint64_t)ino);
			int64_t l = n->len;
			int64_t c[] = { 0, l, l / 2, l ? l - 1 : 0, l + 1, 4096, 1 << 20, 1LL << 62 };
			st->st_size = c[r % 8];
		}
	}
	st->st_blocks = (st->st_size + 511) / 512;
	st->st_mtime = st->st_ctime = st->st_atime = 1690000000;
	if (J.ino_seed) {       /* who made it when, how often it is linked, how it is stored */
		uint64_t r = draw(J.ino_seed, 0x6d64, (uint64_t)ino);
		static const unsigned fm[] = { 0644, 0644, 0600, 0755, 0666, 0400, 0444, 07777 }, dm[] = { 0755, 0755, 0700, 0777, 01777, 0555, 02755, 0755 };
		static const long long when[] = { 1690000000, 0, 1, 1700000001, 4000000000LL, -1, 1690000001, 1690000000 };
		if (n->type == T_FILE) {
			st->st_nlink = 1 + (r % 4 == 0 ? r / 4 % 5 : 0);
			if (st->st_mode & 0777) st->st_mode = S_IFREG | fm[r / 32 % 8];
			if (r / 256 % 4 == 0) st->st_blocks = 0;
		} else if (n->type == T_DIR) {
			st->st_mode = S_IFDIR | dm[r / 32 % 8];
			if (r / 256 % 4 == 0) st->st_size = (long)(r / 1024 % 3) * 2048;
		}
		st->st_uid = (unsigned)(r / 4096 % 3 * 500); st->st_gid = (unsigned)(r / 16384 % 3 * 1000);
		st->st_mtime = when[r / 65536 % 8]; st->st_ctime = when[r / 524288 % 8]; st->st_atime = when[r / 4194304 % 8];
	}
}

static void fill_std(struct stat *st, int fd)
{
	memset(st, 0, sizeof *st);
	st->st_dev = 7; st->st_ino = (ino_t)(77 + fd); st->st_nlink = 1; st->st_blksize = J.blksize;
	uint32_t k = fd == 0 ? J.in_kind : fd == 1 ? J.out_kind : J.err_kind;
	st->st_mode = k == 1 ? (S_IFCHR | 0620) : k == 2 ? (S_IFREG | 0644) : (S_IFIFO | 0600);
	if (k == 1) st->st_rdev = makedev(136, 1);
}

static long do_stat(int dfd, const char *path, struct stat *st, int flags)
{
	int ino;
	sh->cnt[C_STATS]++;
	if ((flags & AT_EMPTY_PATH) && path && !*path) {
		if (dfd == AT_FDCWD) ino = cwd_ino;
		else if (dfd >= 0 && dfd < MAXFD && fds[dfd].used) {
			if (dfd < 3 && fds[dfd].ino < 0) { fill_std(st, dfd); log_s("fstat std\n"); return 0; }
			ino = fds[dfd].ino;
		} else return -EBADF;
	} else {
		int at = (path && *path == '/') ? 0 : at_dir(dfd);
		if (at < 0) return at;
		ino = walk(at, path, !(flags & AT_SYMLINK_NOFOLLOW), 0);
		if (ino < 0) { log_s("stat "); log_s(path); log_s(" -> "); log_n(ino); log_s("\n"); return ino; }
	}
	struct fault *f = hit(OP_STAT, ino, inodes[ino].stats++, opcount[OP_STAT]++);
	log_s("stat "); log_ino_path(ino);
	if (f) { log_s(" FAULT "); log_n(f->arg); log_s("\n"); return -(long)f->arg; }
	log_s("\n");
	fill_stat(st, ino);
	return 0;
}

static long do_open(int dfd, const char *path, int flags)
{
	int acc = flags & O_ACCMODE;
	if (starts(path, "/proc/self/") || starts(path, "/proc/cpuinfo")) {
		long r = sim_raw(SYS_openat, AT_FDCWD, (long)path, O_RDONLY | O_CLOEXEC, 0, 0, 0);
		if (r < 0) return r;
		long n = sim_raw(SYS_fcntl, r, F_DUPFD, PASS_BASE, 0, 0, 0);
		sim_raw(SYS_close, r, 0, 0, 0, 0, 0);
		return n;
	}
	if (acc != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) {
		forbid("open-for-write", path);
		return -EROFS;
	}
	sh->cnt[C_OPENS]++;
	int at = *path == '/' ? 0 : at_dir(dfd);
	if (at < 0) return at;
	int ino = walk(at, path, !(flags & O_NOFOLLOW), 0);
	log_s("open "); log_s(path);
	if (ino < 0) { log_s(" -> "); log_n(ino); log_s("\n"); opcount[OP_OPEN]++; return ino; }
	struct inode *n = &inodes[ino];
	struct fault *f = hit(OP_OPEN, ino, n->opens++, opcount[OP_OPEN]++);
	if (f) { log_s(" FAULT "); log_n(f->arg); log_s("\n"); return -(long)f->arg; }
	if (n->type == T_LINK) { log_s(" ELOOP\n"); return -ELOOP; }
	if ((flags & O_DIRECTORY) && n->type != T_DIR) { log_s(" ENOTDIR\n"); return -ENOTDIR; }
	if (n->flags & F_NOREAD) { log_s(" EACCES\n"); return -EACCES; }
	for (int fd = 0; fd < MAXFD; fd++) {
		if (fds[fd].used) continue;
		if ((uint32_t)fd >= J.fdlimit) break;
		fds[fd].used = 1; fds[fd].ino = ino; fds[fd].pos = 0; fds[fd].cloexec = !!(flags & O_CLOEXEC);
		if ((uint64_t)fd > sh->cnt[C_MAXFD]) sh->cnt[C_MAXFD] = (uint64_t)fd;
		log_s(" -> "); log_n(fd); log_s(" @"); log_n((long)sh->cnt[C_SYSCALLS]); log_s("\n");
		return fd;
	}
	log_s(" EMFILE\n");
	return -EMFILE;
}

static long do_read(int fd, char *buf, uint64_t cnt)
{
	if (fd >= PASS_BASE) return sim_raw(SYS_read, fd, (long)buf, (long)cnt, 0, 0, 0);
	if (fd < 0 || fd >= MAXFD || !fds[fd].used) return -EBADF;
	sh->cnt[C_READS]++;
	int ino = fds[fd].ino;
	if (ino < 0) { log_s("read std\n"); return 0; }
	struct inode *n = &inodes[ino];
	uint32_t k = n->reads++;
	struct fault *f = hit(OP_READ, ino, k, opcount[OP_READ]++);
	log_s("read "); log_n(fd);
	if (f && (f->act == A_ERRNO || f->act == A_ERRNO_STICKY)) {
		log_s(" FAULT "); log_n(f->arg); log_s("\n");
		return -(long)f->arg;
	}
	if (n->type == T_DIR) { log_s(" EISDIR\n"); return -EISDIR; }
	if (f && f->act == A_EOF) { log_s(" EARLY-EOF\n"); return 0; }
	uint64_t left = fds[fd].pos < n->len ? n->len - fds[fd].pos : 0;
	uint64_t want = cnt < left ? cnt : left;
	if (want > 1 && J.read_seed) {
		uint64_t r = draw(J.read_seed, n->inum ^ 0x52, k);
		uint64_t m = J.read_max ? 1 + r % J.read_max : 1;
		if (m < want) { want = m; sh->cnt[C_SHORTREADS]++; }
	}
	if (f && f->act == A_SHORT && want > f->arg) { want = f->arg ? f->arg : 1; sh->cnt[C_SHORTREADS]++; }
	for (uint64_t i = 0; i < want; i++) buf[i] = n->data[fds[fd].pos + i];
	if (f && f->act == A_FLIP && want) buf[f->arg % want] ^= (char)(1u << (f->arg2 & 7));
	fds[fd].pos += want;
	sh->cnt[C_BYTES_READ] += want;
	log_s(" -> "); log_n((long)want); log_s("\n");
	return (long)want;
}

struct ld64 { uint64_t d_ino; int64_t d_off; unsigned short d_reclen; unsigned char d_type; char d_name[]; };

/* position p of directory ino in this run's enumeration order; the order is set up at job load */
static long do_getdents(int fd, char *buf, uint64_t cnt)
{
	if (fd < 0 || fd >= MAXFD || !fds[fd].used) return -EBADF;
	int ino = fds[fd].ino;
	if (ino < 0) return -ENOTDIR;
	struct inode *n = &inodes[ino];
	if (n->type != T_DIR) return -ENOTDIR;
	sh->cnt[C_GETDENTS]++;
	uint32_t k = n->dents++;
	struct fault *f = hit(OP_GETDENTS, ino, k, opcount[OP_GETDENTS]++);
	log_s("getdents "); log_ino_path(ino);
	if (f) {
		if (f->act == A_EOF) { log_s(" EARLY-EOF\n"); return 0; }
		log_s(" FAULT "); log_n(f->arg); log_s("\n"); return -(long)f->arg;
	}
	uint64_t total = (uint64_t)n->nents + 2, used = 0, given = 0;
	uint64_t lim = total;
	if (J.dents_seed) lim = 1 + draw(J.dents_seed, n->inum, k) % 4;
	while (fds[fd].pos < total && given < lim) {
		uint64_t p = fds[fd].pos; const char *name; int ci;
		if (p >= 2 && n->ents[p - 2].dead) { fds[fd].pos++; continue; }
		if (p == 0) { name = "."; ci = ino; }
		else if (p == 1) { name = ".."; ci = n->parent; }
		else { name = n->ents[p - 2].name; ci = n->ents[p - 2].ino; }
		uint64_t l = 0; while (name[l]) l++;
		uint64_t rl = (offsetof(struct ld64, d_name) + l + 1 + 7) & ~7ULL;
		if (used + rl > cnt) break;
		struct ld64 *d = (struct ld64 *)(void *)(buf + used);
		d->d_ino = inodes[ci].inum; d->d_off = (int64_t)(p + 1); d->d_reclen = (unsigned short)rl;
		d->d_type = J.dtype_unknown ? 0 : inodes[ci].type == T_DIR ? 4 : inodes[ci].type == T_LINK ? 10 : 8;
		for (uint64_t i = 0; i <= l; i++) d->d_name[i] = name[i];
		used += rl; fds[fd].pos++; given++;
	}
	while (fds[fd].pos >= 2 && fds[fd].pos < total && n->ents[fds[fd].pos - 2].dead) fds[fd].pos++;
	if (fds[fd].pos < total) { if (!given) return -EINVAL; sh->cnt[C_SHORTDENTS]++; }
	log_s(" -> "); log_n((long)given); log_s("\n");
	return (long)used;
}

static long do_write(int fd, const char *buf, uint64_t cnt)
{
	if (fd != 1 && fd != 2) {
		if (fd < 0 || fd >= MAXFD || !fds[fd].used) { log_s("write EBADF\n"); return -EBADF; }
		forbid("write", "to a file"); return -EBADF;
	}
	if (!fds[fd].used || fds[fd].ino >= 0) { log_s("write EBADF\n"); return -EBADF; }     /* closed, or reused for an input */
	sh->cnt[C_WRITES]++;
	/* the occurrence counters of writes: "inode" -1 any, 1 stdout, 2 stderr */
	static uint32_t wn[3]; static uint64_t wpos;
	struct fault *f = hit(OP_WRITE, fd, wn[fd]++, opcount[OP_WRITE]++);
	uint64_t n = cnt;
	log_s("write "); log_n(fd);
	if (f && f->act != A_SHORT) {
		if (f->arg2 && fd == 1 && wpos + n > f->arg2) {
			/* device with room for arg2 bytes only: write what fits, then fail */
			uint64_t room = wpos < f->arg2 ? f->arg2 - wpos : 0;
			if (room) { n = room; goto put; }
		} else if (f->arg2) goto put;
		log_s(" FAULT "); log_n(f->arg); log_s("\n");
		return -(long)f->arg;
	}
	if (n > 1 && J.write_seed && fd == 1) {
		uint64_t m = 1 + draw(J.write_seed, 0x57, wn[fd]) % (J.write_max ? J.write_max : 1);
		if (m < n) { n = m; sh->cnt[C_SHORTWRITES]++; }
	}
	if (f && f->act == A_SHORT && n > f->arg) { n = f->arg ? f->arg : 1; sh->cnt[C_SHORTWRITES]++; }
put:
	if (fd == 1) {
		wpos += n;
		for (uint64_t i = 0; i < n && sh->out_len < OUT_CAP; i++) sh->out[sh->out_len++] = buf[i];
	} else
		for (uint64_t i = 0; i < n && sh->err_len < ERR_CAP; i++) sh->err[sh->err_len++] = buf[i];
	log_s(" -> "); log_n((long)n); log_s("\n");
	return (long)n;
}

static long do_close(int fd)
{
	if (fd >= PASS_BASE) return sim_raw(SYS_close, fd, 0, 0, 0, 0, 0);
	if (fd < 0 || fd >= MAXFD || !fds[fd].used) { log_s("close EBADF\n"); return -EBADF; }
	struct fault *f = hit(OP_CLOSE, fds[fd].ino, 0, opcount[OP_CLOSE]++);
	fds[fd].used = 0;
	sh->cnt[C_CLOSES]++;
	log_s("close "); log_n(fd); log_s("\n");
	return f ? -(long)f->arg : 0;
}

static long serve(long nr, const long *a)
{
	switch (nr) {
	case SYS_read: return do_read((int)a[0], (char *)a[1], (uint64_t)a[2]);
	case SYS_pread64: {
		int fd = (int)a[0];
		if (fd < 0 || fd >= MAXFD || !fds[fd].used || fds[fd].ino < 0) return -EBADF;
		uint64_t keep = fds[fd].pos; fds[fd].pos = (uint64_t)a[3];
		long r = do_read(fd, (char *)a[1], (uint64_t)a[2]);
		fds[fd].pos = keep; return r; }
	case SYS_readv: {
		const struct iovec *v = (void *)a[1]; long t = 0;
		for (int i = 0; i < (int)a[2]; i++) {
			if (!v[i].iov_len) continue;
			long r = do_read((int)a[0], v[i].iov_base, v[i].iov_len);
			if (r < 0) return t ? t : r;
			t += r; if ((size_t)r < v[i].iov_len) break;
		}
		return t; }
	case SYS_write: return do_write((int)a[0], (char *)a[1], (uint64_t)a[2]);
	case SYS_writev: {
		const struct iovec *v = (void *)a[1]; long t = 0;
		for (int i = 0; i < (int)a[2]; i++) {
			if (!v[i].iov_len) continue;
			long r = do_write((int)a[0], v[i].iov_base, v[i].iov_len);
			if (r < 0) return t ? t : r;
			t += r; if ((size_t)r < v[i].iov_len) break;
		}
		return t; }
	case SYS_open: return do_open(AT_FDCWD, (char *)a[0], (int)a[1]);
	case SYS_openat: return do_open((int)a[0], (char *)a[1], (int)a[2]);
	case SYS_close: return do_close((int)a[0]);
	case SYS_stat: return do_stat(AT_FDCWD, (char *)a[0], (void *)a[1], 0);
	case SYS_lstat: return do_stat(AT_FDCWD, (char *)a[0], (void *)a[1], AT_SYMLINK_NOFOLLOW);
	case SYS_fstat: return do_stat((int)a[0], "", (void *)a[1], AT_EMPTY_PATH);
	case SYS_newfstatat: return do_stat((int)a[0], (char *)a[1], (void *)a[2], (int)a[3]);
	case SYS_statx: return -ENOSYS;
	case SYS_getdents64: return do_getdents((int)a[0], (char *)a[1], (uint64_t)a[2]);
	case SYS_lseek: {
		int fd = (int)a[0]; long off = a[1];
		if (fd < 0 || fd >= MAXFD || !fds[fd].used) return -EBADF;
		if (fds[fd].ino < 0) return (fd == 0 ? J.in_kind : fd == 1 ? J.out_kind : J.err_kind) == 2 ? (fd == 1 ? (long)sh->out_len : 0) : -ESPIPE;
		if (a[2] == SEEK_CUR) off += (long)fds[fd].pos;
		else if (a[2] == SEEK_END) off += (long)inodes[fds[fd].ino].len;
		if (off < 0) return -EINVAL;
		fds[fd].pos = (uint64_t)off; return off; }
	case SYS_access: case SYS_faccessat: case SYS_faccessat2: {
		int dfd = nr == SYS_access ? AT_FDCWD : (int)a[0];
		const char *p = (char *)(nr == SYS_access ? a[0] : a[1]); int mode = (int)(nr == SYS_access ? a[1] : a[2]);
		int at = *p == '/' ? 0 : at_dir(dfd);
		if (at < 0) return at;
		int ino = walk(at, p, 1, 0);
		log_s("access "); log_s(p);
		struct fault *f = hit(OP_ACCESS, ino, 0, opcount[OP_ACCESS]++);
		long r = 0;
		if (f) { log_s(" FAULT"); r = -(long)f->arg; }
		else if (ino < 0) r = ino;
		else if (mode & W_OK) r = -EROFS;
		else if ((mode & R_OK) && (inodes[ino].flags & F_NOREAD)) r = -EACCES;
		log_s(" -> "); log_n(r); log_s("\n");
		return r; }
	case SYS_readlink: case SYS_readlinkat: {
		int dfd = nr == SYS_readlink ? AT_FDCWD : (int)a[0];
		const char *p = (char *)(nr == SYS_readlink ? a[0] : a[1]);
		char *b = (char *)(nr == SYS_readlink ? a[1] : a[2]); long n = nr == SYS_readlink ? a[2] : a[3];
		if (starts(p, "/proc/self/")) return sim_raw(SYS_readlinkat, AT_FDCWD, (long)p, (long)b, n, 0, 0);
		int at = *p == '/' ? 0 : at_dir(dfd);
		if (at < 0) return at;
		int ino = walk(at, p, 0, 0);
		log_s("readlink "); log_s(p); log_s("\n");
		if (ino < 0) return ino;
		if (inodes[ino].type != T_LINK) return -EINVAL;
		long i = 0; for (; i < n && i < (long)inodes[ino].len; i++) b[i] = inodes[ino].data[i];
		return i; }
	case SYS_fchdir: {
		int d = at_dir((int)a[0]);
		log_s("fchdir "); log_n(a[0]);
		struct fault *f = hit(OP_FCHDIR, d, 0, opcount[OP_FCHDIR]++);
		if (f) { log_s(" FAULT\n"); return -(long)f->arg; }
		if (d < 0) { log_s(" bad\n"); return d; }
		log_s("\n");
		if (inodes[d].flags & F_NOEXEC) return -EACCES;
		cwd_ino = d; return 0; }
	case SYS_chdir: {
		int d = walk(cwd_ino, (char *)a[0], 1, 0);
		log_s("chdir "); log_s((char *)a[0]); log_s("\n");
		if (d < 0) return d;
		if (inodes[d].type != T_DIR) return -ENOTDIR;
		if (inodes[d].flags & F_NOEXEC) return -EACCES;
		cwd_ino = d; return 0; }
	case SYS_getcwd: {
		char tmp[1024]; int i = 1023; tmp[i] = 0; int c = cwd_ino;
		while (c > 0 && i > 260) {
			struct inode *p = &inodes[inodes[c].parent];
			for (int k = 0; k < p->nents; k++) if (p->ents[k].ino == c) {
				uint32_t l = 0; while (p->ents[k].name[l]) l++;
				while (l) tmp[--i] = p->ents[k].name[--l];
				break; }
			tmp[--i] = '/'; c = inodes[c].parent;
		}
		if (i == 1023) tmp[--i] = '/';
		if (1024 - i > a[1]) return -ERANGE;
		for (int k = i; k < 1024; k++) ((char *)a[0])[k - i] = tmp[k];
		return 1024 - i; }
	case SYS_fcntl: {
		int fd = (int)a[0];
		if (fd >= PASS_BASE) return 0;
		if (fd < 0 || fd >= MAXFD || !fds[fd].used) return -EBADF;
		switch (a[1]) {
		case F_GETFD: return fds[fd].cloexec;
		case F_SETFD: fds[fd].cloexec = (int)a[2] & 1; return 0;
		case F_GETFL: return fds[fd].ino < 0 ? O_RDWR : O_RDONLY;
		case F_SETFL: return 0;
		case F_DUPFD: case F_DUPFD_CLOEXEC:
			for (int k = (int)a[2] < 0 ? 0 : (int)a[2]; k < MAXFD && (uint32_t)k < J.fdlimit; k++)
				if (!fds[k].used) { fds[k] = fds[fd]; return k; }
			return -EMFILE;
		}
		return -EINVAL; }
	case SYS_dup:
		for (int k = 0; k < MAXFD && (uint32_t)k < J.fdlimit; k++)
			if (!fds[k].used && a[0] >= 0 && a[0] < MAXFD && fds[a[0]].used) { fds[k] = fds[a[0]]; return k; }
		return -EMFILE;
	case SYS_ioctl:
		if (a[0] >= 0 && a[0] <= 2 && fds[a[0]].used && fds[a[0]].ino < 0) {
			log_s("ioctl std\n");
			if ((a[0] == 0 ? J.in_kind : a[0] == 1 ? J.out_kind : J.err_kind) != 1) return -ENOTTY;
			if (a[1] == 0x5401) { char *b = (char *)a[2]; for (int i = 0; i < 36; i++) b[i] = 0; return 0; }
			if (a[1] == 0x5413) { unsigned short *w = (unsigned short *)a[2]; w[0] = 24; w[1] = 80; w[2] = w[3] = 0; return 0; }
			return -EINVAL;
		}
		return -ENOTTY;
	case SYS_fsync: case SYS_fdatasync: return 0;
	case SYS_statfs: case SYS_fstatfs: {
		static const long types[] = { 0xEF53, 0x6969, 0x01021994, 0x58465342, 0x9123683E, 0x794c7630, 0x65735546, 0xff534d42 };
		if (nr == SYS_statfs) {
			struct stat st;
			long e = do_stat(AT_FDCWD, (char *)a[0], &st, 0);
			if (e) return e;
		} else if (a[0] < 0 || a[0] >= MAXFD || (a[0] > 2 && !fds[a[0]].used)) return -EBADF;
		struct statfs *f = (void *)a[1];
		memset(f, 0, sizeof *f);
		f->f_type = types[J.dev_seed % 8]; f->f_bsize = J.blksize; f->f_blocks = 1 << 20;
		f->f_bfree = f->f_bavail = draw(J.dev_seed, 0x7366, 0) % (1 << 20); f->f_namelen = 255;
		return 0; }
	case SYS_fadvise64: return 0;
	case SYS_getrandom: {
		for (long i = 0; i < a[1]; i++) ((char *)a[0])[i] = (char)draw(J.ino_seed ^ J.heap_seed, 0x6772, (uint64_t)i);
		log_s("getrandom\n");
		return a[1]; }
	case SYS_getpid: return 1000 + (long)(J.ino_seed % 30000);
	case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: {
		static const long ids[] = { 0, 1000, 65534, 0 };
		return ids[J.env_seed / 3 % 4]; }
	case SYS_getppid: case SYS_getpgrp: case SYS_getsid: case SYS_getpgid: return 1 + (long)(J.env_seed / 7 % 900);
	case SYS_getgroups: return 0;
	case SYS_umask: {
		static const unsigned masks[] = { 022, 077, 0, 027 };
		long was = J.umask_set ? (long)(J.umask_set - 1) : (long)masks[J.env_seed / 11 % 4];
		J.umask_set = (uint32_t)(a[0] & 0777) + 1;
		return was; }
	case SYS_uname: {
		struct utsname *u = (void *)a[0];
		static const char *const hosts[] = { "localhost", "build-7", "(none)", "x" }, *const rels[] = { "6.1.0", "3.10.0-1160.el7", "5.15.0-selinux", "6.12.1" };
		memset(u, 0, sizeof *u);
		strcpy(u->sysname, "Linux"); strcpy(u->machine, "x86_64"); strcpy(u->version, "#1 SMP"); strcpy(u->domainname, "(none)");
		strcpy(u->nodename, hosts[J.env_seed / 13 % 4]); strcpy(u->release, rels[J.env_seed / 17 % 4]);
		return 0; }
	case SYS_sysinfo: {
		struct sysinfo *i = (void *)a[0];
		memset(i, 0, sizeof *i);
		i->uptime = (long)(J.env_seed % 100000); i->mem_unit = 1; i->procs = 3;
		i->totalram = 1UL << (26 + J.env_seed / 19 % 10); i->freeram = i->totalram >> (J.env_seed / 23 % 8);
		return 0; }
	case SYS_sched_getaffinity: {
		static const unsigned cpus[] = { 8, 1, 2, 64 };
		unsigned n = cpus[J.env_seed / 29 % 4];
		if (a[1] < 8) return -EINVAL;
		memset((void *)a[2], 0, (size_t)a[1]);
		for (unsigned i = 0; i < n; i++) ((unsigned char *)a[2])[i / 8] |= (unsigned char)(1 << i % 8);
		return 8; }
	case SYS_prlimit64: case SYS_getrlimit: {
		unsigned res = (unsigned)(nr == SYS_getrlimit ? a[0] : a[1]);
		struct rlimit *l = (void *)(nr == SYS_getrlimit ? a[1] : a[3]);
		if (res != RLIMIT_NOFILE || !l || (nr == SYS_prlimit64 && a[2])) return sim_raw(nr, a[0], a[1], a[2], a[3], 0, 0);
		l->rlim_cur = J.fdlimit; l->rlim_max = J.fdlimit > 4096 ? J.fdlimit : 4096;
		return 0; }
	case SYS_getrusage: memset((void *)a[1], 0, sizeof(struct rusage)); ((struct rusage *)a[1])->ru_utime.tv_usec = (long)(sh->cnt[C_VTIME_US] % 1000000); return 0;
	case SYS_times: return (long)(sh->cnt[C_VTIME_US] / 10000) + 100000;
	case SYS_clock_gettime: case SYS_gettimeofday: case SYS_time: {
		uint64_t us = (J.lat_seed ? draw(J.lat_seed, 0x636c, 0) % 4200000000000000ULL : 1700000000000000ULL) + sh->cnt[C_VTIME_US];
		if (nr == SYS_clock_gettime) { struct timespec *t = (void *)a[1]; t->tv_sec = (time_t)(us / 1000000); t->tv_nsec = (long)(us % 1000000) * 1000; return 0; }
		if (nr == SYS_gettimeofday) { struct timeval *t = (void *)a[0]; t->tv_sec = (time_t)(us / 1000000); t->tv_usec = (long)(us % 1000000); return 0; }
		return (long)(us / 1000000); }
	case SYS_tgkill: case SYS_tkill: case SYS_kill:
		/* abort() and raise(): the process may only signal itself */
		log_s("signal-self\n");
		{
			long sig = nr == SYS_tgkill ? a[2] : a[1];
			long pid = sim_raw(SYS_getpid, 0, 0, 0, 0, 0, 0);
			return sim_raw(SYS_tgkill, pid, pid, sig, 0, 0, 0);
		}
	}
	static const struct { long nr; const char *n; int patharg; } bad[] = {
		{ SYS_unlink, "unlink", 0 }, { SYS_unlinkat, "unlinkat", 1 }, { SYS_rename, "rename", 0 }, { SYS_renameat, "renameat", 1 },
		{ SYS_renameat2, "renameat2", 1 }, { SYS_mkdir, "mkdir", 0 }, { SYS_mkdirat, "mkdirat", 1 }, { SYS_rmdir, "rmdir", 0 },
		{ SYS_creat, "creat", 0 }, { SYS_truncate, "truncate", 0 }, { SYS_chmod, "chmod", 0 }, { SYS_link, "link", 0 },
		{ SYS_symlink, "symlink", 1 }, { SYS_mknod, "mknod", 0 }, { SYS_utimensat, "utimensat", 1 }, { SYS_execve, "execve", 0 },
		{ SYS_chown, "chown", 0 }, { SYS_fchmodat, "fchmodat", 1 },
	};
	for (unsigned i = 0; i < sizeof bad / sizeof *bad; i++)
		if (bad[i].nr == nr) { forbid(bad[i].n, (const char *)a[bad[i].patharg]); return -EROFS; }
	if (nr == SYS_fork || nr == SYS_vfork || nr == SYS_clone || nr == SYS_clone3) { forbid("fork", ""); return -EAGAIN; }
	if (nr == SYS_socket || nr == SYS_connect) { forbid("socket", ""); return -EACCES; }
	if (nr == SYS_ftruncate || nr == SYS_fchmod || nr == SYS_fchown || nr == SYS_fallocate || nr == SYS_pwrite64) { forbid("file modification", ""); return -EROFS; }
	log_s("ENOSYS "); log_n(nr); log_s("\n");
	return -ENOSYS;
}

/* another program unlinks, links, or renames a file over the one of the same name */
NOSAN static void edit(int i)
{
	int ino = faults[i].ino, own = -1;
	struct inode *d = &inodes[inodes[ino].parent];
	for (int k = 0; k < d->nents; k++) if (d->ents[k].ino == ino) { own = k; break; }
	if (own < 0) return;
	if (faults[i].act == A_REPLACE) {
		for (int k = 0; k < d->nents; k++) {
			if (k == own || d->ents[k].dead) continue;
			const char *x = d->ents[k].name, *y = d->ents[own].name;
			while (*x && *x == *y) { x++; y++; }
			if (*x || *y) continue;
			d->ents[k].ino = ino;           /* the name keeps its place in the directory */
			log_s("EDIT replace "); log_ino_path(ino); log_s("\n");
			sh->fired[i]++;
			return;
		}
		d->ents[own].dead = 0;
	} else d->ents[own].dead = faults[i].act == A_UNLINK;
	log_s(d->ents[own].dead ? "EDIT unlink " : "EDIT link "); log_ino_path(ino); log_s("\n");
	sh->fired[i]++;
}

NOSAN static void on_sigsys(int sig, siginfo_t *si, void *uc)
{
	(void)sig; (void)si;
	ucontext_t *u = uc;
	greg_t *r = u->uc_mcontext.gregs;
	long a[6] = { r[REG_RDI], r[REG_RSI], r[REG_RDX], r[REG_R10], r[REG_R8], r[REG_R9] };
	long nr = si->si_syscall;
	uint64_t n = ++sh->cnt[C_SYSCALLS];
	if (J.lat_seed) {
		uint64_t d = draw(J.lat_seed, 0x6c61, n);
		sh->cnt[C_VTIME_US] += (d % 1000 == 0) ? 1000000 + d % 7000000 : d % 200;   /* now and then a stalled device */
	} else sh->cnt[C_VTIME_US] += 5;
	if (n > J.sys_budget) die_hang(2);
	for (int i = 0; i < nfaults; i++)       /* other programs at work on the tree */
		if (faults[i].op == OP_TICK && faults[i].nth + 1 == n && faults[i].ino >= 0 && faults[i].ino < ninodes) {
			edit(i);
		}
	r[REG_RAX] = serve(nr, a);
}

/* libc reads these through the vDSO, which no filter sees */
NOSAN int clock_gettime(clockid_t c, struct timespec *t)
{
	if (!active) return (int)sim_raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
	uint64_t us = (J.lat_seed ? draw(J.lat_seed, 0x636c, 0) % 4200000000000000ULL : 1700000000000000ULL) + sh->cnt[C_VTIME_US];
	t->tv_sec = (time_t)(us / 1000000); t->tv_nsec = (long)(us % 1000000) * 1000;
	return 0;
}
NOSAN int gettimeofday(struct timeval *restrict t, void *restrict z)
{
	(void)z;
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
NOSAN time_t time(time_t *p)
{
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	if (p) *p = ts.tv_sec;
	return ts.tv_sec;
}

/* ---------------------------------------------------------------- step clock and coverage */

static uint64_t text_base;
NOSAN void __sanitizer_cov_trace_pc(void)
{
	if (!active) return;
	uint64_t pc = (uint64_t)__builtin_return_address(0) - text_base;
	uint32_t h = (uint32_t)(mix64(pc) & (COV_BITS - 1));
	sh->cov[h >> 3] |= (uint8_t)(1u << (h & 7));
	if (++sh->steps > J.step_budget) die_hang(1);
}

/* ---------------------------------------------------------------- allocator (plain flavour) */

#ifdef SIM_PLAIN
#define ARENA (3ull << 30)
#define BOOT (64ull << 20)
static char *ar_lo, *ar_cur, *ar_end;
static uint64_t an;
struct hdr { uint64_t magic; uint64_t size; uint64_t cap; uint64_t canary; };
#define M_LIVE 0x53494d4c49564531ULL
#define M_DEAD 0x53494d4445414431ULL
#define M_BOOT 0x53494d424f4f5431ULL
static struct hdr *freelist[64];

static void heap_fatal(const char *m)
{
	if (sh && active) {
		sh->cnt[C_HEAPERR]++;
		static const char p[] = "SIMHEAP: ";
		for (const char *s = p; *s && sh->err_len < ERR_CAP; s++) sh->err[sh->err_len++] = *s;
		for (; *m && sh->err_len < ERR_CAP; m++) sh->err[sh->err_len++] = *m;
		if (sh->err_len < ERR_CAP) sh->err[sh->err_len++] = '\n';
	}
	sim_raw(SYS_exit_group, 96, 0, 0, 0, 0, 0);
}
static void ar_init(void)
{
	ar_lo = (char *)sim_raw(SYS_mmap, 0, BOOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	ar_cur = ar_lo; ar_end = ar_lo + BOOT;
}
/* a fresh arena for the simulated process, at a seeded address */
static void ar_child(void)
{
	uint64_t at = 0x200000000000ULL + (draw(J.heap_seed, 0x6164, 1) % 0x10000000ULL) * 4096;
	ar_lo = (char *)sim_raw(SYS_mmap, (long)at, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	ar_cur = ar_lo; ar_end = ar_lo + ARENA;
	an = 0;
}
static void garbage(char *p, uint64_t n, uint64_t id)
{
	if (J.heap_seed == 0) { for (uint64_t i = 0; i < n; i++) p[i] = 0; return; }
	/* two kinds of leftovers: noise, or text that looks like policy */
	static const char txt[] = "foo_t:file read W-001 system_u object_r s0 /usr/bin base=module ";
	uint64_t m = draw(J.heap_seed, 0x67, id);
	if (m & 1) { uint64_t o = m >> 8; for (uint64_t i = 0; i < n; i++) p[i] = txt[(o + i) % (sizeof txt - 1)]; }
	else for (uint64_t i = 0; i < n; i += 8) { uint64_t r = mix64(m + i); for (uint64_t k = 0; k < 8 && i + k < n; k++) p[i + k] = (char)(r >> (8 * k)); }
}
static uint64_t canary_of(struct hdr *h) { return mix64((uint64_t)h ^ 0xca4a); }

void *malloc(size_t n)
{
	if (!ar_lo) ar_init();
	uint64_t id = an++;
	if (active) {
		sh->cnt[C_ALLOCS]++;
		struct fault *f = hit(OP_ALLOC, -1, (uint32_t)id, (uint32_t)id);
		if (f || n > (1ull << 30)) { log_s("alloc FAULT\n"); errno = ENOMEM; return NULL; }
	}
	uint64_t cap = (n + 15) & ~15ULL;
	if (!cap) cap = 16;
	struct hdr *h = NULL;
	unsigned cls = cap / 16 < 64 ? (unsigned)(cap / 16) : 0;
	if (active && J.heap_mode == 1 && cls && freelist[cls]) {
		h = freelist[cls]; freelist[cls] = *(struct hdr **)(h + 1);
	} else {
		uint64_t gap = active && J.heap_seed ? (draw(J.heap_seed, 0x6770, id) % 8) * 16 : 0;
		if (ar_cur + gap + sizeof *h + cap + 16 > ar_end) { errno = ENOMEM; return NULL; }
		if (active && (J.heap_mode == 2 || (J.heap_mode == 3 && draw(J.heap_seed, 0x6475, id) & 1))) {
			ar_end -= gap + sizeof *h + cap + 16;
			h = (struct hdr *)(void *)ar_end;
		} else {
			h = (struct hdr *)(void *)(ar_cur + gap);
			ar_cur += gap + sizeof *h + cap + 16;
		}
	}
	if (active) {
		sh->cnt[C_LIVEBLK]++; sh->cnt[C_LIVE] += n;
		if (sh->cnt[C_LIVE] > sh->cnt[C_PEAK]) sh->cnt[C_PEAK] = sh->cnt[C_LIVE];
	}
	h->magic = active ? M_LIVE : M_BOOT; h->size = n; h->cap = cap; h->canary = canary_of(h);
	char *p = (char *)(h + 1);
	if (active) {
		garbage(p, cap, id);
		for (int i = 0; i < 16; i++) p[cap + (uint64_t)i] = (char)(0xA5 ^ i);
		for (uint64_t i = n; i < cap; i++) p[i] = (char)0xC3;
	}
	return p;
}
static void chk(struct hdr *h)
{
	if (h->magic == M_BOOT) return;
	if (h->magic == M_DEAD) heap_fatal("double free or use of a freed block");
	if (h->magic != M_LIVE || h->canary != canary_of(h)) heap_fatal("free of a bad pointer or heap header overwritten");
	char *p = (char *)(h + 1);
	for (uint64_t i = h->size; i < h->cap; i++) if (p[i] != (char)0xC3) heap_fatal("write past the end of a heap block");
	for (int i = 0; i < 16; i++) if (p[h->cap + (uint64_t)i] != (char)(0xA5 ^ i)) heap_fatal("write past the end of a heap block");
}
void free(void *q)
{
	if (!q || !active) return;
	struct hdr *h = (struct hdr *)q - 1;
	chk(h);
	if (h->magic == M_BOOT) return;
	h->magic = M_DEAD;
	sh->cnt[C_LIVEBLK]--; sh->cnt[C_LIVE] -= h->size;
	for (uint64_t i = 0; i < h->cap; i++) ((char *)q)[i] = (char)(J.heap_seed ? 0xDB : 0);
	if (J.heap_mode == 1 && h->cap / 16 < 64) {
		*(struct hdr **)q = freelist[h->cap / 16]; freelist[h->cap / 16] = h;
	}
}
void *calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	char *p = malloc(n);
	if (p) for (size_t i = 0; i < n; i++) p[i] = 0;
	return p;
}
void *realloc(void *q, size_t n)
{
	if (!q) return malloc(n);
	if (!n) { free(q); return NULL; }
	struct hdr *h = (struct hdr *)q - 1;
	if (active) chk(h);
	void *p = malloc(n);
	if (!p) return NULL;
	uint64_t k = h->size < n ? h->size : n;
	for (uint64_t i = 0; i < k; i++) ((char *)p)[i] = ((char *)q)[i];
	free(q);
	return p;
}
int posix_memalign(void **o, size_t al, size_t n)
{
	(void)al; *o = malloc(n); return *o ? 0 : ENOMEM;
}
void *memalign(size_t al, size_t n) { (void)al; return malloc(n); }
void *aligned_alloc(size_t al, size_t n) { (void)al; return malloc(n); }
size_t malloc_usable_size(void *q) { return q ? ((struct hdr *)q - 1)->size : 0; }
#endif

/* whatever variable the program asks for may be set */
char *getenv(const char *name)
{
	static char *const val[] = { "1", "", "0", "yes", "/w/policy", "/w/selint.conf", "/w/other.conf", "/nonexistent", "convention", "error", "W-001", "/w", "20", "never", "always" };
	size_t n = strlen(name);
	uint64_t h = 7;
	for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
	if (!active || !J.env_seed) return NULL;
	for (size_t i = 0; i < n; i++) h = mix64(h ^ (unsigned char)name[i]);
	h = draw(J.env_seed, 0x656e, h);
	return h % 4 ? val[h / 4 % (sizeof val / sizeof *val)] : NULL;
}
char *secure_getenv(const char *name) { return getenv(name); }

const char *__asan_default_options(void)
{
	return "detect_leaks=0:symbolize=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:"
	       "handle_abort=1:print_stacktrace=1:quarantine_size_mb=4:malloc_context_size=8:max_redzone=64";
}
const char *__ubsan_default_options(void) { return "halt_on_error=1:exitcode=98:print_stacktrace=1:symbolize=0"; }

/* ---------------------------------------------------------------- job decoding */

static const unsigned char *jp, *je;
static uint64_t g64(void) { uint64_t v = 0; if (je - jp < 8) _exit(90); memcpy(&v, jp, 8); jp += 8; return v; }
static uint32_t g32(void) { uint32_t v = 0; if (je - jp < 4) _exit(90); memcpy(&v, jp, 4); jp += 4; return v; }
static char *gstr(uint32_t *len)
{
	uint32_t n = g32();
	if ((uint64_t)(je - jp) < (uint64_t)n + 1) _exit(90);
	char *s = (char *)(uintptr_t)jp;          /* the driver adds a NUL after each string */
	jp += n + 1;
	if (len) *len = n;
	return s;
}

#define MAXARG 256
static char *xargv[MAXARG + 1]; static int xargc;
static char *xenv[MAXARG + 1]; static int xenvc;
static struct dent *dentpool; static size_t dentcap, dentn;

static void load_job(const unsigned char *b, uint32_t n)
{
	jp = b; je = b + n;
	J.flags = g32(); J.fdlimit = g32(); J.step_budget = g64(); J.sys_budget = g64();
	J.order_seed = g64(); J.read_seed = g64(); J.read_max = g32(); J.dents_seed = g64();
	J.write_seed = g64(); J.write_max = g32(); J.blksize = g32(); J.out_kind = g32();
	J.nlink_mode = g32(); J.dtype_unknown = g32(); J.ino_seed = g64(); J.heap_seed = g64();
	J.heap_mode = g32(); J.log_full = g32(); J.lat_seed = g64(); J.cwd = (int32_t)g32();
	J.size_seed = g64(); J.err_kind = g32(); J.in_kind = g32(); J.closed = g32(); J.dev_seed = g64(); J.env_seed = g64();
	xargc = (int)g32(); if (xargc > MAXARG) _exit(90);
	for (int i = 0; i < xargc; i++) xargv[i] = gstr(NULL);
	xargv[xargc] = NULL;
	xenvc = (int)g32(); if (xenvc > MAXARG) _exit(90);
	for (int i = 0; i < xenvc; i++) xenv[i] = gstr(NULL);
	xenv[xenvc] = NULL;
	nfaults = (int)g32(); if (nfaults > MAXFAULT) _exit(90);
	for (int i = 0; i < nfaults; i++) {
		faults[i].op = g32(); faults[i].ino = (int32_t)g32(); faults[i].nth = g32();
		faults[i].act = g32(); faults[i].arg = g32(); faults[i].arg2 = g32();
	}
	ninodes = (int)g32(); if (ninodes > MAXINODE || ninodes < 1) _exit(90);
	uint32_t tot = g32(); if (tot > dentcap) { dentcap = tot * 2 + 64; dentpool = realloc(dentpool, dentcap * sizeof *dentpool); }
	dentn = 0;
	memset(inodes, 0, sizeof inodes[0] * (size_t)ninodes);
	for (int i = 0; i < ninodes; i++) {
		struct inode *x = &inodes[i];
		x->type = (int)g32(); x->flags = (int)g32(); x->shadow = (int)g32(); x->size_lie = (int64_t)g64();
		x->inum = 1000 + (uint64_t)i * 3;
		if (J.ino_seed) x->inum = (draw(J.ino_seed, 0x696e, (uint64_t)i) >> 16) * 4096 + (uint64_t)i + 1;
		if (x->type == T_DIR) {
			x->nents = (int)g32(); x->ents = dentpool + dentn; dentn += (size_t)x->nents;
			if (dentn > dentcap) _exit(90);
			for (int k = 0; k < x->nents; k++) { x->ents[k].name = gstr(NULL); x->ents[k].ino = (int)g32(); if (x->ents[k].ino >= ninodes) _exit(90); }
			if (J.order_seed)
				for (int k = x->nents - 1; k > 0; k--) {
					int r = (int)(draw(J.order_seed, (uint64_t)i, (uint64_t)k) % (uint64_t)(k + 1));
					struct dent t = x->ents[k]; x->ents[k] = x->ents[r]; x->ents[r] = t;
				}
		} else x->data = gstr(&x->len);
	}
	for (int i = 0; i < ninodes; i++)
		if (inodes[i].type == T_DIR)
			for (int k = 0; k < inodes[i].nents; k++) {
				struct dent *e = &inodes[i].ents[k];
				inodes[e->ino].parent = i; e->dead = inodes[e->ino].shadow;
			}
	inodes[0].parent = 0;
	/* file systems mounted below: their inode numbers repeat those of others */
	for (int i = 0; i < ninodes; i++) inodes[i].dev = 42;
	if (J.dev_seed) {
		static uint32_t used[MAXINODE];
		memset(used, 0, sizeof used[0] * (size_t)ninodes);
		for (int i = 0; i < ninodes; i++) {
			int top = inodes[i].type == T_DIR ? i : inodes[i].parent;
			for (int k = 0; k < 200 && top && draw(J.dev_seed, 0x6d6e, (uint64_t)top) % 3; k++) top = inodes[top].parent;
			inodes[i].dev = 42 + (uint32_t)top;
			inodes[i].inum = 2 + used[top]++;
		}
	}
}

/* ---------------------------------------------------------------- running one job */

static void install_filter(void)
{
	uint64_t ip = (uint64_t)sim_stub_ret;
	/* calls that concern only this process's memory, signals and exit run natively */
	static const unsigned pass[] = {
		SYS_mmap, SYS_munmap, SYS_mprotect, SYS_mremap, SYS_brk, SYS_madvise, SYS_futex, SYS_rt_sigaction,
		SYS_rt_sigprocmask, SYS_rt_sigreturn, SYS_sigaltstack, SYS_exit, SYS_exit_group, SYS_gettid,
		SYS_sched_yield, SYS_restart_syscall, SYS_prctl,
	};
	enum { NP = sizeof pass / sizeof *pass };
	struct sock_filter f[NP + 16]; int n = 0;
#define ST(code, k) f[n++] = (struct sock_filter)BPF_STMT(code, k)
#define JM(code, k, t, e) f[n++] = (struct sock_filter)BPF_JUMP(code, k, t, e)
	ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
	JM(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3);
	ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
	JM(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1);
	ST(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
	for (int i = 0; i < NP; i++) JM(BPF_JMP | BPF_JEQ | BPF_K, pass[i], (uint8_t)(NP - i), 0);
	ST(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
	ST(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	struct sock_fprog p = { (unsigned short)n, f };
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) {
		static const char m[] = "sim: cannot install the seccomp filter\n";
		sim_raw(SYS_write, 2, (long)m, sizeof m - 1, 0, 0, 0);
		sim_raw(SYS_exit_group, 91, 0, 0, 0, 0, 0);
	}
}

static void at_end(int code, void *x)
{
	(void)x;
	/* runs first among the exit handlers' peers or last: only records the status */
	sh->finished = 1; sh->exit_code = code;
}

extern char **environ;
static char **empty_env;

static void child(void)
{
	struct rlimit rl = { 20, 21 };
	setrlimit(RLIMIT_CPU, &rl);
	rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
	if (J.flags) { rl.rlim_cur = rl.rlim_max = (rlim_t)J.flags << 10; setrlimit(RLIMIT_STACK, &rl); }	/* kilobytes of stack */
	environ = xenvc ? xenv : empty_env;
	on_exit(at_end, NULL);
	memset(fds, 0, sizeof fds);
	for (int i = 0; i < 3; i++) { fds[i].used = !(J.closed >> i & 1); fds[i].ino = -1; }
	cwd_ino = J.cwd;
	memset(opcount, 0, sizeof opcount);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_sigsys; sa.sa_flags = SA_SIGINFO;
	sigaction(SIGSYS, &sa, NULL);
#ifdef SIM_PLAIN
	ar_child();
#endif
	install_filter();
	active = 1;
	int rc = selint_main(xargc, xargv);
	exit(rc);
}

static int rd(void *b, size_t n)
{
	char *p = b;
	while (n) { ssize_t r = read(0, p, n); if (r <= 0) return 0; p += r; n -= (size_t)r; }
	return 1;
}
static void wr(const void *b, size_t n)
{
	const char *p = b;
	while (n) { ssize_t r = write(3, p, n); if (r <= 0) _exit(92); p += r; n -= (size_t)r; }
}

int main(int argc, char **argv)
{
	(void)argc;
	/* fixed addresses: the layout must not differ between two processes */
	int pers = personality(0xffffffff);
	if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned)pers | ADDR_NO_RANDOMIZE) >= 0)
		execv("/proc/self/exe", argv);
	extern char __executable_start[];
	text_base = (uint64_t)__executable_start;
	/* results go out on descriptor 3; 1 and 2 belong to the simulated process */
	if (dup2(1, 3) != 3) return 93;
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sh == MAP_FAILED) return 94;
	static char *noenv[1]; empty_env = noenv;
	unsigned char *job = NULL; uint32_t cap = 0;
	for (;;) {
		uint32_t n;
		if (!rd(&n, 4)) return 0;
		if (n > cap) { cap = n * 2; job = realloc(job, cap); if (!job) return 95; }
		if (!rd(job, n)) return 0;
		memset(sh, 0, offsetof(struct shared, out));
		sh->log_hash = 0xcbf29ce484222325ULL;
		load_job(job, n);
		pid_t p = fork();
		if (p == 0) child();
		if (p < 0) return 96;
		int st = 0;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		int left = 0;
		(void)left;
		uint32_t h[4] = { (uint32_t)st, sh->out_len, sh->err_len, sh->log_len };
		uint32_t nf = sh->nforbid < MAXFORBID ? sh->nforbid : MAXFORBID;
		wr(h, sizeof h);
		wr(&sh->steps, 8); wr(&sh->log_hash, 8); wr(sh->cnt, sizeof sh->cnt);
		wr(&sh->hang, 4); wr(&sh->finished, 4); wr(&sh->exit_code, 4); wr(&sh->nforbid, 4);
		wr(sh->fired, sizeof sh->fired); wr(sh->cov, sizeof sh->cov);
		wr(sh->forbid, nf * sizeof sh->forbid[0]);
		wr(sh->out, sh->out_len); wr(sh->err, sh->err_len); wr(sh->log, sh->log_len);
	}
}
