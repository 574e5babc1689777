// Preloaded seam between the simulated process and its allocator and system calls.
// Everything is off until the simulator arms it.
#define _GNU_SOURCE 1
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include <malloc.h>
#include <new>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);

// ---- allocator seam -------------------------------------------------------
// new_*: operator new / new[]; mal_*: malloc family (numpy, CPython)
volatile int shim_new_armed = 0;
volatile int shim_mal_armed = 0;
volatile long shim_new_count = 0;      // operator new calls while armed
volatile long shim_new_fail_at = -1;   // fail this (0-based) operator new call
volatile long shim_new_fail_len = 1;   // and this many consecutive ones
volatile long shim_new_failed = 0;
volatile int shim_new_poison = -1;     // byte pattern for fresh native memory
volatile long shim_new_live = 0;       // operator new minus delete while armed
volatile long shim_new_live_bytes = 0;
volatile long shim_mal_count = 0;
volatile long shim_mal_min = 1;
volatile long shim_mal_fail_at = -1;
volatile long shim_mal_fail_len = 1;
volatile long shim_mal_failed = 0;
volatile int shim_free_poison = -1;    // byte pattern left in freed memory
volatile int shim_mal_poison = -1;     // byte pattern for fresh malloc memory >= shim_mal_min
int (*volatile shim_gil_check)(void) = 0;
}

static __thread int in_shim = 0;

// accounting of live heap memory: what was handed out minus what was given back, since it was armed
extern "C" {
volatile int shim_live_armed = 0;
volatile long shim_live_bytes = 0;
volatile long shim_live_blocks = 0;
}
static inline void *got(void *p)
{
	if (shim_live_armed && p)
	{
		__atomic_add_fetch(&shim_live_bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
		__atomic_add_fetch(&shim_live_blocks, 1, __ATOMIC_RELAXED);
	}
	return p;
}
static inline void gone(void *p)
{
	if (shim_live_armed && p)
	{
		__atomic_sub_fetch(&shim_live_bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
		__atomic_sub_fetch(&shim_live_blocks, 1, __ATOMIC_RELAXED);
	}
}

// live table for operator new blocks allocated while armed
#define TAB (1 << 16)
static void *tab_p[TAB];
static size_t tab_n[TAB];
static inline unsigned hsh(void *p) { return (unsigned)((((uintptr_t)p) >> 4) * 2654435761u) & (TAB - 1); }
static void *const TOMB = (void *)1;
static void tab_add(void *p, size_t n)
{
	unsigned h = hsh(p);
	for (unsigned i = 0; i < TAB; i++)
	{
		unsigned k = (h + i) & (TAB - 1);
		if (!tab_p[k] || tab_p[k] == TOMB)
		{
			tab_p[k] = p;
			tab_n[k] = n;
			shim_new_live++;
			shim_new_live_bytes += n;
			return;
		}
	}
}
static void tab_del(void *p)
{
	if (!shim_new_live)
		return;
	unsigned h = hsh(p);
	for (unsigned i = 0; i < TAB; i++)
	{
		unsigned k = (h + i) & (TAB - 1);
		if (!tab_p[k])
			return;
		if (tab_p[k] == p)
		{
			tab_p[k] = TOMB;
			shim_new_live--;
			shim_new_live_bytes -= tab_n[k];
			return;
		}
	}
}
extern "C" void shim_reset_live()
{
	memset(tab_p, 0, sizeof tab_p);
	shim_new_live = 0;
	shim_new_live_bytes = 0;
}

static void *do_new(size_t n, bool can_throw)
{
	if (!shim_new_armed || in_shim)
	{
		void *p = got(__libc_malloc(n ? n : 1));
		if (!p && can_throw)
			throw std::bad_alloc();
		return p;
	}
	long c = shim_new_count++;
	if (shim_new_fail_at >= 0 && c >= shim_new_fail_at && c < shim_new_fail_at + shim_new_fail_len)
	{
		shim_new_failed++;
		if (can_throw)
			throw std::bad_alloc();
		return 0;
	}
	void *p = got(__libc_malloc(n ? n : 1));
	if (!p)
	{
		if (can_throw)
			throw std::bad_alloc();
		return 0;
	}
	if (shim_new_poison >= 0)
		memset(p, shim_new_poison, n);
	tab_add(p, n);
	return p;
}
static void do_del(void *p)
{
	if (p)
		tab_del(p);
	gone(p);
	__libc_free(p);
}
void *operator new(size_t n) { return do_new(n, true); }
void *operator new[](size_t n) { return do_new(n, true); }
void *operator new(size_t n, const std::nothrow_t &) noexcept
{
	try { return do_new(n, false); } catch (...) { return 0; }
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept
{
	try { return do_new(n, false); } catch (...) { return 0; }
}
void operator delete(void *p) noexcept { do_del(p); }
void operator delete[](void *p) noexcept { do_del(p); }
void operator delete(void *p, size_t) noexcept { do_del(p); }
void operator delete[](void *p, size_t) noexcept { do_del(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_del(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_del(p); }

static inline int mal_fail(size_t n)
{
	if ((long)n < shim_mal_min)
		return 0;
	// numpy raises MemoryError from buffers it allocates without the interpreter lock, which crashes: not failed
	static int (*gil)(void) = 0;
	if (!gil)
		gil = (int (*)(void))dlsym(RTLD_DEFAULT, "PyGILState_Check");
	if (shim_mal_fail_at >= 0 && gil && !gil())
		return 0;
	long c = shim_mal_count++;
	if (shim_mal_fail_at >= 0 && c >= shim_mal_fail_at && c < shim_mal_fail_at + shim_mal_fail_len)
	{
		shim_mal_failed++;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}
extern "C" void *malloc(size_t n)
{
	if (shim_mal_armed && !in_shim)
	{
		if (mal_fail(n))
			return 0;
		void *p = got(__libc_malloc(n));
		if (p && shim_mal_poison >= 0 && (long)n >= shim_mal_min)
			memset(p, shim_mal_poison, n);
		return p;
	}
	return got(__libc_malloc(n));
}
extern "C" void *calloc(size_t a, size_t b)
{
	if (shim_mal_armed && !in_shim && mal_fail(a * b))
		return 0;
	return got(__libc_calloc(a, b));
}
extern "C" void *realloc(void *p, size_t n)
{
	if (shim_mal_armed && !in_shim && mal_fail(n))
		return 0;
	if (!shim_live_armed)
		return __libc_realloc(p, n);
	long old = p ? (long)malloc_usable_size(p) : 0;
	void *q = __libc_realloc(p, n);
	if (q || n == 0)
	{
		__atomic_add_fetch(&shim_live_bytes, (q ? (long)malloc_usable_size(q) : 0) - old, __ATOMIC_RELAXED);
		__atomic_add_fetch(&shim_live_blocks, (q != 0) - (p != 0), __ATOMIC_RELAXED);
	}
	return q;
}
extern "C" void free(void *p)
{
	if (p && shim_free_poison >= 0 && !in_shim)
		memset(p, shim_free_poison, malloc_usable_size(p));
	gone(p);
	__libc_free(p);
}
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" int posix_memalign(void **out, size_t a, size_t n)
{
	if (a < sizeof(void *) || (a & (a - 1)))
		return EINVAL;
	if (shim_mal_armed && !in_shim && mal_fail(n))
		return ENOMEM;
	void *p = got(__libc_memalign(a, n));
	if (!p)
		return ENOMEM;
	if (shim_mal_armed && !in_shim && shim_mal_poison >= 0 && (long)n >= shim_mal_min)
		memset(p, shim_mal_poison, n);
	*out = p;
	return 0;
}
// An allocator for the array library, which otherwise keeps small blocks for itself: every block holds a pattern.
extern "C"
{
int shim_np_poison = -1;
long shim_np_count = 0;
void *shim_np_malloc(void *, size_t n)
{
	void *p = 0;
	if (posix_memalign(&p, 64, n ? n : 1))
		return 0;
	if (shim_np_poison >= 0)
	{
		memset(p, shim_np_poison, n);
		shim_np_count++;
	}
	return p;
}
void *shim_np_calloc(void *, size_t a, size_t b)
{
	void *p = 0;
	size_t n;
	if (__builtin_mul_overflow(a, b, &n) || posix_memalign(&p, 64, n ? n : 1))
		return 0;
	return memset(p, 0, n);
}
void *shim_np_realloc(void *c, void *p, size_t n)
{
	size_t old = p ? malloc_usable_size(p) : 0;
	char *q = (char *)realloc(p, n ? n : 1);
	if (q && shim_np_poison >= 0 && n > old)
		memset(q + old, shim_np_poison, n - old);
	if (q && ((uintptr_t)q & 63))
	{
		void *r = 0;
		if (!posix_memalign(&r, 64, n ? n : 1))
		{
			memcpy(r, q, n);
			free(q);
			return r;
		}
	}
	return q;
}
void shim_np_free(void *, void *p, size_t) { free(p); }
}
// Leaves a byte pattern in the part of the stack the next calls will use.
extern "C" __attribute__((noinline)) int shim_poison_stack(int byte, long n)
{
	volatile char *b = (volatile char *)__builtin_alloca(n);
	for (long i = 0; i < n; i++)
		b[i] = (char)byte;
	return b[n / 2];
}

// ---- file system seam -----------------------------------------------------
// Only paths below shim_root are touched. The script is an array of entries
// consumed by operation number: each mutating / data call gets the next number.
enum { OP_OPEN = 1, OP_WRITE = 2, OP_READ = 4, OP_CLOSE = 8, OP_FSYNC = 16, OP_RENAME = 32, OP_UNLINK = 64 };
enum { F_NONE = 0, F_ERR = 1, F_SHORT = 2, F_EINTR = 3, F_CRASH = 4, F_TORN_CRASH = 5, F_ERR_STICKY = 6 };
struct fault
{
	long at;   // operation number
	int kind;  // F_*
	int arg;   // errno or byte count
};
extern "C" {
char shim_root[512] = {0};
volatile int shim_fs_armed = 0;
volatile long shim_fs_ops = 0;
struct fault shim_faults[64];
volatile int shim_nfaults = 0;
volatile long shim_fired[8] = {0};
volatile int shim_sticky_errno = 0;
// log of operations: (kind, fd, bytes)
struct oplog { int op; int fd; long n; };
struct oplog shim_log[65536];
volatile long shim_nlog = 0;
volatile long shim_max_write = 0; // if > 0 every write moves at most this many bytes
volatile long shim_max_read = 0;
}
static unsigned char fd_tracked[4096];

static int under(const char *p)
{
	if (!shim_root[0] || !p)
		return 0;
	size_t n = strlen(shim_root);
	if (p[0] == '/')
		return strncmp(p, shim_root, n) == 0;
	char cwd[512];
	if (!getcwd(cwd, sizeof cwd))
		return 0;
	return strncmp(cwd, shim_root, n) == 0;
}
static void logop(int op, int fd, long n)
{
	if (shim_nlog < 65536)
	{
		shim_log[shim_nlog].op = op;
		shim_log[shim_nlog].fd = fd;
		shim_log[shim_nlog].n = n;
		shim_nlog++;
	}
}
static struct fault *next_fault(int op)
{
	long k = shim_fs_ops++;
	for (int i = 0; i < shim_nfaults; i++)
		if (shim_faults[i].at == k)
			return &shim_faults[i];
	return 0;
}
static int common(struct fault *f, int op)
{ // returns 1 if the call must return -1 with errno set
	if (shim_sticky_errno && (op & (OP_WRITE | OP_FSYNC)))
	{
		errno = shim_sticky_errno;
		return 1;
	}
	if (!f)
		return 0;
	if (f->kind == F_CRASH || (f->kind == F_TORN_CRASH && op != OP_WRITE))
	{
		shim_fired[f->kind]++;
		syscall(SYS_exit_group, 77);
	}
	if (f->kind == F_ERR || f->kind == F_ERR_STICKY)
	{
		shim_fired[f->kind]++;
		errno = f->arg;
		if (f->kind == F_ERR_STICKY)
			shim_sticky_errno = f->arg;
		return 1;
	}
	if (f->kind == F_EINTR)
	{
		shim_fired[f->kind]++;
		errno = EINTR;
		return 1;
	}
	return 0;
}
static int do_open(const char *path, int flags, mode_t mode)
{
	if (!shim_fs_armed || in_shim || !under(path))
		return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
	struct fault *f = next_fault(OP_OPEN);
	if (common(f, OP_OPEN))
	{
		logop(OP_OPEN, -1, 0);
		return -1;
	}
	int fd = syscall(SYS_openat, AT_FDCWD, path, flags, mode);
	logop(OP_OPEN, fd, 0);
	if (fd >= 0 && fd < 4096)
		fd_tracked[fd] = 1;
	return fd;
}
extern "C" int open(const char *path, int flags, ...)
{
	va_list ap;
	va_start(ap, flags);
	mode_t m = va_arg(ap, mode_t);
	va_end(ap);
	return do_open(path, flags, m);
}
extern "C" int open64(const char *path, int flags, ...)
{
	va_list ap;
	va_start(ap, flags);
	mode_t m = va_arg(ap, mode_t);
	va_end(ap);
	return do_open(path, flags | O_LARGEFILE, m);
}
extern "C" int openat(int dfd, const char *path, int flags, ...)
{
	va_list ap;
	va_start(ap, flags);
	mode_t m = va_arg(ap, mode_t);
	va_end(ap);
	if (dfd == AT_FDCWD)
		return do_open(path, flags, m);
	return syscall(SYS_openat, dfd, path, flags, m);
}
extern "C" int openat64(int dfd, const char *path, int flags, ...)
{
	va_list ap;
	va_start(ap, flags);
	mode_t m = va_arg(ap, mode_t);
	va_end(ap);
	if (dfd == AT_FDCWD)
		return do_open(path, flags | O_LARGEFILE, m);
	return syscall(SYS_openat, dfd, path, flags | O_LARGEFILE, m);
}
extern "C" ssize_t write(int fd, const void *buf, size_t n)
{
	if (!shim_fs_armed || fd < 0 || fd >= 4096 || !fd_tracked[fd])
		return syscall(SYS_write, fd, buf, n);
	struct fault *f = next_fault(OP_WRITE);
	if (f && f->kind == F_TORN_CRASH)
	{
		size_t k = (size_t)f->arg < n ? (size_t)f->arg : n;
		if (k)
			syscall(SYS_write, fd, buf, k);
		shim_fired[f->kind]++;
		syscall(SYS_exit_group, 77);
	}
	if (common(f, OP_WRITE))
	{
		logop(OP_WRITE, fd, -1);
		return -1;
	}
	size_t k = n;
	if (shim_max_write > 0 && k > (size_t)shim_max_write)
	{
		k = shim_max_write;
		shim_fired[F_SHORT]++;
	}
	if (f && f->kind == F_SHORT && k > 1)
	{
		size_t lim = f->arg > 0 ? (size_t)f->arg : 1;
		if (lim < k)
		{
			k = lim;
			shim_fired[F_SHORT]++;
		}
	}
	ssize_t r = syscall(SYS_write, fd, buf, k);
	logop(OP_WRITE, fd, r);
	return r;
}
extern "C" ssize_t read(int fd, void *buf, size_t n)
{
	if (!shim_fs_armed || fd < 0 || fd >= 4096 || !fd_tracked[fd])
		return syscall(SYS_read, fd, buf, n);
	struct fault *f = next_fault(OP_READ);
	if (common(f, OP_READ))
	{
		logop(OP_READ, fd, -1);
		return -1;
	}
	size_t k = n;
	if (shim_max_read > 0 && k > (size_t)shim_max_read)
	{
		k = shim_max_read;
		shim_fired[F_SHORT]++;
	}
	if (f && f->kind == F_SHORT && k > 1)
	{
		size_t lim = f->arg > 0 ? (size_t)f->arg : 1;
		if (lim < k)
		{
			k = lim;
			shim_fired[F_SHORT]++;
		}
	}
	ssize_t r = syscall(SYS_read, fd, buf, k);
	logop(OP_READ, fd, r);
	return r;
}
extern "C" int close(int fd)
{
	if (!shim_fs_armed || fd < 0 || fd >= 4096 || !fd_tracked[fd])
	{
		if (fd >= 0 && fd < 4096)
			fd_tracked[fd] = 0;
		return syscall(SYS_close, fd);
	}
	struct fault *f = next_fault(OP_CLOSE);
	fd_tracked[fd] = 0;
	if (f && (f->kind == F_CRASH || f->kind == F_TORN_CRASH))
	{
		shim_fired[f->kind]++;
		syscall(SYS_exit_group, 77);
	}
	int r = syscall(SYS_close, fd);
	logop(OP_CLOSE, fd, r);
	if (f && (f->kind == F_ERR || f->kind == F_ERR_STICKY))
	{ // the descriptor is gone but the data may not be: EIO / ENOSPC / EDQUOT at close
		shim_fired[f->kind]++;
		errno = f->arg;
		return -1;
	}
	return r;
}
extern "C" int fsync(int fd)
{
	if (shim_fs_armed && fd >= 0 && fd < 4096 && fd_tracked[fd])
	{
		struct fault *f = next_fault(OP_FSYNC);
		logop(OP_FSYNC, fd, 0);
		if (common(f, OP_FSYNC))
			return -1;
	}
	return syscall(SYS_fsync, fd);
}
static void die(struct fault *f)
{
	if (f && (f->kind == F_CRASH || f->kind == F_TORN_CRASH))
	{
		shim_fired[f->kind]++;
		syscall(SYS_exit_group, 77);
	}
}
extern "C" ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
	if (shim_fs_armed && out >= 0 && out < 4096 && fd_tracked[out])
	{
		struct fault *f = next_fault(OP_WRITE);
		if (f && f->kind == F_TORN_CRASH && f->arg > 0)
			syscall(SYS_sendfile, out, in, off, (size_t)f->arg < n ? (size_t)f->arg : n);
		die(f);
		if (f && f->kind == F_SHORT && f->arg > 0 && (size_t)f->arg < n)
		{
			n = f->arg;
			shim_fired[F_SHORT]++;
		}
		logop(OP_WRITE, out, n);
	}
	return syscall(SYS_sendfile, out, in, off, n);
}
extern "C" ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
	return sendfile64(out, in, (off64_t *)off, n);
}
extern "C" int rename(const char *a, const char *b)
{
	if (shim_fs_armed && under(a))
	{
		struct fault *f = next_fault(OP_RENAME);
		logop(OP_RENAME, -1, 0);
		die(f); // an error here may legitimately be answered by copying instead
	}
	return syscall(SYS_rename, a, b);
}
extern "C" int unlink(const char *a)
{
	if (shim_fs_armed && under(a))
	{
		struct fault *f = next_fault(OP_UNLINK);
		logop(OP_UNLINK, -1, 0);
		die(f);
	}
	return syscall(SYS_unlink, a);
}
extern "C" void shim_fs_reset()
{
	shim_fs_armed = 0;
	shim_fs_ops = 0;
	shim_nfaults = 0;
	shim_sticky_errno = 0;
	shim_nlog = 0;
	shim_max_write = 0;
	shim_max_read = 0;
	memset((void *)shim_fired, 0, sizeof shim_fired);
	memset(fd_tracked, 0, sizeof fd_tracked);
}

// ---- native code that runs without the interpreter lock -------------------
// The engine variant built for C01 calls this at every basic block. As long as the engine holds the
// interpreter lock nothing else can run and nothing happens here; when it does not, every
// shim_cov_every-th block is a scheduling point.
extern "C" {
volatile int shim_cov_armed = 0;
volatile long shim_cov_every = 64;
volatile long shim_cov_points = 0;
void (*volatile shim_cov_cb)(void) = 0;
static __thread long cov_n = 0;
static __thread int cov_in = 0;

static __attribute__((noinline)) void cov_slow(void)
{
	if (cov_in || !shim_cov_cb)
		return;
	if (!shim_gil_check)
		shim_gil_check = (int (*)(void))dlsym(RTLD_DEFAULT, "PyGILState_Check");
	if (!shim_gil_check || shim_gil_check())
		return;
	if (++cov_n % shim_cov_every)
		return;
	cov_in = 1;
	__atomic_add_fetch(&shim_cov_points, 1, __ATOMIC_RELAXED);
	shim_cov_cb();
	cov_in = 0;
}

void __sanitizer_cov_trace_pc(void)
{
	if (shim_cov_armed)
		cov_slow();
}
}
