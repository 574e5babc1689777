// An allocator for the array library: every array starts on a 64-byte boundary, so that sums over arrays are taken in
// the same order wherever the arrays lie. The blocks come from posix_memalign, i.e. from the preloaded seam if any.
#include <malloc.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
void *dst_np_malloc(void *ctx, size_t n)
{
	void *p = 0;
	return posix_memalign(&p, 64, n ? n : 1) ? 0 : p;
}
void *dst_np_calloc(void *ctx, size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n))
		return 0;
	void *p = dst_np_malloc(ctx, n);
	if (p)
		memset(p, 0, n);
	return p;
}
void *dst_np_realloc(void *ctx, void *p, size_t n)
{
	char *q = (char *)realloc(p, n ? n : 1);
	if (!q || ((uintptr_t)q & 63) == 0)
		return q;
	void *r = dst_np_malloc(ctx, n);
	if (r)
	{
		memcpy(r, q, n);
		free(q);
		return r;
	}
	return q;
}
void dst_np_free(void *ctx, void *p, size_t n) { free(p); }
