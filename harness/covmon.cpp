// Work meter: basic blocks executed in the library plus bytes handled by the C library's memory and string functions.
#include <stddef.h>
#include <stdint.h>

extern "C"
{
	uint64_t covmon_blocks, covmon_bytes;
	int covmon_on;

	void __sanitizer_cov_trace_pc() { if (covmon_on) ++covmon_blocks; }

#define FN __attribute__((noinline, optimize("no-tree-loop-distribute-patterns"), used))
	static inline void count(size_t n) { if (covmon_on) covmon_bytes += n; }

	FN void* memcpy(void* d, const void* s, size_t n)
	{
		count(n);
		void* r = d;
		__asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
		return r;
	}
	FN void* memmove(void* d, const void* s, size_t n)
	{
		count(n);
		void* r = d;
		if ((uintptr_t)d - (uintptr_t)s >= n)
			__asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
		else
		{
			char* x = (char*)d + n;
			const char* y = (const char*)s + n;
			while (n >= 8) { x -= 8; y -= 8; uint64_t t; __builtin_memcpy(&t, y, 8); *(volatile uint64_t*)x = t; n -= 8; }
			while (n--) *(volatile char*)--x = *--y;
		}
		return r;
	}
	FN void* memset(void* d, int c, size_t n)
	{
		count(n);
		void* r = d;
		__asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
		return r;
	}
	FN int memcmp(const void* a, const void* b, size_t n)
	{
		const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
		size_t i = 0;
		while (i < n && x[i] == y[i]) ++i;
		count(i + 1);
		return i < n ? x[i] - y[i] : 0;
	}
	FN int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
	FN void* memchr(const void* a, int c, size_t n)
	{
		const unsigned char* x = (const unsigned char*)a;
		size_t i = 0;
		while (i < n && x[i] != (unsigned char)c) ++i;
		count(i + 1);
		return i < n ? (void*)(x + i) : nullptr;
	}
	FN void* memrchr(const void* a, int c, size_t n)
	{
		const unsigned char* x = (const unsigned char*)a;
		size_t i = n;
		while (i && x[i - 1] != (unsigned char)c) --i;
		count(n - i + 1);
		return i ? (void*)(x + i - 1) : nullptr;
	}
	FN size_t strlen(const char* s)
	{
		size_t i = 0;
		while (*(volatile const char*)(s + i)) ++i;
		count(i + 1);
		return i;
	}
	FN char* strchr(const char* s, int c)
	{
		size_t i = 0;
		while (s[i] && s[i] != (char)c) ++i;
		count(i + 1);
		return s[i] == (char)c ? (char*)s + i : nullptr;
	}
	FN int strcmp(const char* a, const char* b)
	{
		size_t i = 0;
		while (a[i] && a[i] == b[i]) ++i;
		count(i + 1);
		return (unsigned char)a[i] - (unsigned char)b[i];
	}
	FN int strncmp(const char* a, const char* b, size_t n)
	{
		size_t i = 0;
		while (i < n && a[i] && a[i] == b[i]) ++i;
		count(i + 1);
		return i < n ? (unsigned char)a[i] - (unsigned char)b[i] : 0;
	}
	static inline int lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : (unsigned char)c; }
	FN int strcasecmp(const char* a, const char* b)
	{
		size_t i = 0;
		while (a[i] && lo(a[i]) == lo(b[i])) ++i;
		count(i + 1);
		return lo(a[i]) - lo(b[i]);
	}
	FN int strncasecmp(const char* a, const char* b, size_t n)
	{
		size_t i = 0;
		while (i < n && a[i] && lo(a[i]) == lo(b[i])) ++i;
		count(i + 1);
		return i < n ? lo(a[i]) - lo(b[i]) : 0;
	}
}
