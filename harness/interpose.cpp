// Monitors at the library's boundary: definitions here take precedence over the shared libraries'.
#include "interpose.hpp"
#include "mon.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/nameser.h>
#include <resolv.h>
#include <openssl/evp.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <openssl/bio.h>
#include <openssl/pem.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define HAVE_ASAN 1
#else
#define HAVE_ASAN 0
#endif

namespace interpose
{
	thread_local std::function<int(const char*, unsigned char*, int, int&)> dns;
	thread_local Expect expect;
	thread_local Counts counts;
	thread_local Fault fault;
	thread_local bool poison, socket;
	thread_local int dnsClass, dnsType;

	static void region(const char* what, const void* p, size_t n)
	{
		++counts.regions;
#if HAVE_ASAN
		if (n == 0) return;
		void* bad = __asan_region_is_poisoned((void*)p, n);
		if (bad)
			mon::die(std::string("out-of-bounds:") + what, std::string(what) + " was handed " + std::to_string(n)
				+ " bytes, of which only the first " + std::to_string((const char*)bad - (const char*)p) + " are accessible");
#else
		(void)what; (void)p; (void)n;
#endif
	}

	// Where the unreadable part of the last DNS answer is.
	static thread_local unsigned char* poisonAt;
	static thread_local size_t poisonLen;

	void dnsDone()
	{
#if HAVE_ASAN
		if (poisonLen) __asan_unpoison_memory_region(poisonAt, poisonLen);
#endif
		poisonLen = 0;
	}

	static int serve(res_state st, const char* name, unsigned char* ans, int len)
	{
		dnsDone();
		++counts.dnsQueries;
		int herr = TRY_AGAIN;
		int n = dns ? dns(name, ans, len, herr) : -1;
		if (st) st->res_h_errno = herr;
		if (st && socket && st->_vcsock < 0) st->_vcsock = open("/dev/null", O_RDONLY | O_CLOEXEC);
		h_errno = herr;
		if (n >= 0 && n < len)
		{
			// what lies behind the answer is not part of it
			poisonAt = ans + n;
			poisonLen = (size_t)(len - n);
			memset(poisonAt, 0x41, poisonLen);
#if HAVE_ASAN
			if (poison) __asan_poison_memory_region(poisonAt, poisonLen);
			else poisonLen = 0;
#endif
		}
		return n;
	}
}

using interpose::region;
using interpose::expect;
using interpose::counts;

template <class F> static F real(const char* name, F)
{
	void* p = dlsym(RTLD_NEXT, name);
	if (!p) { fprintf(stderr, "no %s\n", name); abort(); }
	return (F)p;
}
#define REAL(f) static auto* const real_##f = real(#f, (decltype(&f))nullptr)

extern "C"
{
#undef res_nquery
#undef res_query
#undef res_nsearch
#undef res_search
#undef res_ninit
	int __res_ninit(res_state s)
	{
		REAL(__res_ninit);
		int r = real___res_ninit(s);
		return interpose::step("res_ninit") ? -1 : r;
	}
	int res_nquery(res_state st, const char* n, int c, int t, unsigned char* a, int l) { interpose::dnsClass = c; interpose::dnsType = t; return interpose::serve(st, n, a, l); }
	int __res_nquery(res_state st, const char* n, int c, int t, unsigned char* a, int l) { interpose::dnsClass = c; interpose::dnsType = t; return interpose::serve(st, n, a, l); }
	int res_nsearch(res_state st, const char* n, int c, int t, unsigned char* a, int l) { interpose::dnsClass = c; interpose::dnsType = t; return interpose::serve(st, n, a, l); }
	int __res_nsearch(res_state st, const char* n, int c, int t, unsigned char* a, int l) { interpose::dnsClass = c; interpose::dnsType = t; return interpose::serve(st, n, a, l); }
	int res_query(const char* n, int c, int t, unsigned char* a, int l) { interpose::dnsClass = c; interpose::dnsType = t; return interpose::serve(nullptr, n, a, l); }
	int __res_query(const char* n, int c, int t, unsigned char* a, int l) { interpose::dnsClass = c; interpose::dnsType = t; return interpose::serve(nullptr, n, a, l); }
	int res_search(const char* n, int c, int t, unsigned char* a, int l) { interpose::dnsClass = c; interpose::dnsType = t; return interpose::serve(nullptr, n, a, l); }
	int __res_search(const char* n, int c, int t, unsigned char* a, int l) { interpose::dnsClass = c; interpose::dnsType = t; return interpose::serve(nullptr, n, a, l); }

#ifndef NO_CRYPTO_INTERPOSE
	int crypto_sign_verify_detached(const unsigned char* sig, const unsigned char* m, unsigned long long mlen, const unsigned char* pk)
	{
		REAL(crypto_sign_verify_detached);
		if (interpose::step("crypto_sign_verify_detached")) return -1;
		++counts.edVerify;
		if (expect.edSig >= 0 && expect.edSig < 64)
			mon::die("out-of-bounds:crypto_sign_verify_detached signature", "an Ed25519 signature of " + std::to_string(expect.edSig) + " bytes was handed over as one of 64");
		if (expect.edPub >= 0 && expect.edPub < 32)
			mon::die("out-of-bounds:crypto_sign_verify_detached key", "an Ed25519 key of " + std::to_string(expect.edPub) + " bytes was handed over as one of 32");
		region("crypto_sign_verify_detached signature", sig, 64);
		region("crypto_sign_verify_detached message", m, mlen);
		region("crypto_sign_verify_detached key", pk, 32);
		return real_crypto_sign_verify_detached(sig, m, mlen, pk);
	}
	int crypto_sign_detached(unsigned char* sig, unsigned long long* slen, const unsigned char* m, unsigned long long mlen, const unsigned char* sk)
	{
		REAL(crypto_sign_detached);
		if (interpose::step("crypto_sign_detached")) return -1;
		++counts.edSign;
		if (expect.edKey >= 0 && expect.edKey < 64)
			mon::die("out-of-bounds:crypto_sign_detached key", "an Ed25519 key of " + std::to_string(expect.edKey) + " bytes was handed over as one of 64");
		region("crypto_sign_detached signature", sig, 64);
		region("crypto_sign_detached message", m, mlen);
		region("crypto_sign_detached key", sk, 64);
		return real_crypto_sign_detached(sig, slen, m, mlen, sk);
	}
	int crypto_sign_seed_keypair(unsigned char* pk, unsigned char* sk, const unsigned char* seed)
	{
		REAL(crypto_sign_seed_keypair);
		region("crypto_sign_seed_keypair pk", pk, 32);
		region("crypto_sign_seed_keypair sk", sk, 64);
		region("crypto_sign_seed_keypair seed", seed, 32);
		return real_crypto_sign_seed_keypair(pk, sk, seed);
	}
	int EVP_DigestUpdate(EVP_MD_CTX* c, const void* d, size_t n)
	{
		REAL(EVP_DigestUpdate);
		if (interpose::step("EVP_DigestUpdate")) return 0;
		region("EVP_DigestUpdate", d, n);
		return real_EVP_DigestUpdate(c, d, n);
	}
	int EVP_DigestFinal_ex(EVP_MD_CTX* c, unsigned char* md, unsigned* n)
	{
		REAL(EVP_DigestFinal_ex);
		if (interpose::step("EVP_DigestFinal_ex")) return 0;
		const EVP_MD* t = EVP_MD_CTX_get0_md(c);
		if (t) region("EVP_DigestFinal_ex", md, (size_t)EVP_MD_get_size(t));
		return real_EVP_DigestFinal_ex(c, md, n);
	}
	int RSA_verify(int type, const unsigned char* m, unsigned mlen, const unsigned char* sig, unsigned slen, RSA* rsa)
	{
		REAL(RSA_verify);
		if (interpose::step("RSA_verify")) return 0;
		++counts.rsaVerify;
		region("RSA_verify digest", m, mlen);
		region("RSA_verify signature", sig, slen);
		return real_RSA_verify(type, m, mlen, sig, slen, rsa);
	}
	int RSA_sign(int type, const unsigned char* m, unsigned mlen, unsigned char* sig, unsigned* slen, RSA* rsa)
	{
		REAL(RSA_sign);
		if (interpose::step("RSA_sign")) return 0;
		++counts.rsaSign;
		region("RSA_sign digest", m, mlen);
		region("RSA_sign signature", sig, rsa ? (size_t)RSA_size(rsa) : 0);
		return real_RSA_sign(type, m, mlen, sig, slen, rsa);
	}
	EVP_PKEY* d2i_PUBKEY(EVP_PKEY** a, const unsigned char** p, long n)
	{
		REAL(d2i_PUBKEY);
		if (interpose::step("d2i_PUBKEY")) return nullptr;
		if (p && *p && n > 0) region("d2i_PUBKEY", *p, (size_t)n);
		return real_d2i_PUBKEY(a, p, n);
	}
	RSA* d2i_RSAPrivateKey(RSA** a, const unsigned char** p, long n)
	{
		REAL(d2i_RSAPrivateKey);
		if (interpose::step("d2i_RSAPrivateKey")) return nullptr;
		if (p && *p && n > 0) region("d2i_RSAPrivateKey", *p, (size_t)n);
		return real_d2i_RSAPrivateKey(a, p, n);
	}
	int BIO_write(BIO* b, const void* d, int n)
	{
		REAL(BIO_write);
		if (interpose::step("BIO_write")) return interpose::fault.negative ? -1 : 0;
		if (n > 0) region("BIO_write", d, (size_t)n);
		return real_BIO_write(b, d, n);
	}
	EVP_MD_CTX* EVP_MD_CTX_new()
	{
		REAL(EVP_MD_CTX_new);
		if (interpose::step("EVP_MD_CTX_new")) return nullptr;
		return real_EVP_MD_CTX_new();
	}
	int EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD* t, ENGINE* e)
	{
		REAL(EVP_DigestInit_ex);
		if (interpose::step("EVP_DigestInit_ex")) return 0;
		return real_EVP_DigestInit_ex(c, t, e);
	}
	int EVP_MD_CTX_copy(EVP_MD_CTX* o, const EVP_MD_CTX* i)
	{
		REAL(EVP_MD_CTX_copy);
		if (interpose::step("EVP_MD_CTX_copy")) return 0;
		return real_EVP_MD_CTX_copy(o, i);
	}
	int EVP_MD_CTX_copy_ex(EVP_MD_CTX* o, const EVP_MD_CTX* i)
	{
		REAL(EVP_MD_CTX_copy_ex);
		if (interpose::step("EVP_MD_CTX_copy_ex")) return 0;
		return real_EVP_MD_CTX_copy_ex(o, i);
	}
	BIO* BIO_new(const BIO_METHOD* m)
	{
		REAL(BIO_new);
		if (interpose::step("BIO_new")) return nullptr;
		return real_BIO_new(m);
	}
	BIO* BIO_new_mem_buf(const void* p, int n)
	{
		REAL(BIO_new_mem_buf);
		if (interpose::step("BIO_new_mem_buf")) return nullptr;
		return real_BIO_new_mem_buf(p, n);
	}
	EVP_PKEY* PEM_read_bio_PrivateKey(BIO* b, EVP_PKEY** x, pem_password_cb* cb, void* u)
	{
		REAL(PEM_read_bio_PrivateKey);
		if (interpose::step("PEM_read_bio_PrivateKey")) return nullptr;
		return real_PEM_read_bio_PrivateKey(b, x, cb, u);
	}
	RSA* EVP_PKEY_get1_RSA(EVP_PKEY* k)
	{
		REAL(EVP_PKEY_get1_RSA);
		if (interpose::step("EVP_PKEY_get1_RSA")) return nullptr;
		return real_EVP_PKEY_get1_RSA(k);
	}
	long BIO_ctrl(BIO* b, int cmd, long l, void* p)
	{
		REAL(BIO_ctrl);
		if (cmd == BIO_CTRL_FLUSH && interpose::step("BIO_flush")) return interpose::fault.negative ? -1 : 0;
		return real_BIO_ctrl(b, cmd, l, p);
	}
	int vasprintf(char** out, const char* fmt, va_list args)
	{
		va_list again;
		va_copy(again, args);
		int n = -1;
		// what *out holds after a failure is not defined
		if (!interpose::step("vasprintf")) n = vsnprintf(nullptr, 0, fmt, again);
		va_end(again);
		if (n < 0) return -1;
		char* p = (char*)malloc((size_t)n + 1);
		if (!p) return -1;
		vsnprintf(p, (size_t)n + 1, fmt, args);
		*out = p;
		return n;
	}
	int __vasprintf_chk(char** out, int, const char* fmt, va_list args) { return vasprintf(out, fmt, args); }
	int BIO_read(BIO* b, void* d, int n)
	{
		REAL(BIO_read);
		if (n > 0) region("BIO_read", d, (size_t)n);
		return real_BIO_read(b, d, n);
	}
#endif
}
