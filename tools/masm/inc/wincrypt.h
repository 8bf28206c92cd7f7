#pragma once
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
typedef uintptr_t HCRYPTPROV;
#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define CRYPT_SILENT 0x40u
/* a provider is an open entropy device; without CRYPT_VERIFYCONTEXT a call needs a key container that may not exist */
static inline BOOL CryptAcquireContext(HCRYPTPROV *p, const char *container, const char *provider, DWORD type, DWORD flags)
{
	int fd;
	if (container || provider || type != PROV_RSA_FULL || !(flags & CRYPT_VERIFYCONTEXT)) return 0;
	fd = open("/dev/urandom", O_RDONLY);
	if (fd < 0) return 0;
	*p = (HCRYPTPROV)(unsigned)fd;
	return 1;
}
static inline BOOL CryptGenRandom(HCRYPTPROV p, DWORD len, BYTE *buf) { return read((int)p, buf, len) == (ssize_t)len; }
static inline BOOL CryptReleaseContext(HCRYPTPROV p, DWORD flags) { return flags == 0 && close((int)p) == 0; }
