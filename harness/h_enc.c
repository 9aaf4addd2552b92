/* C14 C15 C16 C18: pure functions against straightforward references */
#include "h.h"

static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static ul interesting(ul lim)
{
	ul v;
	switch (R(6)) {
	case 0: v = R(lim); break;
	case 1: v = R64() >> R(64); break;
	case 2: v = (ul)1 << R(33); v += R(5) - 2; break;
	case 3: { static const ul p26[] = { 1, 26, 676, 17576, 456976, 11881376, 308915776, 8031810176UL }; v = p26[R(8)] * (1 + R(26)) + R(5) - 2; break; }
	case 4: v = R(70000); break;
	default: v = lim - 1 - R(300);
	}
	return v % lim;
}

static void enc64(void)
{
	static ul prev;
	ul v = interesting(1UL << 32), w = v;
	char exp[16], got[16];
	int n = 0, i;
	const char *s;
	if (R(6) == 0) v = w = prev;
	if (R(6) == 0) v = w = (prev + R(3) - 1) & 0xffffffffUL;
	prev = v;
	LOG("b64_encode %lu\n", v);
	s = b64_encode(v);
	do { exp[n++] = A64[w & 63]; w >>= 6; } while (w);
	CHECK((int)strlen(s) == n, "encoding of %lu is %s", v, esc(s, -1));
	for (i = 0; i < n; i++) CHECK(s[i] == exp[n - 1 - i], "encoding of %lu is %s", v, esc(s, -1));
	strcpy(got, s);
	if (R(2)) { LOG("b64_encode again\n"); CHECK(!strcmp(b64_encode(v), got), "second encoding differs"); }
	if (R(2)) b64_encode(interesting(1UL << 32));
	{
		char *e = dup_exact(got, n + 1), *x = dup_exact(got, n);
		CHECK(b64_decode(e) == v, "decode of %s is %lu, expected %lu", e, b64_decode(e), v);
		CHECK(b64_decode_buf(x, n) == v, "decode_buf of %s is %lu, expected %lu", got, b64_decode_buf(x, n), v);
		free(e);
		free(x);
	}
	/* any digit string */
	{
		int len = R(7), bad = R(4) == 0 && len;
		ul val = 0;
		char b[9];
		for (i = 0; i < len; i++) { int d = R(64); if (len == 6 && i == 0) d = R(4); b[i] = A64[d]; val = val * 64 + d; }
		b[len] = 0;
		if (bad) {
			do { b[R(len)] = R(256); for (i = 0, bad = 0; i < len; i++) if (!b[i] || !strchr(A64, b[i])) bad = 1; } while (!bad);
		}
		LOG("b64_decode %s\n", esc(b, len));
		char *x = dup_exact(b, len);
		char *z = dup_exact(b, len + 1);
		if (bad) {
			CHECK(ERR(b64_decode_buf(x, len)) == E_INTERNAL, "illegal character not refused in %s", esc(b, len));
			if ((int)strlen(b) == len) CHECK(ERR(b64_decode(z)) == E_INTERNAL, "illegal character not refused in %s", esc(b, len));
		} else {
			CHECK(b64_decode_buf(x, len) == val, "decode_buf %s is %lu, expected %lu", b, b64_decode_buf(x, len), val);
			CHECK(b64_decode(z) == val, "decode %s is %lu, expected %lu", b, b64_decode(z), val);
		}
		free(x);
		free(z);
	}
}
static void enc26(void)
{
	static ul prev;
	ul v = interesting(8031810176UL), w = v;
	char exp[16], got[16];
	int n = 0, i;
	const char *s;
	if (R(6) == 0) v = w = prev;
	prev = v;
	LOG("b26_encode %lu\n", v);
	s = b26_encode(v);
	do { exp[n++] = 'a' + w % 26; w /= 26; } while (w);
	CHECK((int)strlen(s) == n, "encoding of %lu is %s", v, esc(s, -1));
	for (i = 0; i < n; i++) CHECK(s[i] == exp[n - 1 - i], "encoding of %lu is %s", v, esc(s, -1));
	strcpy(got, s);
	if (R(2)) CHECK(!strcmp(b26_encode(v), got), "second encoding differs");
	if (R(2)) b26_encode(interesting(8031810176UL));
	{
		char *e = dup_exact(got, n + 1);
		CHECK(b26_decode(e) == v, "decode of %s is %lu, expected %lu", e, b26_decode(e), v);
		free(e);
	}
	{
		int len = R(8), bad = R(4) == 0 && len;
		ul val = 0;
		char b[9];
		for (i = 0; i < len; i++) { int d = R(26); b[i] = 'a' + d; val = val * 26 + d; }
		b[len] = 0;
		if (bad) do { b[R(len)] = 1 + R(255); for (i = 0, bad = 0; i < len; i++) if (b[i] < 'a' || b[i] > 'z') bad = 1; } while (!bad);
		LOG("b26_decode %s\n", esc(b, len));
		char *z = dup_exact(b, len + 1);
		if (bad) CHECK(ERR(b26_decode(z)) == E_INTERNAL, "illegal character not refused in %s", esc(b, len));
		else CHECK(b26_decode(z) == val, "decode %s is %lu, expected %lu", b, b26_decode(z), val);
		free(z);
	}
}

static void bits(void)
{
	int i;
	for (i = 0; i < 40; i++) {
		ul w0 = R(4) ? R64() : R(2) ? 0 : ~0UL, w = w0;
		int b = R(64), c = 0, k;
		if (R(4) == 0) w0 = w = R64() & R64() & R64();
		LOG("word %lx bit %d\n", w, b);
		for (k = 0; k < 64; k++) c += w >> k & 1;
		CHECK(bit_cnt(&w) == c, "bit_cnt(%lx) is %d", w, bit_cnt(&w));
		CHECK(!!bit_tst(&w, b) == (int)(w >> b & 1), "bit_tst(%lx,%d)", w, b);
		CHECK(w == w0, "testing changed the word");
		bit_set(&w, b);
		CHECK(w == (w0 | (ul)1 << b), "bit_set(%lx,%d) gives %lx", w0, b, w);
		w = w0;
		bit_clr(&w, b);
		CHECK(w == (w0 & ~((ul)1 << b)), "bit_clr(%lx,%d) gives %lx", w0, b, w);
	}
}

static unsigned long long mulmod(unsigned long long a, unsigned long long b, unsigned long long m) { return (unsigned __int128)a * b % m; }
static int isprime(unsigned long long n)
{
	static const int ws[] = { 2, 3, 5, 7, 11, 13 };
	int i;
	if (n < 2) return 0;
	for (i = 0; i < 6; i++) {
		unsigned long long a = ws[i], d = n - 1, x = 1, e;
		int s = 0, ok, r;
		if (n % a == 0) return n == a;
		while (!(d & 1)) d >>= 1, s++;
		for (e = d, a %= n; e; e >>= 1, a = mulmod(a, a, n)) if (e & 1) x = mulmod(x, a, n);
		ok = x == 1 || x == n - 1;
		for (r = 1; r < s && !ok; r++) { x = mulmod(x, x, n); if (x == n - 1) ok = 1; }
		if (!ok) return 0;
	}
	return 1;
}
static void primes(void)
{
	static unsigned next;
	int i;
	for (i = 0; i < 8; i++) {
		unsigned v;
		unsigned long p, q;
		switch (R(7)) {
		case 0: v = next++; break;
		case 1: v = R64(); break;
		case 2: v = 0xffffffffU - R(100000); break;
		case 3: { unsigned long a = R(65536); while (!isprime(a)) a = R(65536); v = a * a; break; }
		case 4: { unsigned long a = R(65536), b = R(65536); v = a * b; break; }
		case 5: { static const unsigned x[] = { 0, 1, 2, 3, 4, 5, 7, 9, 25, 49, 121, 169, 4294836225U, 4294967291U, 4294967295U, 65535, 65536, 65537, 2147483647, 2147483648U, 4294049777U }; v = x[R(21)]; break; }
		default: v = R(100000);
		}
		LOG("prime %u\n", v);
		CHECK(prm_is_prime(v) == isprime(v), "prm_is_prime(%u) is %d", v, prm_is_prime(v));
		if (v <= 4294967291U && (v < 70000000 || R(40) == 0)) {
			p = prm_next_prime(v);
			for (q = v < 3 ? 3 : v | 1; !isprime(q); q += 2);
			CHECK(p == q, "prm_next_prime(%u) is %lu, expected %lu", v, p, q);
		}
	}
}

static void soundex(void)
{
	static const char grp[] = "01230120022455012623010202";
	int n = R(4) ? R(10) : R(60), i, j = 0;
	char b[80], exp[6] = "Z000", *s, *r;
	char last = 0;
	int first = 1;
	for (i = 0; i < n; i++) {
		switch (R(8)) {
		case 0: b[i] = 1 + R(255); break;
		case 1: b[i] = "AHWYaeiouhwy-' "[R(15)]; break;
		case 2: b[i] = i ? b[i - 1] : 'B'; break;
		case 3: b[i] = 0x80 | (1 + R(127)); break;
		case 4: b[i] = "@[`{"[R(4)]; break;
		default: b[i] = (R(2) ? 'a' : 'A') + R(26);
		}
	}
	b[n] = 0;
	for (i = 0; i < n && j < 4; i++) {
		unsigned char c = b[i];
		char g;
		if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) continue;
		c &= ~32;
		g = grp[c - 'A'];
		if (first) { exp[0] = c; first = 0; j = 1; }
		else if (g != '0' && g != last) exp[j++] = g;
		last = g;
	}
	s = dup_exact(b, n + 1);
	r = malloc(5);
	memset(r, 0x77, 5);
	LOG("soundex %s\n", esc(b, n));
	txt_soundex2(s, r);
	CHECK(!memcmp(r, exp, 5), "soundex of %s is %s, expected %s", esc(b, n), esc(r, 5), exp);
	CHECK(!strcmp(txt_soundex(s), exp), "txt_soundex of %s is %s, expected %s", esc(b, n), txt_soundex(s), exp);
	CHECK(!memcmp(s, b, n + 1), "input modified");
	free(s);
	free(r);
}

void run_case(void)
{
	if (PROP("C14")) { enc64(); enc26(); }
	if (PROP("C15")) bits();
	if (PROP("C16")) primes();
	if (PROP("C18")) soundex();
	h_nontrivial++;
}
