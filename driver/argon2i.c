/* Argon2i, version 0x13, one lane, 4096 KiB, 3 passes, 32 bytes, from RFC 9106 and RFC 7693.
 * Reads lines "<passphrase in hex>. <salt in hex>." and prints the keys in hex. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static const uint64_t IV[8] = {0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL, 0xa54ff53a5f1d36f1ULL,
                               0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL, 0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL};
static const uint8_t SIGMA[10][16] = {
    {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
    {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
    {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
    {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
    {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};

static uint64_t ror(uint64_t x, int n) { return x >> n | x << (64 - n); }

static void blake2b(uint8_t *out, size_t outlen, const uint8_t *in, size_t len) {
    uint64_t h[8], m[16], v[16];
    for (int i = 0; i < 8; i++) h[i] = IV[i];
    h[0] ^= 0x01010000 ^ outlen;
    size_t done = 0;
    for (int last = 0; !last;) {
        size_t n = len - done > 128 ? 128 : len - done;
        last = done + n == len;
        uint8_t b[128] = {0};
        memcpy(b, in + done, n);
        done += n;
        memcpy(m, b, 128);
        for (int i = 0; i < 8; i++) v[i] = h[i], v[i + 8] = IV[i];
        v[12] ^= done;
        if (last) v[14] = ~v[14];
        for (int r = 0; r < 12; r++) {
            const uint8_t *s = SIGMA[r % 10];
#define G(a, b, c, d, x, y)                                                                                            \
    a += b + x, d = ror(d ^ a, 32), c += d, b = ror(b ^ c, 24), a += b + y, d = ror(d ^ a, 16), c += d, b = ror(b ^ c, 63)
            for (int i = 0; i < 4; i++) G(v[i], v[4 + i], v[8 + i], v[12 + i], m[s[2 * i]], m[s[2 * i + 1]]);
            for (int i = 0; i < 4; i++)
                G(v[i], v[4 + (i + 1) % 4], v[8 + (i + 2) % 4], v[12 + (i + 3) % 4], m[s[8 + 2 * i]], m[s[9 + 2 * i]]);
        }
        for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
    }
    memcpy(out, h, outlen);
}

/* H' of section 3.3. */
static void hprime(uint8_t *out, uint32_t outlen, const uint8_t *in, size_t len) {
    uint8_t *b = malloc(len + 4), v[64];
    memcpy(b, &outlen, 4);
    memcpy(b + 4, in, len);
    if (outlen <= 64) {
        blake2b(out, outlen, b, len + 4);
    } else {
        blake2b(v, 64, b, len + 4);
        memcpy(out, v, 32);
        out += 32, outlen -= 32;
        while (outlen > 64) {
            blake2b(v, 64, v, 64);
            memcpy(out, v, 32);
            out += 32, outlen -= 32;
        }
        blake2b(out, outlen, v, 64);
    }
    free(b);
}

typedef struct { uint64_t w[128]; } block;

#define GB(a, b, c, d)                                                                                                 \
    do {                                                                                                               \
        a += b + 2 * (uint64_t)(uint32_t)a * (uint32_t)b, d = ror(d ^ a, 32);                                          \
        c += d + 2 * (uint64_t)(uint32_t)c * (uint32_t)d, b = ror(b ^ c, 24);                                          \
        a += b + 2 * (uint64_t)(uint32_t)a * (uint32_t)b, d = ror(d ^ a, 16);                                          \
        c += d + 2 * (uint64_t)(uint32_t)c * (uint32_t)d, b = ror(b ^ c, 63);                                          \
    } while (0)

static void perm(uint64_t *v[16]) {
    for (int i = 0; i < 4; i++) GB(*v[i], *v[4 + i], *v[8 + i], *v[12 + i]);
    for (int i = 0; i < 4; i++) GB(*v[i], *v[4 + (i + 1) % 4], *v[8 + (i + 2) % 4], *v[12 + (i + 3) % 4]);
}

/* out = G(x, y), xored onto the old content if `with`. */
static void compress(const block *x, const block *y, block *out, int with) {
    block r, q;
    for (int i = 0; i < 128; i++) r.w[i] = q.w[i] = x->w[i] ^ y->w[i];
    uint64_t *p[16];
    for (int i = 0; i < 8; i++) {
        for (int k = 0; k < 16; k++) p[k] = &q.w[16 * i + k];
        perm(p);
    }
    for (int i = 0; i < 8; i++) {
        for (int k = 0; k < 8; k++) p[2 * k] = &q.w[2 * i + 16 * k], p[2 * k + 1] = &q.w[2 * i + 16 * k + 1];
        perm(p);
    }
    for (int i = 0; i < 128; i++) out->w[i] = (with ? out->w[i] : 0) ^ q.w[i] ^ r.w[i];
}

enum { M = 4096, T = 3, SEG = M / 4 };
static block mem[M];

static void argon2i(const uint8_t *p, uint32_t plen, const uint8_t *s, uint32_t slen, uint8_t key[32]) {
    uint32_t head[6] = {1, 32, M, T, 0x13, 1}, zero = 0;
    size_t n = 0;
    uint8_t *b = malloc(64 + plen + slen), h0[72], last[1024];
    memcpy(b, head, 24), n = 24;
    memcpy(b + n, &plen, 4), n += 4;
    memcpy(b + n, p, plen), n += plen;
    memcpy(b + n, &slen, 4), n += 4;
    memcpy(b + n, s, slen), n += slen;
    memcpy(b + n, &zero, 4), n += 4; /* secret */
    memcpy(b + n, &zero, 4), n += 4; /* associated data */
    blake2b(h0, 64, b, n);
    free(b);
    for (uint32_t i = 0; i < 2; i++) {
        memcpy(h0 + 64, &i, 4), memcpy(h0 + 68, &zero, 4);
        hprime((uint8_t *)mem[i].w, 1024, h0, 72);
    }
    for (uint64_t pass = 0; pass < T; pass++)
        for (uint64_t slice = 0; slice < 4; slice++) {
            block z = {{0}}, in = {{0}}, addr = {{0}};
            in.w[0] = pass, in.w[1] = 0, in.w[2] = slice, in.w[3] = M, in.w[4] = T, in.w[5] = 1;
            for (uint32_t i = 0; i < SEG; i++) {
                if (i % 128 == 0) {
                    block t;
                    in.w[6]++;
                    compress(&z, &in, &t, 0);
                    compress(&z, &t, &addr, 0);
                }
                if (pass == 0 && slice == 0 && i < 2) continue;
                uint32_t cur = slice * SEG + i, prev = cur ? cur - 1 : M - 1;
                uint64_t j1 = (uint32_t)addr.w[i % 128];
                uint32_t area = pass == 0 ? slice * SEG + i - 1 : M - SEG + i - 1;
                uint64_t x = j1 * j1 >> 32;
                uint32_t rel = area - 1 - (uint32_t)(area * x >> 32);
                uint32_t start = pass == 0 || slice == 3 ? 0 : (slice + 1) * SEG;
                compress(&mem[prev], &mem[(start + rel) % M], &mem[cur], pass > 0);
            }
        }
    memcpy(last, mem[M - 1].w, 1024);
    hprime(key, 32, last, 1024);
}

static size_t unhex(const char *s, uint8_t *out) {
    size_t n = 0;
    unsigned v;
    while (*s && *s != '.' && sscanf(s, "%2x", &v) == 1) out[n++] = v, s += 2;
    return n;
}

int main(void) {
    static char a[1 << 16], b[1 << 16];
    static uint8_t p[1 << 15], s[1 << 15];
    while (scanf("%65535s %65535s", a, b) == 2) {
        uint8_t key[32];
        size_t np = unhex(a, p), ns = unhex(b, s);
        argon2i(p, np, s, ns, key);
        for (int i = 0; i < 32; i++) printf("%02x", key[i]);
        printf("\n");
    }
    return 0;
}
