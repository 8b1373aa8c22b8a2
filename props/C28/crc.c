//@proof bytes kind=proof unwind=9 timeout=300 covers=crc32
//@proof words kind=native fuzz=40000 covers=crc32,crc32_sse,crc32_sse_supported
//@proof basis kind=native fuzz=1 covers=crc32,crc32_sse
//@proof detect kind=native fuzz=20000 covers=crc32,crc32_sse
#include <vf.h>
#include <amelie_runtime>
#include <vf_env.h>
#ifdef VF_CBMC
#define __asm__
#define __volatile__(...)
#endif
#include "amelie/runtime/lib/crc.c"

/* CRC-32C (Castagnoli), reflected, one bit at a time */
static uint32_t oracle(uint32_t crc, const uint8_t* p, int n)
{
	for (int i = 0; i < n; i++)
	{
		crc ^= p[i];
		for (int k = 0; k < 8; k++)
			crc = (crc & 1) ? (crc >> 1) ^ 0x82F63B78u : crc >> 1;
	}
	return crc;
}

/* every state, every byte: less than a word */
VF_PROOF(bytes)
{
	vf_init();
	VF_MAY_THROW(false);
	static uint32_t words[2];
	int n = vf_range(0, 1), at = vf_range(0, 3);
	uint8_t* p = (uint8_t*)words + at;
	p[0] = vf_u8();
	uint32_t crc = vf_u32();
	uint32_t rc = crc32(crc, p, n);
	VF_ENSURES(rc == oracle(crc, p, n), "crc32: one byte");
	VF_REACH("byte");
}

#ifndef VF_CBMC
static void check(uint32_t crc, const uint8_t* p, int n)
{
	uint32_t want = oracle(crc, p, n);
	VF_ENSURES(crc32(crc, p, n) == want, "crc32: CRC-32C of the bytes");
	if (crc32_sse_supported())
		VF_ENSURES(crc32_sse(crc, p, n) == want, "crc32_sse: the same sum as crc32");
}

/* every length and alignment; a sum made in pieces */
VF_PROOF(words)
{
	vf_init();
	VF_MAY_THROW(false);
	int n = vf_range(0, 15) ? vf_range(0, 80) : vf_range(0, vf_range(0, 99) ? 5000 : 300000);
	int at = vf_range(0, 15);
	uint8_t* mem = malloc(at + n + 1);
	for (int i = 0; i < at + n; i++)
		mem[i] = vf_u8();
	uint32_t crc = vf_bool() ? 0 : vf_u32();
	uint8_t* p = mem + at;
	/* ends where the allocation ends */
	uint8_t* q = malloc(n ? n : 1);
	memcpy(q, p, n);
	check(crc, p, n);
	check(crc, q, n);
	int cut = vf_range(0, n);
	VF_ENSURES(crc32(crc32(crc, p, cut), p + cut, n - cut) == crc32(crc, p, n), "crc32: made in pieces");
	if (crc32_sse_supported())
		VF_ENSURES(crc32_sse(crc32_sse(crc, p, cut), p + cut, n - cut) == crc32(crc, p, n), "crc32_sse: made in pieces");
	free(mem);
	free(q);
	VF_REACH("words");
}

/* sums are linear: all single bits, at every place of two words and a tail,
 * and every byte of every table */
VF_PROOF(basis)
{
	vf_init();
	VF_MAY_THROW(false);
	static uint32_t words[10];
	for (int at = 0; at < 8; at++)
	for (int n = 0; n <= 31; n++)
	{
		uint8_t* p = (uint8_t*)words + at;
		memset(words, 0, sizeof(words));
		check(0, p, n);
		check(0xFFFFFFFFu, p, n);
		for (int bit = 0; bit < 32; bit++)
			check(1u << bit, p, n);
		for (int i = 0; i < n; i++)
		{
			for (int v = 0; v < 256; v++)
			{
				p[i] = v;
				check(0, p, n);
			}
			p[i] = 0;
		}
	}
	VF_REACH("basis");
}

/* any change within 32 bits next to each other, or of one or two bits, of a
 * block of data is seen */
VF_PROOF(detect)
{
	vf_init();
	VF_MAY_THROW(false);
	int n = vf_range(5, 300);
	uint8_t* p = malloc(n), *q = malloc(n);
	for (int i = 0; i < n; i++)
		p[i] = vf_u8();
	memcpy(q, p, n);
	if (vf_bool())
	{
		int start = vf_range(0, n * 8 - 32);
		uint32_t burst = vf_u32() | 1;
		for (int k = 0; k < 32; k++)
			if (burst >> k & 1)
				q[(start + k) / 8] ^= 1 << ((start + k) % 8);
	} else
	{
		int a = vf_range(0, n * 8 - 1), b = vf_range(0, n * 8 - 1);
		q[a / 8] ^= 1 << a % 8;
		if (a != b)
			q[b / 8] ^= 1 << b % 8;
	}
	VF_ENSURES(crc32(0, p, n) != crc32(0, q, n), "crc32: damage is seen");
	if (crc32_sse_supported())
		VF_ENSURES(crc32_sse(0, p, n) != crc32_sse(0, q, n), "crc32_sse: damage is seen");
	free(p);
	free(q);
	VF_REACH("detect");
}
#endif
