// Independent reference implementations used as oracles.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>

namespace ref {
typedef std::string Bytes;

// MD5 straight from RFC 1321
inline Bytes md5(const Bytes &in)
{
	static uint32_t K[64];
	static bool init = false;
	static const int R[64] = { 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9,  14, 20, 5, 9,
				   14, 20, 5, 9,  14, 20, 5, 9,  14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23,
				   4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21 };
	if (!init) {
		for (int i = 0; i < 64; i++)
			K[i] = (uint32_t)std::floor(std::fabs(std::sin((double)(i + 1))) * 4294967296.0);
		init = true;
	}
	uint32_t h0 = 0x67452301, h1 = 0xefcdab89, h2 = 0x98badcfe, h3 = 0x10325476;
	Bytes m = in;
	m.push_back((char)0x80);
	while (m.size() % 64 != 56)
		m.push_back(0);
	uint64_t bits = (uint64_t)in.size() * 8;
	for (int i = 0; i < 8; i++)
		m.push_back((char)(bits >> (8 * i)));
	for (size_t o = 0; o < m.size(); o += 64) {
		uint32_t w[16];
		for (int i = 0; i < 16; i++)
			w[i] = (uint8_t)m[o + 4 * i] | (uint8_t)m[o + 4 * i + 1] << 8 | (uint8_t)m[o + 4 * i + 2] << 16 |
			       (uint32_t)(uint8_t)m[o + 4 * i + 3] << 24;
		uint32_t a = h0, b = h1, c = h2, d = h3;
		for (int i = 0; i < 64; i++) {
			uint32_t f;
			int g;
			if (i < 16) {
				f = (b & c) | (~b & d);
				g = i;
			} else if (i < 32) {
				f = (d & b) | (~d & c);
				g = (5 * i + 1) % 16;
			} else if (i < 48) {
				f = b ^ c ^ d;
				g = (3 * i + 5) % 16;
			} else {
				f = c ^ (b | ~d);
				g = (7 * i) % 16;
			}
			uint32_t t = d;
			d = c;
			c = b;
			uint32_t x = a + f + K[i] + w[g];
			b = b + ((x << R[i]) | (x >> (32 - R[i])));
			a = t;
		}
		h0 += a;
		h1 += b;
		h2 += c;
		h3 += d;
	}
	uint32_t h[4] = { h0, h1, h2, h3 };
	Bytes r;
	for (int i = 0; i < 16; i++)
		r.push_back((char)(h[i / 4] >> (8 * (i % 4))));
	return r;
}

inline Bytes hex(const Bytes &b, bool upper)
{
	Bytes r;
	for (unsigned char c : b) {
		char t[4];
		snprintf(t, sizeof t, upper ? "%02X" : "%02x", c);
		r += t;
	}
	return r;
}

inline Bytes hex8(uint32_t v)
{
	char t[12];
	snprintf(t, sizeof t, "%08x", v);
	return t;
}

// EchoLink proxy password response
inline Bytes pw_response(const Bytes &pw, const Bytes &nonce_hex)
{
	Bytes u;
	for (char c : pw)
		u.push_back(c >= 'a' && c <= 'z' ? c - 32 : c);
	return md5(u + nonce_hex);
}
} // namespace ref
