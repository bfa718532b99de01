// Independent hash primitives used as oracle (and as the fast stand-in for OpenSSL's SHA-2).
// Written from FIPS 180-4 / FIPS 202, sharing nothing with the code under test.
#pragma once
#include <cstdint>
#include <cstddef>
void o_sha256(const uint8_t *in, uint64_t len, uint8_t out[32]);
void o_sha512(const uint8_t *in, uint64_t len, uint8_t out[64]);
void o_shake(int bits, const uint8_t *in, uint64_t len, uint8_t *out, uint64_t outlen);
bool prim_selftest();   // known answers + comparison with libcrypto
