#pragma once
#include <immintrin.h>
#include <cstdint>
#include <cstddef>
#include <ostream>
namespace emp {
using block = __m128i;
inline block makeBlock(uint64_t h, uint64_t l) { return _mm_set_epi64x(h, l); }
inline bool getLSB(const block& b) { return _mm_extract_epi64(b, 0) & 1; }
inline const block zero_block = _mm_setzero_si128();
inline constexpr int ALICE = 1, BOB = 2; inline constexpr size_t ot_bsize = 8;
struct AES_KEY { block rd_key[11]; unsigned rounds; };
template <int N> void AES_opt_key_schedule(const block*, AES_KEY*);
template <int A, int B> void ParaEnc(block*, AES_KEY*);
template <int A> void ParaEnc(block*, AES_KEY*, int);
void xorBlocks_arr(block*, const block*, const block*, int); void xorBlocks_arr(block*, const block*, block, int);
struct PRG { PRG(const void* = nullptr, int = 0); void reseed(const block*, uint64_t = 0); void random_data(void*, int); void random_block(block*, int = 1); void random_bool(bool*, int); void random_data_unaligned(void*, int); };
void mul128(block, block, block*, block*); void gfmul(block, block, block*); void uni_hash_coeff_gen(block*, block, int); void vector_inn_prdt_sum_red(block*, const block*, const block*, int);
template <int K> struct MITCCRH { void setS(block); template <int A, int B> void hash(block*); };
template <class T> struct IOChannel { void send_data(const void*, size_t); void recv_data(void*, size_t); void send_block(const block*, size_t); void recv_block(block*, size_t); void flush(); };
template <class IO> struct COT { IO* io; MITCCRH<ot_bsize> mitccrh; block Delta; virtual void send_cot(block*, int64_t) = 0; virtual void recv_cot(block*, const bool*, int64_t) = 0; };
template <class IO> struct FerretCOT : COT<IO> { PRG prg; template <class... A> FerretCOT(A&&...); void send_cot(block*, int64_t) override; void recv_cot(block*, const bool*, int64_t) override; void rcot(block*, int64_t); void setup(block, const char* = ""); };
}
using emp::block; using emp::AES_KEY;
