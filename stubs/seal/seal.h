#pragma once
// Declarations only: enough of SEAL's surface for clang to type-check libspu.
#include <array>
#include <complex>
#include <cstdint>
#include <functional>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>
#define SEAL_NOISE_SAMPLER(a, b, c) ::seal::util::sample_poly_cbd(a, b, c)
#define SEAL_MAYBE_UNUSED [[maybe_unused]]
#define SEAL_INTERNAL_MOD_BIT_COUNT 61
#define SEAL_FN2(x) template <class... A> void x(A&&...);
#define SEAL_ITERATE(it, n, f) ::seal::util::seal_iterate(it, n, f)
namespace seal {
enum class seal_byte : unsigned char {};
using parms_id_type = std::array<uint64_t, 4>;
inline const parms_id_type parms_id_zero{};
using prng_seed_type = std::array<uint64_t, 8>;
inline constexpr size_t prng_seed_byte_count = 64;
inline constexpr int bytes_per_uint64 = 8;
enum class scheme_type : uint8_t { none, bfv, ckks, bgv };
enum class sec_level_type : int { none = 0, tc128 = 128 };
enum class compr_mode_type : uint8_t { none, zlib, zstd };
enum mm_prof_opt : uint64_t { mm_default, mm_force_global, mm_force_new, mm_force_thread_local };
struct MemoryPoolHandle { operator bool() const; };
struct MemoryManager { template <class... A> static MemoryPoolHandle GetPool(A&&...); };
struct SEALVersion { uint8_t major, minor, patch, tweak; };
struct Serialization { static compr_mode_type compr_mode_default;
  template <class... A> static std::streamoff Save(A&&...); template <class... A> static std::streamoff Load(A&&...); static size_t ComprSizeEstimate(size_t, compr_mode_type); 
  struct SEALHeader { size_t size; }; };
class Modulus { public: Modulus(uint64_t v = 0); uint64_t value() const; int bit_count() const; bool is_prime() const; bool is_zero() const; const std::array<uint64_t, 3>& const_ratio() const; size_t uint64_count() const; uint64_t reduce(uint64_t) const; };
struct CoeffModulus { static std::vector<Modulus> Create(size_t, std::vector<int>); static std::vector<Modulus> BFVDefault(size_t, sec_level_type = sec_level_type::tc128); };
struct PlainModulus { static Modulus Batching(size_t, int); static std::vector<Modulus> Batching(size_t, std::vector<int>); };
struct UniformRandomGeneratorInfo { static std::streamoff SaveSize(compr_mode_type); template <class... A> std::streamoff save(A&&...) const; template <class... A> std::streamoff load(A&&...); std::shared_ptr<class UniformRandomGenerator> make_prng() const; };
class UniformRandomGenerator { public: void generate(size_t, seal_byte*); uint32_t generate(); UniformRandomGeneratorInfo info() const; void refresh(); };
class UniformRandomGeneratorFactory { public: std::shared_ptr<UniformRandomGenerator> create(); std::shared_ptr<UniformRandomGenerator> create(prng_seed_type); static std::shared_ptr<UniformRandomGeneratorFactory> DefaultFactory(); };
class EncryptionParameters { public: EncryptionParameters(scheme_type = scheme_type::none); size_t poly_modulus_degree() const; const std::vector<Modulus>& coeff_modulus() const; const Modulus& plain_modulus() const; scheme_type scheme() const;
  std::shared_ptr<UniformRandomGeneratorFactory> random_generator() const; const parms_id_type& parms_id() const;
  void set_poly_modulus_degree(size_t); void set_coeff_modulus(const std::vector<Modulus>&); void set_plain_modulus(const Modulus&); void set_plain_modulus(uint64_t); void set_random_generator(std::shared_ptr<UniformRandomGeneratorFactory>); void set_use_special_prime(bool); bool use_special_prime() const; };
namespace util {
template <class T = uint64_t> struct Pointer { T* get() const; T& operator[](size_t) const; Pointer() = default; T* release(); template <class X> operator X*() const; };
template <class T> struct ConstPointer : Pointer<T> {};
struct NTTTables { template <class... A> NTTTables(A&&...); uint64_t inv_degree_modulo_operand() const; const struct MultiplyUIntModOperand& inv_degree_modulo() const; const Modulus& modulus() const; const struct MultiplyUIntModOperand* get_from_root_powers() const; };
struct MultiplyUIntModOperand { uint64_t operand, quotient; void set(uint64_t, const Modulus&); void set_quotient(const Modulus&); };
struct RNSBase { RNSBase(const std::vector<Modulus>&, MemoryPoolHandle); size_t size() const; const uint64_t* base_prod() const; const uint64_t* punctured_prod_array() const; const MultiplyUIntModOperand* inv_punctured_prod_mod_base_array() const; void decompose(uint64_t*, MemoryPoolHandle) const; void decompose_array(uint64_t*, size_t, MemoryPoolHandle) const; void compose_array(uint64_t*, size_t, MemoryPoolHandle) const; const Modulus* base() const; const Modulus& operator[](size_t) const; };
struct IterAny { template <class T> IterAny(T&&); IterAny(); IterAny operator[](size_t) const; IterAny operator*() const; template <class... A> IterAny operator()(A&&...) const; operator uint64_t*() const; IterAny operator+(size_t) const; IterAny& operator++(); IterAny& operator+=(size_t); };
struct RNSIter : IterAny { RNSIter(uint64_t*, size_t); };
struct ConstRNSIter : IterAny { ConstRNSIter(const uint64_t*, size_t); };
struct CoeffIter : IterAny { CoeffIter(uint64_t*); };
struct ConstCoeffIter : IterAny { ConstCoeffIter(const uint64_t*); };
struct PolyIter : IterAny { template <class... A> PolyIter(A&&...); };
struct BaseConverter { BaseConverter(const RNSBase&, const RNSBase&, MemoryPoolHandle); template <class... A> void fast_convert_array(A&&...) const; template <class... A> void fast_convert(A&&...) const; template <class... A> void exact_convert_array(A&&...) const; };
struct RNSTool { const RNSBase* base_q() const; const RNSBase* base_Bsk() const; template <class... A> void divide_and_round_q_last_ntt_inplace(A&&...) const; template <class... A> void divide_and_round_q_last_inplace(A&&...) const; template <class... A> void decrypt_scale_and_round(A&&...) const; void decrypt_scale_and_round(ConstRNSIter, CoeffIter, MemoryPoolHandle) const; template <class... A> void mod_t_and_divide_q_last_ntt_inplace(A&&...) const; };
struct Iter1 { template <class... A> IterAny operator()(A&&...) const; };
IterAny iterN();
template <class A> IterAny iter(A&&);
template <class A, class B, class... C> std::tuple<IterAny, IterAny> iter(A&&, B&&, C&&...);
template <class I, class F> void seal_iterate(I it, size_t n, F&& f) { f(it); }
#define SEAL_FN(x) template <class... A> void x(A&&...);
SEAL_FN(ntt_negacyclic_harvey) SEAL_FN(ntt_negacyclic_harvey_lazy) SEAL_FN(inverse_ntt_negacyclic_harvey) SEAL_FN(inverse_ntt_negacyclic_harvey_lazy)
SEAL_FN(add_poly_coeffmod) SEAL_FN(sub_poly_coeffmod) SEAL_FN(negate_poly_coeffmod) SEAL_FN(multiply_poly_scalar_coeffmod) SEAL_FN(dyadic_product_coeffmod) SEAL_FN(modulo_poly_coeffs) SEAL_FN(set_poly) SEAL_FN(set_zero_poly) SEAL_FN(set_uint) SEAL_FN(set_zero_uint)
SEAL_FN(sample_poly_uniform) SEAL_FN(sample_poly_cbd) SEAL_FN(sample_poly_ternary) SEAL_FN(encrypt_zero_symmetric) SEAL_FN(encrypt_zero_asymmetric) SEAL_FN(seal_memzero) SEAL_FN(multiply_add_plain_with_scaling_variant) SEAL_FN(multiply_sub_plain_with_scaling_variant) SEAL_FN(right_shift_uint) SEAL_FN(left_shift_uint) SEAL_FN(apply_galois) SEAL_FN(divide_uint) SEAL_FN(multiply_uint)
#undef SEAL_FN
void add_poly_coeffmod(ConstRNSIter, ConstRNSIter, size_t, const std::vector<Modulus>&, RNSIter); SEAL_FN2(right_shift_uint192)
template <class... A> unsigned char add_uint(A&&...); template <class... A> unsigned char sub_uint(A&&...);
template <class... A> uint64_t barrett_reduce_64(A&&...); template <class... A> uint64_t barrett_reduce_128(A&&...); template <class... A> uint64_t multiply_uint_mod(A&&...); template <class... A> uint64_t add_uint_mod(A&&...); template <class... A> uint64_t sub_uint_mod(A&&...); template <class... A> uint64_t negate_uint_mod(A&&...); template <class... A> uint64_t modulo_uint(A&&...); template <class... A> uint64_t multiply_add_uint_mod(A&&...); template <class... A> uint64_t exponentiate_uint_mod(A&&...); template <class... A> uint64_t dot_product_mod(A&&...); template <class... A> uint64_t multiply_uint_mod_lazy(A&&...);
bool try_invert_uint_mod(uint64_t, const Modulus&, uint64_t&); template <class... A> bool is_greater_than_or_equal_uint(A&&...); template <class... A> bool are_close(A&&...);
std::vector<Modulus> get_primes(uint64_t, int, size_t);
template <class T = size_t, class... A> size_t mul_safe(A...); template <class... A> size_t add_safe(A...); template <class... A> size_t sub_safe(A...); template <class T, class... A> T safe_cast(A...); template <class A, class B> bool fits_in(A, B); 
template <class A, class B> auto divide_round_up(A a, B) -> A;
template <class... A> Pointer<uint64_t> allocate_poly(A&&...); template <class... A> Pointer<uint64_t> allocate_uint(A&&...); template <class... A> Pointer<uint64_t> allocate_zero_poly(A&&...); template <class... A> Pointer<uint64_t> allocate_zero_uint(A&&...); template <class T, class... A> Pointer<T> allocate(A&&...);
template <class T> int get_power_of_two(T); template <class... A> uint32_t reverse_bits(A&&...); 
uint64_t seal_dummy();
struct GaloisTool { static size_t GetIndexFromElt(uint32_t); uint32_t get_elt_from_step(int) const; template <class... A> void apply_galois(A&&...) const; template <class... A> void apply_galois_ntt(A&&...) const; };
struct ReaderWriterLocker { std::unique_ptr<int> acquire_read() const; std::unique_ptr<int> acquire_write() const; };
using ReaderLock = std::unique_ptr<int>; using WriterLock = std::unique_ptr<int>;
#define SEAL_ASSIGN_OR
}  // namespace util
class SEALContext { public:
  class ContextData { public: const EncryptionParameters& parms() const; const parms_id_type& parms_id() const; size_t chain_index() const; std::shared_ptr<const ContextData> next_context_data() const; std::shared_ptr<const ContextData> prev_context_data() const; const util::NTTTables* small_ntt_tables() const; const util::RNSTool* rns_tool() const; const uint64_t* total_coeff_modulus() const; int total_coeff_modulus_bit_count() const; const util::MultiplyUIntModOperand* coeff_div_plain_modulus() const; const util::GaloisTool* galois_tool() const; const util::NTTTables* plain_ntt_tables() const; };
  SEALContext(const EncryptionParameters&, bool = true, sec_level_type = sec_level_type::tc128);
  bool parameters_set() const; std::shared_ptr<const ContextData> get_context_data(parms_id_type) const; std::shared_ptr<const ContextData> key_context_data() const; std::shared_ptr<const ContextData> first_context_data() const; std::shared_ptr<const ContextData> last_context_data() const;
  const parms_id_type& key_parms_id() const; const parms_id_type& first_parms_id() const; const parms_id_type& last_parms_id() const; bool using_keyswitching() const; };
template <class T> class DynArray { public: T* begin(); const T* begin() const; T* data(); const T* data() const; T* cbegin() const; T* cend() const; T* end(); size_t size() const; void resize(size_t, bool = true); T& operator[](size_t); };
#define SEAL_IO template <class... A> std::streamoff save(A&&...) const; template <class... A> std::streamoff load(A&&...); template <class... A> std::streamoff unsafe_load(A&&...); std::streamoff save_size(compr_mode_type = compr_mode_type::none) const;
class Plaintext { public: Plaintext(MemoryPoolHandle = {}); Plaintext(size_t, MemoryPoolHandle = {}); uint64_t* data(); const uint64_t* data() const; uint64_t* data(size_t); uint64_t& operator[](size_t); const uint64_t& operator[](size_t) const; size_t coeff_count() const; void resize(size_t); void release(); void reserve(size_t); void set_zero(); void set_zero(size_t); parms_id_type& parms_id(); const parms_id_type& parms_id() const; double& scale(); const double& scale() const; bool is_ntt_form() const; const DynArray<uint64_t>& dyn_array() const; size_t capacity() const; size_t significant_coeff_count() const; bool is_zero() const; SEAL_IO };
class Ciphertext { public: Ciphertext(MemoryPoolHandle = {}); explicit Ciphertext(const SEALContext&, MemoryPoolHandle = {}); uint64_t* data(); const uint64_t* data() const; uint64_t* data(size_t); const uint64_t* data(size_t) const; uint64_t& operator[](size_t); template <class... A> void resize(A&&...); void release(); template <class... A> void reserve(A&&...); size_t size() const; size_t coeff_modulus_size() const; size_t poly_modulus_degree() const; parms_id_type& parms_id(); const parms_id_type& parms_id() const; bool& is_ntt_form(); bool is_ntt_form() const; double& scale(); const double& scale() const; uint64_t& correction_factor(); const uint64_t& correction_factor() const; bool is_transparent() const; MemoryPoolHandle pool() const; const DynArray<uint64_t>& dyn_array() const; SEAL_IO };
class SecretKey { public: Plaintext& data(); const Plaintext& data() const; parms_id_type& parms_id(); const parms_id_type& parms_id() const; SEAL_IO };
class PublicKey { public: Ciphertext& data(); const Ciphertext& data() const; parms_id_type& parms_id(); const parms_id_type& parms_id() const; SEAL_IO };
class KSwitchKeys { public: size_t size() const; std::vector<std::vector<PublicKey>>& data(); const std::vector<std::vector<PublicKey>>& data() const; const std::vector<PublicKey>& data(size_t) const; parms_id_type& parms_id(); const parms_id_type& parms_id() const; SEAL_IO };
class GaloisKeys : public KSwitchKeys { public: bool has_key(uint32_t) const; static size_t get_index(uint32_t); };
class RelinKeys : public KSwitchKeys {};
template <class T> class Serializable { public: const T& obj() const; SEAL_IO };
class KeyGenerator { public: KeyGenerator(const SEALContext&); KeyGenerator(const SEALContext&, const SecretKey&); const SecretKey& secret_key() const; Serializable<PublicKey> create_public_key() const; void create_public_key(PublicKey&) const; template <class... A> Serializable<GaloisKeys> create_galois_keys(A&&...); Serializable<GaloisKeys> create_galois_keys(std::vector<uint32_t>); };
class Encryptor { public: Encryptor(const SEALContext&, const PublicKey&); Encryptor(const SEALContext&, const SecretKey&); template <class... A> void encrypt(A&&...) const; void encrypt_symmetric(const Plaintext&, Ciphertext&, MemoryPoolHandle = {}) const; Serializable<Ciphertext> encrypt_symmetric(const Plaintext&) const; template <class... A> void encrypt_zero_symmetric(A&&...) const; void set_secret_key(const SecretKey&); };
class Decryptor { public: Decryptor(const SEALContext&, const SecretKey&); void decrypt(const Ciphertext&, Plaintext&); int invariant_noise_budget(const Ciphertext&); };
class Evaluator { public: explicit Evaluator(const SEALContext&);
#define SEAL_FN(x) template <class... A> void x(A&&...) const;
  SEAL_FN(add) SEAL_FN(sub) SEAL_FN(add_inplace) SEAL_FN(sub_inplace) SEAL_FN(add_plain) SEAL_FN(add_plain_inplace) SEAL_FN(sub_plain) SEAL_FN(sub_plain_inplace) SEAL_FN(multiply_plain) SEAL_FN(multiply_plain_inplace) SEAL_FN(mod_switch_to_inplace) SEAL_FN(mod_switch_to_next_inplace) SEAL_FN(mod_switch_to_next) SEAL_FN(transform_to_ntt) SEAL_FN(transform_to_ntt_inplace) SEAL_FN(transform_from_ntt) SEAL_FN(transform_from_ntt_inplace) SEAL_FN(apply_galois) SEAL_FN(apply_galois_inplace) SEAL_FN(negate) SEAL_FN(negate_inplace) SEAL_FN(multiply) SEAL_FN(rotate_rows) };
#undef SEAL_FN
class BatchEncoder { public: explicit BatchEncoder(const SEALContext&); template <class... A> void encode(A&&...) const; template <class... A> void decode(A&&...) const; size_t slot_count() const; };
template <class... A> bool is_metadata_valid_for(A&&...); template <class... A> bool is_valid_for(A&&...); template <class... A> bool is_buffer_valid(A&&...);
}  // namespace seal
namespace std { template <> struct hash<::seal::parms_id_type> { size_t operator()(const ::seal::parms_id_type&) const; }; }
