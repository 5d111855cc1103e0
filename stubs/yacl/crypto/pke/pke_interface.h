#pragma once
#include <vector>
#include <memory>
#include "yacl/base/buffer.h"
namespace yacl::crypto {
class PkeEncryptor { public: virtual ~PkeEncryptor() = default; virtual std::vector<uint8_t> Encrypt(ByteContainerView) = 0; };
class PkeDecryptor { public: virtual ~PkeDecryptor() = default; virtual std::vector<uint8_t> Decrypt(ByteContainerView) = 0; };
inline std::vector<uint8_t> MiniXor(ByteContainerView v) { std::vector<uint8_t> r(v.begin(), v.end()); for (auto& x : r) { x ^= 0x5a; } return r; }
class Sm2Encryptor : public PkeEncryptor { public: explicit Sm2Encryptor(ByteContainerView) {} std::vector<uint8_t> Encrypt(ByteContainerView v) override { return MiniXor(v); } };
class Sm2Decryptor : public PkeDecryptor { public: explicit Sm2Decryptor(ByteContainerView) {} std::vector<uint8_t> Decrypt(ByteContainerView v) override { return MiniXor(v); } };
}
