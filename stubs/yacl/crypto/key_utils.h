#pragma once
#include <memory>
#include <string>
#include <utility>
#include "yacl/base/buffer.h"
namespace yacl::crypto {
namespace openssl { using UniquePkey = std::shared_ptr<int>; }
struct MiniKeyPair : std::pair<Buffer, Buffer> { using std::pair<Buffer, Buffer>::pair; operator openssl::UniquePkey() const { return nullptr; } };
inline MiniKeyPair GenSm2KeyPair() { Buffer b(std::string("sm2key")); return MiniKeyPair(b, b); }
inline std::pair<Buffer, Buffer> GenSm2KeyPairToPemBuf() { return GenSm2KeyPair(); }
inline openssl::UniquePkey LoadKeyFromFile(const std::string&) { return nullptr; }
inline Buffer ExportSecretKeyToPemBuf(const openssl::UniquePkey&) { return Buffer(std::string("sm2key")); }
inline void ExportSecretKeyToDerFile(const openssl::UniquePkey&, const std::string&) {}
inline void ExportPublicKeyToPemFile(const openssl::UniquePkey&, const std::string&) {}
}
