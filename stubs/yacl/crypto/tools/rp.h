#pragma once
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
namespace yacl::crypto { class RP { public: uint128_t Gen(uint128_t x) const { return MiniMix(3, x); } }; }
