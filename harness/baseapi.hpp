#pragma once
#include <memory>
#include "libpgfe/base_encoding/base16.h"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.h"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.h"
#include "libpgfe/base_encoding/base64.hpp"
#include "ref/base.hpp"
namespace bapi {
typedef size_t (*EncF)(const pgfe_encode_t *, size_t, char *);
typedef size_t (*DecF)(const char *, pgfe_encode_t *);
static const EncF enc[5] = {pgfe_encode_base16, pgfe_encode_base32, pgfe_encode_base32hex, pgfe_encode_base64, pgfe_encode_base64_url};
static const DecF dec[5] = {pgfe_decode_base16, pgfe_decode_base32, pgfe_decode_base32hex, pgfe_decode_base64, pgfe_decode_base64};
inline std::unique_ptr<libpgfe::AbstractBaseEncoding> make(int e) {
    switch (e) {
    case 0: return std::make_unique<libpgfe::Base16>();
    case 1: return std::make_unique<libpgfe::Base32>();
    case 2: return std::make_unique<libpgfe::Base32>(true);
    case 3: return std::make_unique<libpgfe::Base64>();
    default: return std::make_unique<libpgfe::Base64>(true);
    }
}
// decoded bytes rounded up to a whole unit, plus one
inline size_t dec_room(int e, size_t n) {
    size_t u = (size_t)ref::enc_unit[e];
    return (n + u - 1) / u * u + 1;
}
} // namespace bapi
