// Crypto++ 8 dropped the old spelling VerifierFilter.
#include "cryptopp/filters.h"
namespace CryptoPP { typedef SignatureVerificationFilter VerifierFilter; }
