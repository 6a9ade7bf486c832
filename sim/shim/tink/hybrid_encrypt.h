#ifndef VERIF_SHIM_TINK_HYBRID_ENCRYPT_H_
#define VERIF_SHIM_TINK_HYBRID_ENCRYPT_H_
namespace crypto { namespace tink { class HybridEncrypt; } }
#endif
