// Shim: Tink is not installed. The repository only refers to these types in
// comments and tests; encryption is reached through injected callbacks.
#ifndef VERIF_SHIM_TINK_HYBRID_DECRYPT_H_
#define VERIF_SHIM_TINK_HYBRID_DECRYPT_H_
namespace crypto { namespace tink { class HybridDecrypt; } }
#endif
