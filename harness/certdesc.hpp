// The ten objects of doc/noise-certificate.proto, described for pbobj.hpp.
#ifndef CERTDESC_HPP
#define CERTDESC_HPP
#include "pbobj.hpp"
#include <noise/keys/certificate.h>
#define MSGS(X) X(Noise_Certificate) X(Noise_CertificateChain) X(Noise_SubjectInfo) X(Noise_PublicKeyInfo) X(Noise_MetaInfo) \
    X(Noise_Signature) X(Noise_ExtraSignedInfo) X(Noise_EncryptedPrivateKey) X(Noise_PrivateKey) X(Noise_PrivateKeyInfo)
MSGS(PB_DECL)
#define U32(M, F, T) PB_NUM(M, uint32_t, F, T, pb::UINT32, pb::OPT)
#define STR(M, F, T) PB_STR(M, char, F, T, pb::STRING, pb::OPT)
#define BYT(M, F, T) PB_STR(M, void, F, T, pb::BYTES, pb::OPT)
#define SUB(M, S, F, T) PB_MSG(M, S, F, T, pb::OPT)
#define SUBS(M, S, F, T) PB_MSGS(M, S, F, T, pb::REP)
static std::vector<const pb::MsgD *> all;
static void describe_all() {
    MSGS(PB_BEGIN)
    U32(Noise_Certificate, version, 1) SUB(Noise_Certificate, Noise_SubjectInfo, subject, 2) SUBS(Noise_Certificate, Noise_Signature, signatures, 3)
    SUBS(Noise_CertificateChain, Noise_Certificate, certs, 8)
    STR(Noise_SubjectInfo, id, 1) STR(Noise_SubjectInfo, name, 2) STR(Noise_SubjectInfo, role, 3)
    SUBS(Noise_SubjectInfo, Noise_PublicKeyInfo, keys, 4) SUBS(Noise_SubjectInfo, Noise_MetaInfo, meta, 5)
    STR(Noise_PublicKeyInfo, algorithm, 1) BYT(Noise_PublicKeyInfo, key, 2)
    STR(Noise_MetaInfo, name, 1) STR(Noise_MetaInfo, value, 2)
    STR(Noise_Signature, id, 1) STR(Noise_Signature, name, 2) SUB(Noise_Signature, Noise_PublicKeyInfo, signing_key, 3) STR(Noise_Signature, hash_algorithm, 4)
    SUB(Noise_Signature, Noise_ExtraSignedInfo, extra_signed_info, 5) BYT(Noise_Signature, signature, 15)
    BYT(Noise_ExtraSignedInfo, nonce, 1) STR(Noise_ExtraSignedInfo, valid_from, 2) STR(Noise_ExtraSignedInfo, valid_to, 3) SUBS(Noise_ExtraSignedInfo, Noise_MetaInfo, meta, 4)
    U32(Noise_EncryptedPrivateKey, version, 10) STR(Noise_EncryptedPrivateKey, algorithm, 11) BYT(Noise_EncryptedPrivateKey, salt, 12)
    U32(Noise_EncryptedPrivateKey, iterations, 13) BYT(Noise_EncryptedPrivateKey, encrypted_data, 15)
    STR(Noise_PrivateKey, id, 1) STR(Noise_PrivateKey, name, 2) STR(Noise_PrivateKey, role, 3)
    SUBS(Noise_PrivateKey, Noise_PrivateKeyInfo, keys, 4) SUBS(Noise_PrivateKey, Noise_MetaInfo, meta, 5)
    STR(Noise_PrivateKeyInfo, algorithm, 1) BYT(Noise_PrivateKeyInfo, key, 2)
}
#endif
