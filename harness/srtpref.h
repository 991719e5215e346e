// An independent SRTP implementation (RFC 3711, RFC 7714) and DTLS pairs to take keys from.
#pragma once
#include "common.h"
#include <algorithm>
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/srtp.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
namespace
{
using Bytes = std::vector<uint8_t>;
// ------------------------------------------------------------ reference implementation
struct Ref {
    int prof = 0;
    Bytes key, salt;
    Bytes kdf(uint8_t label, size_t n) const
    {
        // AES-CM key derivation, key derivation rate 0
        Bytes x(14, 0);
        for (size_t i = 0; i < salt.size(); i++) x[i] = salt[i];
        x[7] ^= label;
        Bytes out(((n + 15) / 16) * 16, 0), iv(16, 0), zero(out.size(), 0);
        std::copy(x.begin(), x.end(), iv.begin());
        EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
        int len = 0;
        EVP_EncryptInit_ex(c, key.size() == 32 ? EVP_aes_256_ctr() : EVP_aes_128_ctr(), nullptr, key.data(), iv.data());
        EVP_EncryptUpdate(c, out.data(), &len, zero.data(), static_cast<int>(zero.size()));
        EVP_CIPHER_CTX_free(c);
        out.resize(n);
        return out;
    }
    bool gcm() const { return prof == 1 || prof == 2; }
    static size_t header(const Bytes& p)
    {
        size_t h = 12 + (p[0] & 15) * 4;
        if (p[0] & 0x10) h += 4 + (p[h + 2] << 8 | p[h + 3]) * 4;
        return h;
    }
    static void be(Bytes& b, size_t at, uint64_t v, int n) { for (int i = 0; i < n; i++) b[at + i] ^= v >> (8 * (n - 1 - i)); }
    static Bytes mac(const Bytes& k, const Bytes& d, size_t n)
    {
        uint8_t out[20];
        unsigned len = 0;
        HMAC(EVP_sha1(), k.data(), static_cast<int>(k.size()), d.data(), d.size(), out, &len);
        return Bytes(out, out + n);
    }
    Bytes crypt(const Bytes& k, const Bytes& iv, const Bytes& aad, const Bytes& plain) const
    {
        EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
        Bytes out(plain.size());
        int len = 0;
        if (gcm()) {
            EVP_EncryptInit_ex(c, k.size() == 32 ? EVP_aes_256_gcm() : EVP_aes_128_gcm(), nullptr, k.data(), iv.data());
            EVP_EncryptUpdate(c, nullptr, &len, aad.data(), static_cast<int>(aad.size()));
            EVP_EncryptUpdate(c, out.data(), &len, plain.data(), static_cast<int>(plain.size()));
            EVP_EncryptFinal_ex(c, out.data() + len, &len);
            Bytes tag(16);
            EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, tag.data());
            out.insert(out.end(), tag.begin(), tag.end());
        } else {
            EVP_EncryptInit_ex(c, EVP_aes_128_ctr(), nullptr, k.data(), iv.data());
            EVP_EncryptUpdate(c, out.data(), &len, plain.data(), static_cast<int>(plain.size()));
        }
        EVP_CIPHER_CTX_free(c);
        return out;
    }
    Bytes media(const Bytes& p, uint32_t roc) const
    {
        const size_t h = header(p);
        const uint32_t ssrc = p[8] << 24 | p[9] << 16 | p[10] << 8 | p[11];
        const uint16_t seq = p[2] << 8 | p[3];
        const Bytes k = kdf(0, key.size()), a = kdf(1, 20), s = kdf(2, salt.size());
        Bytes head(p.begin(), p.begin() + h), body(p.begin() + h, p.end()), iv;
        if (gcm()) { iv = s; be(iv, 2, ssrc, 4); be(iv, 6, roc, 4); be(iv, 10, seq, 2); }
        else { iv = s; iv.resize(16); be(iv, 4, ssrc, 4); be(iv, 8, roc, 4); be(iv, 12, seq, 2); }
        Bytes out = head, enc = crypt(k, iv, head, body);
        out.insert(out.end(), enc.begin(), enc.end());
        if (!gcm()) {
            Bytes m = out;
            for (int i = 3; i >= 0; i--) m.push_back(roc >> (8 * i));
            const Bytes t = mac(a, m, prof == 3 ? 10 : 4);
            out.insert(out.end(), t.begin(), t.end());
        }
        return out;
    }
    Bytes control(const Bytes& p, uint32_t index, bool e) const
    {
        const uint32_t ssrc = p[4] << 24 | p[5] << 16 | p[6] << 8 | p[7];
        const Bytes k = kdf(3, key.size()), a = kdf(4, 20), s = kdf(5, salt.size());
        Bytes trailer(4, 0);
        be(trailer, 0, index | (e ? 0x80000000u : 0), 4);
        Bytes head(p.begin(), p.begin() + 8), body(p.begin() + 8, p.end()), iv, out = head;
        if (gcm()) {
            iv = s; be(iv, 2, ssrc, 4); be(iv, 8, index, 4);
            Bytes aad = e ? head : p;
            aad.insert(aad.end(), trailer.begin(), trailer.end());
            if (!e) out = p;
            const Bytes enc = crypt(k, iv, aad, e ? body : Bytes());
            out.insert(out.end(), enc.begin(), enc.end());
            out.insert(out.end(), trailer.begin(), trailer.end());
        } else {
            iv = s; iv.resize(16); be(iv, 4, ssrc, 4); be(iv, 8, uint64_t(index) << 16, 8);
            const Bytes enc = e ? crypt(k, iv, {}, body) : body;
            out.insert(out.end(), enc.begin(), enc.end());
            out.insert(out.end(), trailer.begin(), trailer.end());
            const Bytes t = mac(a, out, 10);
            out.insert(out.end(), t.begin(), t.end());
        }
        return out;
    }
    // the packet that was protected under this rollover count, if the authentication verifies
    bool openMedia(const Bytes& p, uint32_t roc, Bytes& out) const
    {
        if (p.size() < 12 || p.size() < header(p) + (gcm() ? 16 : prof == 3 ? 10 : 4)) return false;
        const size_t h = header(p), tag = gcm() ? 16 : prof == 3 ? 10 : 4;
        Bytes plain(p.begin(), p.end() - tag);
        // both ciphers add a key stream: protecting the encrypted body again gives the plain one
        Bytes once = media(plain, roc);
        out.assign(once.begin(), once.begin() + plain.size());
        return media(out, roc) == p;
    }
    bool openControl(const Bytes& p, uint32_t& index, Bytes& out) const
    {
        const size_t tag = gcm() ? 16 : 10;
        if (p.size() < 8 + 4 + tag) return false;
        const size_t at = gcm() ? p.size() - 4 : p.size() - 14;
        index = (p[at] & 0x7f) << 24 | p[at + 1] << 16 | p[at + 2] << 8 | p[at + 3];
        Bytes plain(p.begin(), p.end() - tag - 4);
        Bytes once = control(plain, index, true);
        out.assign(once.begin(), once.begin() + plain.size());
        return control(out, index, true) == p;
    }
};

// ------------------------------------------------------------ a real handshake for each profile
const char* kProfiles[5] = { "", "SRTP_AEAD_AES_256_GCM", "SRTP_AEAD_AES_128_GCM", "SRTP_AES128_CM_SHA1_80", "SRTP_AES128_CM_SHA1_32" };
struct Pair { SSL* server; SSL* client; };
int anyCert(int, X509_STORE_CTX*) { return 1; }
Pair& pairFor(int prof)
{
    static std::map<int, Pair> all;
    auto it = all.find(prof);
    if (it != all.end()) return it->second;
    EVP_PKEY* key = EVP_EC_gen("P-256");
    X509* x = X509_new();
    ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
    X509_gmtime_adj(X509_getm_notBefore(x), -1000);
    X509_gmtime_adj(X509_getm_notAfter(x), 100000);
    X509_set_pubkey(x, key);
    X509_sign(x, key, EVP_sha256());
    SSL* ssl[2];
    for (int i = 0; i < 2; i++) {
        SSL_CTX* ctx = SSL_CTX_new(DTLS_method());
        SSL_CTX_use_certificate(ctx, x);
        SSL_CTX_use_PrivateKey(ctx, key);
        SSL_CTX_set_verify(ctx, SSL_VERIFY_PEER, anyCert);
        SSL_CTX_set_tlsext_use_srtp(ctx, kProfiles[prof]);
        ssl[i] = SSL_new(ctx);
    }
    BIO* in[2]; BIO* out[2];
    for (int i = 0; i < 2; i++) {
        in[i] = BIO_new(BIO_s_mem()); out[i] = BIO_new(BIO_s_mem());
        BIO_set_mem_eof_return(in[i], -1); BIO_set_mem_eof_return(out[i], -1);
        SSL_set_bio(ssl[i], in[i], out[i]);
    }
    SSL_set_accept_state(ssl[0]);
    SSL_set_connect_state(ssl[1]);
    for (int n = 0; n < 40 && !(SSL_is_init_finished(ssl[0]) && SSL_is_init_finished(ssl[1])); n++) {
        const int i = 1 - n % 2;
        SSL_do_handshake(ssl[i]);
        uint8_t buf[65536];
        int k;
        while ((k = BIO_read(out[i], buf, sizeof(buf))) > 0) BIO_write(in[1 - i], buf, k);
    }
    if (!SSL_is_init_finished(ssl[0]) || !SSL_is_init_finished(ssl[1])) { std::fprintf(stderr, "handshake failed\n"); std::exit(2); }
    return all[prof] = { ssl[0], ssl[1] };
}
Ref refFor(SSL* ssl, int prof, bool clientWrites)
{
    const size_t kl = prof == 1 ? 32 : 16, sl = prof <= 2 ? 12 : 14;
    Bytes m(2 * (kl + sl));
    SSL_export_keying_material(ssl, m.data(), m.size(), "EXTRACTOR-dtls_srtp", 19, nullptr, 0, 0);
    const int w = clientWrites ? 0 : 1; // the client's write key comes first
    Ref r;
    r.prof = prof;
    r.key.assign(m.begin() + w * kl, m.begin() + (w + 1) * kl);
    r.salt.assign(m.begin() + 2 * kl + w * sl, m.begin() + 2 * kl + (w + 1) * sl);
    return r;
}
} // namespace
