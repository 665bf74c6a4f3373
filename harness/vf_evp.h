/* OpenSSL EVP, as the encryption code uses it: block modes over a stand-in for the block cipher (a keyed injective mix of
 * the block). What is checked is which bytes are encrypted, with which key, IV, counter and chaining - not AES itself. */
#include <openssl/evp.h>
enum { EVP_ECB = 1, EVP_CBC };
struct evp_cipher_ctx_st { int mode, n; u_char key[16], iv[16], buf[16]; };
static int evp_tag[3], evp_live;
const EVP_CIPHER *EVP_aes_128_ecb(void) { return (EVP_CIPHER *) &evp_tag[EVP_ECB]; }
const EVP_CIPHER *EVP_aes_128_cbc(void) { return (EVP_CIPHER *) &evp_tag[EVP_CBC]; }
EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void) { EVP_CIPHER_CTX *c = vf_zalloc(sizeof(*c)); evp_live++; return c; }
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c) { if (c) { evp_live--; vf_free(c); } }
static void evp_block(const u_char *key, const u_char *in, u_char *out)
{
    u_char t[16]; int i;
    for (i = 0; i < 16; i++) t[i] = (u_char) (in[(i * 7 + 3) & 15] + 0x31 + i) ^ key[i];
    for (i = 0; i < 16; i++) out[i] = t[i];
}
int EVP_EncryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *key, const unsigned char *iv)
{
    int i;
    if (t) c->mode = t == (EVP_CIPHER *) &evp_tag[EVP_ECB] ? EVP_ECB : EVP_CBC;
    if (key) for (i = 0; i < 16; i++) c->key[i] = key[i];
    if (iv) for (i = 0; i < 16; i++) c->iv[i] = iv[i];
    c->n = 0; return 1;
}
static void evp_enc(EVP_CIPHER_CTX *c, const u_char *in, u_char *out)
{
    u_char t[16]; int i;
    for (i = 0; i < 16; i++) t[i] = c->mode == EVP_CBC ? in[i] ^ c->iv[i] : in[i];
    evp_block(c->key, t, out);
    if (c->mode == EVP_CBC) for (i = 0; i < 16; i++) c->iv[i] = out[i];
}
int EVP_EncryptUpdate(EVP_CIPHER_CTX *c, unsigned char *out, int *outl, const unsigned char *in, int n)
{
    u_char b[16]; *outl = 0;
    VF_ASSERT(c->mode, "cipher used before it is set up");
    for (; n > 0; n--) { c->buf[c->n++] = *in++; if (c->n == 16) { c->n = 0; evp_enc(c, c->buf, b); ngx_memcpy(out, b, 16); out += 16; *outl += 16; } }
    return 1;
}
int EVP_EncryptFinal_ex(EVP_CIPHER_CTX *c, unsigned char *out, int *outl)
{
    int i, n = c->n;
    for (i = n; i < 16; i++) c->buf[i] = 16 - n;
    evp_enc(c, c->buf, out); *outl = 16; return 1;
}
