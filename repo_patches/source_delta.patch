From 287655cb3ba43b479ac9b146d06728a0c17846f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 01/18] fix: point subtraction with the point at infinity as an
 operand

---
 includes/ecc_template.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 4eb6e95..739ea36 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -353,9 +353,12 @@ Field_XXX_p,
 Field_XXX_n
 >::operator- (const Point_XXX& P) const
 {
-    assert(*this->curve == *P.curve);
+    if(P.is_inf)
+        return *static_cast<const Point_XXX*>(this);
+
+    assert(is_inf || *this->curve == *P.curve);
 
-    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, curve);
+    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, P.curve);
 
     
     return *this + Q;
-- 
2.43.0


From 54fc089ed5ce403ba81815640afb07cdd8da2bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 02/18] fix: doubling the point at infinity dereferenced a null
 curve

---
 includes/ecc_template.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 739ea36..0889ed8 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -556,6 +556,9 @@ Field_XXX_p,
 Field_XXX_n
 >::pointDouble() const
 {
+    if(is_inf)
+        return *static_cast<const Point_XXX*>(this);
+
     Field_XXX_p T1;
     Field_XXX_p T2;
     Field_XXX_p S;
-- 
2.43.0


From 3918d5c447371b4aadd78994b4af91487d7393c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 03/18] fix: comparing the point (0,0) with infinity
 dereferenced a null curve

---
 includes/ecc_template.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 0889ed8..5143e60 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -498,10 +498,10 @@ Field_XXX_p,
 Field_XXX_n
 >::operator== (const Point_XXX& P) const
 {
-    if(is_inf == true && P.is_inf == true)
-        return true;
+    if(is_inf || P.is_inf)
+        return is_inf == P.is_inf;
     
-    return x == P.x && y == P.y && *curve == *P.curve && is_inf == P.is_inf;
+    return x == P.x && y == P.y && *curve == *P.curve;
 }
 
 template<
-- 
2.43.0


From 1fd9b99cb218f454f7f366bb84a3b77605fc5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 04/18] fix: point *= integer was declared but never defined

---
 includes/ecc_template.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 5143e60..cdfa157 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -447,6 +447,23 @@ Field_XXX_n
     return *static_cast<Point_XXX*>(this);;
 }
 
+template<
+        typename Curve_XXX,
+        typename Point_XXX, 
+        typename Field_XXX_p, 
+        typename Field_XXX_n
+        >
+Point_XXX& Point<
+Curve_XXX, 
+Point_XXX, 
+Field_XXX_p, 
+Field_XXX_n
+>::operator*= (const mpz_class& a)
+{
+    *this = *this * a;
+    return *static_cast<Point_XXX*>(this);
+}
+
 template<
         typename Curve_XXX,
         typename Point_XXX, 
-- 
2.43.0


From d0ccd582d5c3e96ed605838daf4448f4b864b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 05/18] fix: generateKeyPair did not compile when used

---
 includes/ecc_template.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index cdfa157..eadfd91 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -681,7 +681,7 @@ Field_XXX_n
 >::generateKeyPair(void) const
 {
     mpz_class sk = Curve_XXX::rand.get_z_range(order);
-    Point pk = G * sk;
+    Point_XXX pk = G * sk;
     return KeyPair<Curve_XXX, Point_XXX, Field_XXX_p, Field_XXX_n>(sk,pk);
 }
 
-- 
2.43.0


From d332d96fa626a51636a91ec8857b6243744b9a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 06/18] fix: ElGamal keyGen returned nothing

---
 includes/elgamal.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/includes/elgamal.hpp b/includes/elgamal.hpp
index b7975ff..a413c0f 100644
--- a/includes/elgamal.hpp
+++ b/includes/elgamal.hpp
@@ -41,7 +41,14 @@ public:
     ElGamal(){}
     ~ElGamal(){}
 
-    keypair_t keyGen() const {curve.generateKeyPair();}
+    keypair_t keyGen() const
+    {
+        auto keys = curve.generateKeyPair();
+        keypair_t k;
+        k.sk = skey_t(keys.sk);
+        k.pk = pkey_t(keys.pk.getX(), keys.pk.getY(), keys.pk.curve);
+        return k;
+    }
     
     ctxt_t encrypt(const pkey_t pkey, const POINT msg) const;
     ctxt_t encrypt(const pkey_t pkey, const mpz_class msg) {return encrypt(pkey, encode(msg));}
-- 
2.43.0


From e8a0247b4fbe8a4daff30c61158f4799d4d6eac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 07/18] fix: ciphertext equality compared the ciphertext with
 itself

---
 src/dme/dme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index f3d8038..257edac 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -131,7 +131,7 @@ CTXT& CTXT::operator=(const CTXT& ctxt)
 
 bool CTXT::operator==(const CTXT& ctxt) const
 {
-    return this->u == u && this->mv == mv;
+    return this->u == ctxt.u && this->mv == ctxt.mv;
 }
 
 
-- 
2.43.0


From a84a4bc8b28f49d0eac370008b0458359fc3076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 08/18] fix: PUDA aggregation could not return the sum 65535

---
 src/puda/puda.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/puda/puda.cpp b/src/puda/puda.cpp
index 2239a25..e89a950 100644
--- a/src/puda/puda.cpp
+++ b/src/puda/puda.cpp
@@ -19,7 +19,7 @@ Puda::~Puda()
 
 msg_t Puda::compute_dlog(POINT1 c)
 {
-    for(uint16_t i=0; i!=USHRT_MAX; i++)
+    for(unsigned int i=0; i<=USHRT_MAX; i++)
     {
         if (pp.g1 * mpz_class(i) == c)
             return i;
-- 
2.43.0


From c1e6af7f3d3f3004c97d9fbc98c643ba017c26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 09/18] fix: appendCRC wrote its check value past the exported
 buffer

---
 includes/crc.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index 68c257a..2d53c35 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -49,6 +49,8 @@
 
 #include <sys/param.h>
 #include <stdint.h>
+#include <stdlib.h>
+#include <string.h>
 #include <gmpxx.h>
 #include <iostream>
 #include "utilities.hpp"
@@ -770,6 +772,7 @@ const mpz_class appendCRC(mpz_class n)
 
     uint32_t crc32c =  0; 
     crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len);
+    res = (uint8_t*) realloc(res, len+4);
     memcpy(res+len, &crc32c, 4);
 
     mpz_class r = utils::setRawMpz(res, len+4);    
-- 
2.43.0


From 340147ca383ff6edf69298b5da2227f75c831a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 10/18] fix: validateCRC and removeCRC read out of bounds on
 integers below four bytes

---
 includes/crc.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index 2d53c35..b42c2e7 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -785,6 +785,10 @@ const bool validateCRC(mpz_class n)
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
 
+    // shorter than a check value: only zero, the check value of zero, is valid
+    if (len < 4)
+        return len == 0;
+
     uint32_t value = 0;    
     value |= *(res + len -4) ;
     value |= *(res + len -3) << 8;
@@ -801,6 +805,8 @@ const mpz_class removeCRC(mpz_class n)
 {
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
+    if (len < 4)
+        return mpz_class(0);
     
     mpz_class r = utils::setRawMpz(res, len-4);    
     return r;
-- 
2.43.0


From 4c14699e91dcc3d3493495a28899c96adb891dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 11/18] fix: the check value functions leaked the exported
 buffers

---
 includes/crc.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index b42c2e7..8b58656 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -776,6 +776,7 @@ const mpz_class appendCRC(mpz_class n)
     memcpy(res+len, &crc32c, 4);
 
     mpz_class r = utils::setRawMpz(res, len+4);    
+    free(res);
     return r;
 
 }
@@ -787,7 +788,10 @@ const bool validateCRC(mpz_class n)
 
     // shorter than a check value: only zero, the check value of zero, is valid
     if (len < 4)
+    {
+        free(res);
         return len == 0;
+    }
 
     uint32_t value = 0;    
     value |= *(res + len -4) ;
@@ -797,6 +801,7 @@ const bool validateCRC(mpz_class n)
     
     uint32_t crc32c =  0; 
     crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len-4);
+    free(res);
     
     return (crc32c == value);
 }
@@ -806,9 +811,13 @@ const mpz_class removeCRC(mpz_class n)
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
     if (len < 4)
+    {
+        free(res);
         return mpz_class(0);
+    }
     
     mpz_class r = utils::setRawMpz(res, len-4);    
+    free(res);
     return r;
 
 }
-- 
2.43.0


From a50c34588fa30c8f452c0d5e2ac532a11f1790f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 12/18] fix: AES encrypt and decrypt took key and text in the
 opposite order of their declaration

---
 src/utilities/aes.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 570933a..85d8d7b 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -37,7 +37,7 @@ void AES::init()
     AES::iv = iv;
 }
 
-ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
+ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
@@ -88,7 +88,7 @@ ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
     return utils::setRawMpz(ciphertext,ciphertext_len);
 }
 
-msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
+msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
@@ -145,13 +145,13 @@ msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
 ctxt_t AES::encryptCRC(const mpz_class key, const msg_t plaintext) const
 {
     msg_t msg = appendCRC(plaintext);
-    return encrypt(msg, key);
+    return encrypt(key, msg);
 }
 
 msg_t AES::decryptCRC(const mpz_class key, const ctxt_t cipher) const
 {
     
-    msg_t m =  decrypt(cipher, key);
+    msg_t m =  decrypt(key, cipher);
     if(validateCRC(m))
     {
         m = removeCRC(m);
-- 
2.43.0


From 6e9ae5cb4160c3514ff268427a8cb85b369ff70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 13/18] fix: AES init() kept the previous initial vector and
 short vectors were read past their end

---
 src/utilities/aes.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 85d8d7b..1c90ca1 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -11,7 +11,7 @@
 
 namespace aes
 {
-string AES::iv;
+string AES::iv(CRYPTO_NPUBBYTES, '\0');
 
 void handleErrors(void)
 {
@@ -30,11 +30,12 @@ void handleErrors(void)
 void AES::init(const string iv)
 {
     AES::iv = iv;
+    AES::iv.resize(CRYPTO_NPUBBYTES, '\0');
 }
 
 void AES::init()
 {
-    AES::iv = iv;
+    init(aes::iv);
 }
 
 ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
-- 
2.43.0


From 495b67587f68feaa3c0bf819f7ccd2d5b3699903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 14/18] fix: AES keys with leading zero bytes were read past
 their end

---
 src/utilities/aes.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 1c90ca1..bb7b436 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -3,6 +3,8 @@
 #include <openssl/aes.h>
 #include <openssl/err.h>
 #include <iostream>   
+#include <stdlib.h>
+#include <string.h>
 
 #include "aes.hpp"
 #include "utilities.hpp"
@@ -27,6 +29,20 @@ void handleErrors(void)
 }
 
 
+// exports the key as exactly CRYPTO_KEYBYTES bytes, leading zero bytes included
+static void exportKey(uint8_t* keyarr, const mpz_class& key)
+{
+    uint8_t *raw;
+    size_t len = utils::getRawMpz(&raw, key);
+    size_t n = len < CRYPTO_KEYBYTES ? len : CRYPTO_KEYBYTES;
+
+    memset(keyarr, 0, CRYPTO_KEYBYTES);
+    if (n)
+        memcpy(keyarr + CRYPTO_KEYBYTES - n, raw, n);
+    free(raw);
+}
+
+
 void AES::init(const string iv)
 {
     AES::iv = iv;
@@ -44,10 +60,10 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     int len = 0, ciphertext_len = 0;
     unsigned char ciphertext[128];
     uint8_t *ptarr;
-    uint8_t *keyarr;
+    uint8_t keyarr[CRYPTO_KEYBYTES];
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
-    utils::getRawMpz(&keyarr, key);
+    exportKey(keyarr, key);
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
@@ -96,10 +112,10 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     // unsigned char plaintext[128];
     unsigned char plaintext[128];
     uint8_t *ctxtarr;
-    uint8_t *keyarr;
+    uint8_t keyarr[CRYPTO_KEYBYTES];
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
-    utils::getRawMpz(&keyarr, key);
+    exportKey(keyarr, key);
 
 
     /* Create and initialise the context */
-- 
2.43.0


From 980adb6881287f74d60294d8cbd1f4904a899645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 15/18] fix: AES overflowed a stack buffer on texts above 128
 bytes

---
 src/utilities/aes.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index bb7b436..942c615 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -5,6 +5,7 @@
 #include <iostream>   
 #include <stdlib.h>
 #include <string.h>
+#include <vector>
 
 #include "aes.hpp"
 #include "utilities.hpp"
@@ -58,11 +59,11 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
-    unsigned char ciphertext[128];
     uint8_t *ptarr;
     uint8_t keyarr[CRYPTO_KEYBYTES];
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
+    std::vector<unsigned char> ciphertext(pt_len + EVP_MAX_BLOCK_LENGTH);
     exportKey(keyarr, key);
 
     /* Create and initialise the context */
@@ -82,7 +83,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
      */
-    if(1 != EVP_EncryptUpdate(ctx, ciphertext, &len, (unsigned char*)ptarr, pt_len))
+    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data(), &len, (unsigned char*)ptarr, pt_len))
         handleErrors();
 
     ciphertext_len = len;
@@ -90,7 +91,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Finalise the encryption. Normally ciphertext bytes may be written at
      * this stage, but this does not occur in GCM mode
      */
-    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext + len, &len)) handleErrors();
+    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + len, &len)) handleErrors();
     ciphertext_len += len;
 
     // /* Get the tag */
@@ -102,19 +103,18 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
-    return utils::setRawMpz(ciphertext,ciphertext_len);
+    return utils::setRawMpz(ciphertext.data(),ciphertext_len);
 }
 
 msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
-    // unsigned char plaintext[128];
-    unsigned char plaintext[128];
     uint8_t *ctxtarr;
     uint8_t keyarr[CRYPTO_KEYBYTES];
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
+    std::vector<unsigned char> plaintext(ctxt_len + EVP_MAX_BLOCK_LENGTH);
     exportKey(keyarr, key);
 
 
@@ -137,7 +137,7 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     /* Provide the message to be decrypted, and obtain the plaintext output.
      * EVP_DecryptUpdate can be called multiple times if necessary
      */
-    if(!EVP_DecryptUpdate(ctx, plaintext, &len, (unsigned char*)ctxtarr, ctxt_len))
+    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr, ctxt_len))
         handleErrors();
 
     plaintext_len = len;
@@ -149,14 +149,14 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     /* Finalise the decryption. A positive return value indicates success,
      * anything else is a failure - the plaintext is not trustworthy.
      */
-    EVP_DecryptFinal_ex(ctx, plaintext + len, &len);
+    EVP_DecryptFinal_ex(ctx, plaintext.data() + len, &len);
     plaintext_len += len;
 
     /* Clean up */
     EVP_CIPHER_CTX_free(ctx);
     // plaintext[plaintext_len] = '\0';
 
-    return utils::setRawMpz(plaintext, plaintext_len);
+    return utils::setRawMpz(plaintext.data(), plaintext_len);
 }    
 
 ctxt_t AES::encryptCRC(const mpz_class key, const msg_t plaintext) const
-- 
2.43.0


From 7478253c5296056558874bcec079c202761746aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 16/18] fix: AES ciphertexts starting with a zero byte could
 not be decrypted

---
 src/utilities/aes.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 942c615..3226428 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -16,6 +16,8 @@ namespace aes
 {
 string AES::iv(CRYPTO_NPUBBYTES, '\0');
 
+#define CTXT_MARK 1
+
 void handleErrors(void)
 {
     unsigned long errCode;
@@ -63,7 +65,10 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     uint8_t keyarr[CRYPTO_KEYBYTES];
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
-    std::vector<unsigned char> ciphertext(pt_len + EVP_MAX_BLOCK_LENGTH);
+    // a leading non-zero byte keeps the leading zero bytes of the ciphertext in the integer
+    std::vector<unsigned char> buffer(1 + pt_len + EVP_MAX_BLOCK_LENGTH);
+    buffer[0] = CTXT_MARK;
+    unsigned char *ciphertext = buffer.data() + 1;
     exportKey(keyarr, key);
 
     /* Create and initialise the context */
@@ -83,7 +88,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
      */
-    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data(), &len, (unsigned char*)ptarr, pt_len))
+    if(1 != EVP_EncryptUpdate(ctx, ciphertext, &len, (unsigned char*)ptarr, pt_len))
         handleErrors();
 
     ciphertext_len = len;
@@ -91,7 +96,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Finalise the encryption. Normally ciphertext bytes may be written at
      * this stage, but this does not occur in GCM mode
      */
-    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + len, &len)) handleErrors();
+    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext + len, &len)) handleErrors();
     ciphertext_len += len;
 
     // /* Get the tag */
@@ -103,7 +108,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
-    return utils::setRawMpz(ciphertext.data(),ciphertext_len);
+    return utils::setRawMpz(buffer.data(),1 + ciphertext_len);
 }
 
 msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
@@ -114,6 +119,9 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     uint8_t keyarr[CRYPTO_KEYBYTES];
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
+    if (ctxt_len == 0 || ctxtarr[0] != CTXT_MARK)
+        return msg_t(0);
+
     std::vector<unsigned char> plaintext(ctxt_len + EVP_MAX_BLOCK_LENGTH);
     exportKey(keyarr, key);
 
@@ -137,7 +145,7 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     /* Provide the message to be decrypted, and obtain the plaintext output.
      * EVP_DecryptUpdate can be called multiple times if necessary
      */
-    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr, ctxt_len))
+    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr + 1, ctxt_len - 1))
         handleErrors();
 
     plaintext_len = len;
-- 
2.43.0


From 282f4427a8c17062c0d3810148da626e8d33b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 17/18] fix: AES leaked the exported texts

---
 src/utilities/aes.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 3226428..86ad179 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -105,6 +105,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 
     /* Clean up */
     EVP_CIPHER_CTX_free(ctx);
+    free(ptarr);
 
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
@@ -120,7 +121,10 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
     if (ctxt_len == 0 || ctxtarr[0] != CTXT_MARK)
+    {
+        free(ctxtarr);
         return msg_t(0);
+    }
 
     std::vector<unsigned char> plaintext(ctxt_len + EVP_MAX_BLOCK_LENGTH);
     exportKey(keyarr, key);
@@ -162,6 +166,7 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 
     /* Clean up */
     EVP_CIPHER_CTX_free(ctx);
+    free(ctxtarr);
     // plaintext[plaintext_len] = '\0';
 
     return utils::setRawMpz(plaintext.data(), plaintext_len);
-- 
2.43.0


From 19a8296f2547c8e25a43ad1b0b7eac808ed1358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 18/18] fix: Shamir coefficients were drawn from 1..100,
 revealing the secret

---
 src/shamirss/shamirss.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index b878c17..a9b207a 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -3,6 +3,8 @@
 
 namespace sss
 {
+static gmp_randclass rng(gmp_randinit_default);
+
 ShamirSS::ShamirSS()
 {
 
@@ -29,7 +31,7 @@ share_v_t ShamirSS::getShares(size_t t, size_t n, FIELD secret)
     share_v_t shares;
     for (size_t i = 0; i < t-1; i++)
     {
-        coefs.push_back(FIELD((rand()+1) %100));
+        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));
     }
 
     for (size_t i = 1; i <= n; i++)
-- 
2.43.0

