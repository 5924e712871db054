From c7b7b34c1385c05154f85af179fc5f75a02d9003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:03:55 +0000
Subject: [PATCH 01/72] fix: hex parser stored 0xFF for characters that are not
 hex digits

---
 src/BaseClasses.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index ccc51b1..2d1e3b6 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -36,6 +36,10 @@ ParseByteStream::~ParseByteStream(){
 }
 size_t ParseByteStream::available(){
     if(format == HEX_ENCODING){
+        // a character that is not a hex digit ends the data
+        if(len - cursor < 2 || hexToVal(buf[cursor]) > 0x0F || hexToVal(buf[cursor+1]) > 0x0F){
+            return 0;
+        }
         return (len - cursor)/2;
     }else{
         return len-cursor;
@@ -43,7 +47,7 @@ size_t ParseByteStream::available(){
 };
 int ParseByteStream::read(){
     if(format == HEX_ENCODING){
-        if(cursor < len-1){
+        if(cursor + 1 < len){
             uint8_t c1 = hexToVal(buf[cursor]);
             uint8_t c2 = hexToVal(buf[cursor+1]);
             if(c1 < 0x10 && c2 < 0x10){
-- 
2.43.0


From a7e5abf4c206dd63620e9de38174c106e075492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:13 +0000
Subject: [PATCH 02/72] fix: Script and Witness parsing - empty chunk ended a
 witness, length varint, double free and leaks

---
 src/Bitcoin.h  |  1 +
 src/Script.cpp | 60 +++++++++++++++++++++++++++-----------------------
 2 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 2fcc15d..6d0d781 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -477,6 +477,7 @@ protected:
     virtual size_t from_stream(ParseStream *s);
     virtual size_t to_stream(SerializeStream *s, size_t offset = 0) const;
     uint8_t lenLen; // for parsing only, length of the varint
+    uint64_t varLen; // for parsing only, value of the varint
     void fromAddress(const char * address);
     void init();
 public:
diff --git a/src/Script.cpp b/src/Script.cpp
index 4fb5eb5..cbbdc39 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -129,6 +129,7 @@ void Script::init(){
     scriptLen = 0;
     scriptArray = NULL;
     lenLen = 0;
+    varLen = 0;
 }
 Script::Script(void){
     init();
@@ -254,12 +255,13 @@ Script::Script(const Script &other, ScriptType type){
     }
 }
 void Script::clear(){
-    if(scriptLen > 0 && scriptArray != NULL){
+    if(scriptArray != NULL){
         free(scriptArray);
         scriptArray = NULL;
-        scriptLen = 0;
-        lenLen = 0;
     }
+    scriptLen = 0;
+    lenLen = 0;
+    varLen = 0;
 }
 size_t Script::from_stream(ParseStream *s){
     if(status == PARSING_FAILED){
@@ -276,38 +278,36 @@ size_t Script::from_stream(ParseStream *s){
         lenLen = s->read();
         bytes_read++;
         if(lenLen < 0xfd){
-            scriptLen = lenLen;
-            if(scriptLen > 0){
-                scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
-            }
+            varLen = lenLen;
             lenLen = 1;
         }else{
-            scriptLen = 0;
+            varLen = 0;
             lenLen = 1+(1 << (lenLen - 0xfc));
-            scriptArray = (uint8_t *) calloc( 255, sizeof(uint8_t));
         }
-        if(scriptArray == NULL && scriptLen > 0){ status = PARSING_FAILED; scriptLen = 0; return 0; }
     }
     while(s->available() > 0 && bytes_parsed+bytes_read < lenLen){
-        scriptLen += (s->read() << (8*(bytes_parsed+bytes_read-1)));
+        varLen += ((uint64_t)(s->read() & 0xFF) << (8*(bytes_parsed+bytes_read-1)));
         bytes_read++;
     }
-    if(bytes_parsed+bytes_read == lenLen && scriptLen > 0){
-        free(scriptArray);
-        scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
-        if(scriptArray == NULL){ status = PARSING_FAILED; scriptLen = 0; return 0; }
-    }
-    if(bytes_parsed+bytes_read == lenLen && lenVarInt(scriptLen) != lenLen){
-        status = PARSING_FAILED;
-        bytes_parsed+=bytes_read;
-        return bytes_read;
+    // the length is complete - allocate memory
+    if(bytes_parsed+bytes_read == lenLen && bytes_read > 0){
+        if(lenVarInt(varLen) != lenLen || (size_t)varLen != varLen){
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        if(varLen > 0){
+            scriptArray = (uint8_t *) calloc( varLen, sizeof(uint8_t));
+            if(scriptArray == NULL){ status = PARSING_FAILED; bytes_parsed+=bytes_read; return bytes_read; }
+        }
+        scriptLen = varLen;
     }
     // reading the script
     while(s->available() > 0 && bytes_parsed+bytes_read < scriptLen+lenLen){
         scriptArray[bytes_parsed+bytes_read-lenLen] = s->read();
         bytes_read++;
     }
-    if(bytes_parsed+bytes_read == scriptLen+lenLen){
+    if(bytes_parsed+bytes_read > 0 && bytes_parsed+bytes_read == scriptLen+lenLen){
         status = PARSING_DONE;
     }
     bytes_parsed += bytes_read;
@@ -440,6 +440,9 @@ size_t Script::push(const uint8_t * data, size_t len){
         clear();
         return 0;
     }
+    if(len == 0){ // nothing to push
+        return scriptLen;
+    }
     if(scriptLen == 0){
         scriptArray = (uint8_t *) calloc( len, sizeof(uint8_t));
     }else{
@@ -474,6 +477,7 @@ size_t Script::push(const Script sc){
     if(tmp == NULL){ return 0; }
     sc.serialize(tmp, len);
     push(tmp, len);
+    free(tmp);
     return scriptLen;
 }
 Script Script::scriptPubkey(ScriptType type) const{
@@ -506,10 +510,11 @@ Script::Script(const Script &other){
 
 void Witness::clear(){
     numElements = 0;
-    if(witnessLen > 0){
+    if(witnessArray != NULL){
         free(witnessArray);
-        witnessLen = 0;
+        witnessArray = NULL;
     }
+    witnessLen = 0;
 }
 void Witness::init(){
     numElements = 0;
@@ -584,7 +589,7 @@ size_t Witness::from_stream(ParseStream *s){
             }
         }
         while(s->available() && cur_bytes_parsed+cur_bytes_read < curLen){
-            cur_element_len += (s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
+            cur_element_len += ((size_t)(s->read() & 0xFF) << (8*(cur_bytes_parsed+cur_bytes_read-1)));
             cur_bytes_read++;
         }
         if(lenVarInt(cur_element_len) != curLen && cur_bytes_parsed+cur_bytes_read == curLen){
@@ -602,7 +607,7 @@ size_t Witness::from_stream(ParseStream *s){
                 writeVarInt(cur_element_len, witnessArray, lenVarInt(cur_element_len));
             }else{
                 uint8_t * ptr = (uint8_t *)realloc( witnessArray, (witnessLen + cur_element_len + lenVarInt(cur_element_len)) * sizeof(uint8_t));
-                if(ptr == NULL){ free(witnessArray); witnessLen = 0; status=PARSING_FAILED; return 0;}
+                if(ptr == NULL){ clear(); status=PARSING_FAILED; return 0;}
                 witnessArray = ptr;
                 witnessLen += cur_element_len+lenVarInt(cur_element_len);
                 writeVarInt(cur_element_len, witnessArray+offset, lenVarInt(cur_element_len));
@@ -623,7 +628,7 @@ size_t Witness::from_stream(ParseStream *s){
         }
         bytes_read += cur_bytes_read;
     }
-    if(cur_element==numElements){
+    if(bytes_parsed+bytes_read > 0 && cur_element==numElements){
         status = PARSING_DONE;
     }
     bytes_parsed += bytes_read;
@@ -658,7 +663,7 @@ size_t Witness::push(const uint8_t * data, size_t len){
         if(witnessArray == NULL){ witnessLen = 0; return 0; }
     }else{
         uint8_t * ptr = (uint8_t *) realloc( witnessArray, (witnessLen + len + lenVarInt(len)) * sizeof(uint8_t));
-        if(ptr == NULL){ free(witnessArray); witnessLen = 0; return 0; }
+        if(ptr == NULL){ clear(); return 0; }
         witnessArray = ptr;
     }
     writeVarInt(len, witnessArray+witnessLen, lenVarInt(len));
@@ -703,6 +708,7 @@ Witness::Witness(const Witness &other){
 };
 Witness &Witness::operator=(Witness const &other){
     if (this == &other){ return *this; } // self-assignment
+    reset();
     clear();
     numElements = other.numElements;
     if(other.witnessLen > 0){
-- 
2.43.0


From f5621bfaf23e3a47e269a9ee6fa8007d41c12b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:14 +0000
Subject: [PATCH 03/72] fix: Script::push(Script) used a varint instead of
 OP_PUSHDATA for scripts longer than 75 bytes

---
 src/Script.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index cbbdc39..9ec37b4 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -471,13 +471,18 @@ size_t Script::push(const Signature sig, SigHashType sigType){
     return scriptLen;
 }
 size_t Script::push(const Script sc){
-    size_t len = sc.length();
-    uint8_t * tmp;
-    tmp = (uint8_t *)calloc(len, sizeof(uint8_t));
-    if(tmp == NULL){ return 0; }
-    sc.serialize(tmp, len);
-    push(tmp, len);
-    free(tmp);
+    size_t len = sc.scriptLen;
+    if(len < OP_PUSHDATA1){
+        push((uint8_t)len);
+    }else if(len <= 0xFF){
+        push(OP_PUSHDATA1);
+        push((uint8_t)len);
+    }else{
+        push(OP_PUSHDATA2);
+        push((uint8_t)(len & 0xFF));
+        push((uint8_t)((len >> 8) & 0xFF));
+    }
+    push(sc.scriptArray, len);
     return scriptLen;
 }
 Script Script::scriptPubkey(ScriptType type) const{
-- 
2.43.0


From ec57254359f9c92ad8fc8eb6d4888b44de031da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:06:52 +0000
Subject: [PATCH 04/72] fix: PSBT memory management and validation of key-value
 pairs

---
 src/PSBT.cpp | 364 ++++++++++++++++++---------------------------------
 src/PSBT.h   |   2 +
 2 files changed, 131 insertions(+), 235 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index a262a08..921448f 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -90,37 +90,9 @@ size_t PSBT::from_stream(ParseStream *s){
         return 0;
     }
     if(status == PARSING_DONE){
-        // free memory
-        if(tx.inputsNumber > 0){
-            for(size_t i=0; i<tx.inputsNumber; i++){
-                if(txInsMeta[i].derivationsLen > 0){
-                    for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                        if(txInsMeta[i].derivations[j].derivationLen > 0){
-                            free(txInsMeta[i].derivations[j].derivation);
-                        }
-                    }
-                    delete [] txInsMeta[i].derivations;
-                }
-                if(txInsMeta[i].signaturesLen > 0){
-                    delete [] txInsMeta[i].signatures;
-                }
-            }
-            delete [] txInsMeta;
-        }
-        if(tx.outputsNumber > 0){
-            for(size_t i=0; i<tx.outputsNumber; i++){
-                if(txOutsMeta[i].derivationsLen > 0){
-                    for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                        if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                            free(txOutsMeta[i].derivations[j].derivation);
-                        }
-                    }
-                    delete [] txOutsMeta[i].derivations;
-                }
-            }
-            delete [] txOutsMeta;
-        }
-        tx.reset();
+        clear();
+        key = Script();
+        value = Script();
         bytes_parsed = 0;
         current_section = 0;
         last_key_pos = 5;
@@ -189,11 +161,14 @@ size_t PSBT::from_stream(ParseStream *s){
         }
         txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
         for(size_t i=0; i<tx.inputsNumber; i++){
+            txInsMeta[i].derivations = NULL;
             txInsMeta[i].derivationsLen = 0;
+            txInsMeta[i].signatures = NULL;
             txInsMeta[i].signaturesLen = 0;
         }
         txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
         for(size_t i=0; i<tx.outputsNumber; i++){
+            txOutsMeta[i].derivations = NULL;
             txOutsMeta[i].derivationsLen = 0;
         }
         last_key_pos += key.length()+value.length();
@@ -248,8 +223,36 @@ size_t PSBT::from_stream(ParseStream *s){
     return bytes_read;
 }
 
+// parses bip32 derivation and appends it to the array
+static int addDerivation(PSBTDerivation ** derivations, uint8_t * derivationsLen, const Script * k, const Script * v){
+    if(k->scriptLen < 2 || v->scriptLen < 4 || v->scriptLen % 4 != 0 || v->scriptLen/4 > 255 || *derivationsLen == 255){
+        return -1;
+    }
+    PSBTDerivation der;
+    size_t l = der.pubkey.parse(k->scriptArray+1, k->scriptLen-1);
+    if(der.pubkey.getStatus() != PARSING_DONE || l != k->scriptLen-1){
+        return -1;
+    }
+    memcpy(der.fingerprint, v->scriptArray, 4);
+    der.derivationLen = v->scriptLen/4-1;
+    der.derivation = (uint32_t *)calloc(der.derivationLen+1, sizeof(uint32_t));
+    if(der.derivation == NULL){ return -1; }
+    for(size_t i=0; i<der.derivationLen; i++){
+        der.derivation[i] = littleEndianToInt(v->scriptArray+4*(i+1), 4);
+    }
+    PSBTDerivation * p = *derivations;
+    *derivations = new PSBTDerivation[*derivationsLen+1];
+    for(size_t i=0; i<*derivationsLen; i++){
+        (*derivations)[i] = p[i];
+    }
+    delete [] p;
+    (*derivations)[*derivationsLen] = der;
+    (*derivationsLen)++;
+    return 1;
+}
+
 int PSBT::add(uint8_t section, const Script * k, const Script * v){
-    if(section == 0 || section > 1+tx.inputsNumber+tx.outputsNumber){
+    if(section == 0 || k->scriptLen == 0 || section >= 1+tx.inputsNumber+tx.outputsNumber){
         return 0;
     }
     uint8_t * key_arr = (uint8_t *)calloc(k->length(), sizeof(uint8_t));
@@ -258,7 +261,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
     uint8_t * val_arr = (uint8_t *)calloc(v->length(), sizeof(uint8_t));
     if(val_arr == NULL){ free(key_arr); return 0; }
     v->serialize(val_arr, v->length());
-    uint8_t key_code = key_arr[lenVarInt(k->length())];
+    uint8_t key_code = key_arr[lenVarInt(k->scriptLen)];
     int res = 0;
 
     if(section < 1+tx.inputsNumber){ // input section
@@ -272,8 +275,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 Tx tempTx;
-                tempTx.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
-                if(tempTx.getStatus() != PARSING_DONE){
+                size_t l = tempTx.parse(val_arr+lenVarInt(v->scriptLen), v->scriptLen);
+                if(tempTx.getStatus() != PARSING_DONE || l != v->scriptLen){
                     res = -2;
                     break;
                 }
@@ -296,30 +299,43 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txInsMeta[input].txOut.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
-                if(txInsMeta[input].txOut.getStatus() != PARSING_DONE){
+                TxOut txOut;
+                size_t l = txOut.parse(val_arr+lenVarInt(v->scriptLen), v->scriptLen);
+                if(txOut.getStatus() != PARSING_DONE || l != v->scriptLen){
                     res = -2;
                     break;
                 }
+                txInsMeta[input].txOut = txOut;
                 res = 1;
                 break;
             }
             case 2: { // PSBT_IN_PARTIAL_SIG
-                if(k->length() != 35 && k->length() != 67){
-                    res = -1;
-                    break;
-                }
                 PSBTPartialSignature psig;
-                psig.pubkey.parse(key_arr+2, k->length()-2);
-                if(psig.pubkey.getStatus() != PARSING_DONE){
+                size_t l = psig.pubkey.parse(k->scriptArray+1, k->scriptLen-1);
+                if(psig.pubkey.getStatus() != PARSING_DONE || l != k->scriptLen-1){
                     res = -1;
                     break;
                 }
-                psig.signature.parse(val_arr+1, v->length()-1);
-                if(psig.signature.getStatus() != PARSING_DONE){
+                // <der><sighash>
+                l = psig.signature.parse(v->scriptArray, v->scriptLen);
+                if(psig.signature.getStatus() != PARSING_DONE || l+1 != v->scriptLen){
                     res = -2;
                     break;
                 }
+                // only one signature per public key
+                size_t index = 0;
+                while(index < txInsMeta[input].signaturesLen && txInsMeta[input].signatures[index].pubkey != psig.pubkey){
+                    index++;
+                }
+                if(index < txInsMeta[input].signaturesLen){
+                    txInsMeta[input].signatures[index] = psig;
+                    res = 1;
+                    break;
+                }
+                if(txInsMeta[input].signaturesLen == 255){
+                    res = -1;
+                    break;
+                }
                 if(txInsMeta[input].signaturesLen == 0){
                     txInsMeta[input].signaturesLen = 1;
                     txInsMeta[input].signatures = new PSBTPartialSignature[txInsMeta[input].signaturesLen];
@@ -359,37 +375,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                 break;
             }
             case 6: { // PSBT_IN_BIP32_DERIVATION
-                // TODO: move to function
-                if(k->length() != 35 && k->length() != 67){
-                    res = -1;
-                    break;
-                }
-                if(txInsMeta[input].derivationsLen == 0){
-                    txInsMeta[input].derivationsLen = 1;
-                    txInsMeta[input].derivations = new PSBTDerivation[txInsMeta[input].derivationsLen];
-                }else{
-                    PSBTDerivation * p = txInsMeta[input].derivations;
-                    txInsMeta[input].derivations = new PSBTDerivation[txInsMeta[input].derivationsLen+1];
-                    for(size_t i=0; i<txInsMeta[input].derivationsLen; i++){
-                        txInsMeta[input].derivations[i] = p[i];
-                    }
-                    txInsMeta[input].derivationsLen++;
-                    delete [] p;
-                }
-                PSBTDerivation * der = &txInsMeta[input].derivations[txInsMeta[input].derivationsLen-1];
-                der->pubkey.parse(key_arr+2, k->length()-2);
-                if(der->pubkey.getStatus() != PARSING_DONE){
-                    res = -1;
-                    break;
-                }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
-                der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
-                if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
-                for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
-                }
-                res = 1;
+                res = addDerivation(&txInsMeta[input].derivations, &txInsMeta[input].derivationsLen, k, v);
                 break;
             }
             case 7: { // PSBT_IN_FINAL_SCRIPTSIG
@@ -406,7 +392,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
         switch(key_code){
             case 0: { // PSBT_OUT_REDEEM_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
                 txOutsMeta[output].redeemScript.parse(val_arr, v->length());
                 res = 1;
@@ -414,44 +401,15 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
             }
             case 1: { // PSBT_OUT_WITNESS_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
                 txOutsMeta[output].witnessScript.parse(val_arr, v->length());
                 res = 1;
                 break;
             }
             case 2: { // PSBT_OUT_BIP32_DERIVATION
-                // TODO: move to function
-                if(k->length() != 35 && k->length() != 67){
-                    res = -1;
-                    break;
-                }
-                if(txOutsMeta[output].derivationsLen == 0){
-                    txOutsMeta[output].derivationsLen = 1;
-                    txOutsMeta[output].derivations = new PSBTDerivation[txOutsMeta[output].derivationsLen];
-                }else{
-                    PSBTDerivation * p = txOutsMeta[output].derivations;
-                    txOutsMeta[output].derivations = new PSBTDerivation[txOutsMeta[output].derivationsLen+1];
-                    for(int i=0; i<txOutsMeta[output].derivationsLen; i++){
-                        txOutsMeta[output].derivations[i] = p[i];
-                    }
-                    txOutsMeta[output].derivationsLen++;
-                    delete [] p;
-                }
-                PSBTDerivation * der = &txOutsMeta[output].derivations[txOutsMeta[output].derivationsLen-1];
-                der->pubkey.parse(key_arr+2, k->length()-2);
-                if(der->pubkey.getStatus() != PARSING_DONE){
-                    res = -1;
-                    break;
-                }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
-                der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
-                if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
-                for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
-                }
-                res = 1;
+                res = addDerivation(&txOutsMeta[output].derivations, &txOutsMeta[output].derivationsLen, k, v);
                 break;
             }
         }
@@ -527,76 +485,83 @@ size_t PSBT::length() const{
     return len;
 }
 
-PSBT::PSBT(PSBT const &other){
-    reset();
-    txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0;
+static PSBTDerivation * copyDerivations(const PSBTDerivation * derivations, uint8_t len){
+    if(len == 0){
+        return NULL;
+    }
+    PSBTDerivation * res = new PSBTDerivation[len];
+    for(size_t j=0; j<len; j++){
+        res[j] = derivations[j];
+        res[j].derivation = (uint32_t *)calloc(derivations[j].derivationLen+1, sizeof(uint32_t));
+        if(res[j].derivation == NULL){
+            res[j].derivationLen = 0;
+        }else{
+            memcpy(res[j].derivation, derivations[j].derivation, derivations[j].derivationLen*sizeof(uint32_t));
+        }
+    }
+    return res;
+}
+
+static void freeDerivations(PSBTDerivation * derivations, uint8_t len){
+    for(size_t j=0; j<len; j++){
+        free(derivations[j].derivation);
+    }
+    delete [] derivations;
+}
+
+void PSBT::copy(PSBT const &other){
     tx = other.tx;
     status = other.status;
-    txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-    txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
-    for(size_t i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
-        txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
-        for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-            txInsMeta[i].derivations[j] = other.txInsMeta[i].derivations[j];
-            txInsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-            if(txInsMeta[i].derivations[j].derivation == NULL){
-                txInsMeta[i].derivations[j].derivationLen = 0;
-            }else{
-                memcpy(txInsMeta[i].derivations[j].derivation, other.txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
+    if(other.txInsMeta != NULL){
+        txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
+        for(size_t i=0; i<tx.inputsNumber; i++){
+            txInsMeta[i] = other.txInsMeta[i];
+            txInsMeta[i].derivations = copyDerivations(other.txInsMeta[i].derivations, other.txInsMeta[i].derivationsLen);
+            txInsMeta[i].signatures = NULL;
+            if(txInsMeta[i].signaturesLen > 0){
+                txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
+                for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
+                    txInsMeta[i].signatures[j] = other.txInsMeta[i].signatures[j];
+                }
             }
         }
-        txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
-        for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
-            txInsMeta[i].signatures[j] = other.txInsMeta[i].signatures[j];
-        }
     }
-    for(size_t i=0; i<tx.outputsNumber; i++){
-        txOutsMeta[i] = other.txOutsMeta[i];
-        txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
-        for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-            txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
-            txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-            if(txOutsMeta[i].derivations[j].derivation == NULL){
-                txOutsMeta[i].derivations[j].derivationLen = 0;
-            }else{
-                memcpy(txOutsMeta[i].derivations[j].derivation, other.txOutsMeta[i].derivations[j].derivation, txOutsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-            }
+    if(other.txOutsMeta != NULL){
+        txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
+        for(size_t i=0; i<tx.outputsNumber; i++){
+            txOutsMeta[i] = other.txOutsMeta[i];
+            txOutsMeta[i].derivations = copyDerivations(other.txOutsMeta[i].derivations, other.txOutsMeta[i].derivationsLen);
         }
     }
 }
 
-PSBT::~PSBT(){
-    // free memory
-    if(tx.inputsNumber > 0){
+void PSBT::clear(){
+    if(txInsMeta != NULL){
         for(size_t i=0; i<tx.inputsNumber; i++){
-            if(txInsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    if(txInsMeta[i].derivations[j].derivationLen > 0){
-                        free(txInsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txInsMeta[i].derivations;
-            }
-            if(txInsMeta[i].signaturesLen > 0){
-                delete [] txInsMeta[i].signatures;
-            }
+            freeDerivations(txInsMeta[i].derivations, txInsMeta[i].derivationsLen);
+            delete [] txInsMeta[i].signatures;
         }
         delete [] txInsMeta;
+        txInsMeta = NULL;
     }
-    if(tx.outputsNumber > 0){
+    if(txOutsMeta != NULL){
         for(size_t i=0; i<tx.outputsNumber; i++){
-            if(txOutsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                    if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                        free(txOutsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txOutsMeta[i].derivations;
-            }
+            freeDerivations(txOutsMeta[i].derivations, txOutsMeta[i].derivationsLen);
         }
         delete [] txOutsMeta;
+        txOutsMeta = NULL;
     }
+    tx = Tx();
+}
+
+PSBT::PSBT(PSBT const &other){
+    reset();
+    txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0;
+    copy(other);
+}
+
+PSBT::~PSBT(){
+    clear();
 }
 
 uint8_t PSBT::sign(const HDPrivateKey root){
@@ -739,78 +704,7 @@ bool PSBT::isMine(uint8_t outputNumber, const HDPrivateKey xprv) const{
 
 PSBT& PSBT::operator=(PSBT const &other){
     if (this == &other){ return *this; } // self-assignment
-    // free memory
-    if(tx.inputsNumber > 0){
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            if(txInsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    if(txInsMeta[i].derivations[j].derivationLen > 0){
-                        free(txInsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txInsMeta[i].derivations;
-            }
-            if(txInsMeta[i].signaturesLen > 0){
-                delete [] txInsMeta[i].signatures;
-            }
-        }
-        delete [] txInsMeta;
-    }
-    if(tx.outputsNumber > 0){
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            if(txOutsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                    if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                        free(txOutsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txOutsMeta[i].derivations;
-            }
-        }
-        delete [] txOutsMeta;
-    }
-    // copy
-    tx = other.tx;
-    status = other.status;
-    if(tx.inputsNumber > 0){
-        txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            txInsMeta[i] = other.txInsMeta[i];
-            if(txInsMeta[i].derivationsLen > 0){
-                txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    txInsMeta[i].derivations[j] = other.txInsMeta[i].derivations[j];
-                    txInsMeta[i].derivations[j].derivation = (uint32_t*)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-                    if(txInsMeta[i].derivations[j].derivation == NULL){
-                        txInsMeta[i].derivations[j].derivationLen = 0;
-                    }else{
-                        memcpy(txInsMeta[i].derivations[j].derivation, other.txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-                    }
-                }
-            }
-            if(txInsMeta[i].signaturesLen > 0){
-                txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
-                for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
-                    txInsMeta[i].signatures[j] = other.txInsMeta[i].signatures[j];
-                }
-            }
-        }
-    }
-    if(tx.outputsNumber > 0){
-        txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            txOutsMeta[i] = other.txOutsMeta[i];
-            txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
-            for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
-                txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-                if(txOutsMeta[i].derivations[j].derivation == NULL){
-                    txOutsMeta[i].derivations[j].derivationLen = 0;
-                }else{
-                    memcpy(txOutsMeta[i].derivations[j].derivation, other.txOutsMeta[i].derivations[j].derivation, txOutsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-                }
-            }
-        }
-    }
+    clear();
+    copy(other);
     return *this;
 }
diff --git a/src/PSBT.h b/src/PSBT.h
index 60073a2..1c29fe9 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -74,6 +74,8 @@ protected:
     Script value; // value for parsing
     uint8_t current_section;
     size_t last_key_pos;
+    void copy(PSBT const &other);
+    void clear();
 public:
     virtual size_t length() const;
     PSBT(){ txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0; };
-- 
2.43.0


From 8b465afc25c72396b132e0f55e8599d2149adbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:07:43 +0000
Subject: [PATCH 05/72] fix: PSBT parsing failed when data came in chunks,
 serialization ignored offset for delimiters

---
 src/PSBT.cpp | 150 +++++++++++++++++++--------------------------------
 1 file changed, 55 insertions(+), 95 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 921448f..0c30f85 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -110,111 +110,69 @@ size_t PSBT::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
-    // global scope
-    if(bytes_read+bytes_parsed == last_key_pos){
-        bytes_read += s->parse(&key);
-        bytes_read += s->parse(&value);
-    }
-    while(s->available() && key.getStatus() == PARSING_INCOMPLETE){
-        bytes_read += s->parse(&key);
-    }
-    if(key.getStatus() == PARSING_FAILED){
-        status = PARSING_FAILED;
-        ubtc_errno = UBTC_ERR_PSBT_KEY;
-        bytes_parsed += bytes_read;
-        return bytes_read;
-    }
-    while(s->available() && value.getStatus() == PARSING_INCOMPLETE){
-        bytes_read += s->parse(&value);
-    }
-    if(value.getStatus() == PARSING_FAILED){
-        status = PARSING_FAILED;
-        ubtc_errno = UBTC_ERR_PSBT_VALUE;
-        bytes_parsed += bytes_read;
-        return bytes_read;
-    }
-    if(last_key_pos == 5 && value.getStatus() == PARSING_DONE && key.getStatus() == PARSING_DONE){
-        uint8_t * arr = (uint8_t *)calloc(key.length(), sizeof(uint8_t));
-        if(arr == NULL){ status = PARSING_FAILED; return 0; }
-        key.serialize(arr, key.length());
-        if(key.length() != 2 || arr[0] != 1 || arr[1] != 0){
-            status = PARSING_FAILED;
-            ubtc_errno = UBTC_ERR_PSBT_SCOPE;
-        }
-        free(arr);
-        if(status == PARSING_FAILED){
-            bytes_parsed += bytes_read;
-            return bytes_read;
-        }
-        arr = (uint8_t *)calloc(value.length(), sizeof(uint8_t));
-        if(arr == NULL){ status = PARSING_FAILED; return 0; }
-        value.serialize(arr, value.length());
-        size_t l = lenVarInt(value.length());
-        tx.parse(arr+l, value.length()-l);
-        if(tx.getStatus() != PARSING_DONE){
-            status = PARSING_FAILED;
+    // parsing keys and values, the first pair is the global transaction
+    while(s->available() && bytes_read+bytes_parsed >= 5){
+        if(last_key_pos > 5 && current_section >= 1+tx.inputsNumber+tx.outputsNumber){
+            break; // all sections are parsed
         }
-        free(arr);
-        if(status == PARSING_FAILED){
-            bytes_parsed += bytes_read;
-            return bytes_read;
+        // new key or the rest of the key
+        if(bytes_read+bytes_parsed == last_key_pos || key.getStatus() == PARSING_INCOMPLETE){
+            bytes_read += s->parse(&key);
         }
-        txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            txInsMeta[i].derivations = NULL;
-            txInsMeta[i].derivationsLen = 0;
-            txInsMeta[i].signatures = NULL;
-            txInsMeta[i].signaturesLen = 0;
+        if(key.getStatus() == PARSING_INCOMPLETE){
+            continue;
         }
-        txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            txOutsMeta[i].derivations = NULL;
-            txOutsMeta[i].derivationsLen = 0;
-        }
-        last_key_pos += key.length()+value.length();
-    }
-    uint8_t sections_number = 0;
-    if(last_key_pos > 5){ // tx is already parsed
-        sections_number = 1+tx.inputsNumber+tx.outputsNumber;
-    }
-    // parsing keys and values
-    while(s->available() && current_section < sections_number){
-        if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
-            bytes_read += s->parse(&key);
+        if(key.getStatus() == PARSING_DONE && key.length() == 1 && last_key_pos > 5){ // delimiter
+            current_section ++;
+            last_key_pos += key.length();
+            continue;
         }
         if(key.getStatus() == PARSING_DONE){
-            if(key.length() == 1){ // delimiter
-                current_section ++;
-                last_key_pos += key.length();
-                continue;
-            }else{
-                bytes_read += s->parse(&value);
+            if(!s->available()){ // value will come later
+                break;
             }
+            bytes_read += s->parse(&value);
         }
         if(key.getStatus() == PARSING_FAILED || value.getStatus() == PARSING_FAILED){
             status = PARSING_FAILED;
             ubtc_errno = (key.getStatus() == PARSING_FAILED) ? UBTC_ERR_PSBT_KEY : UBTC_ERR_PSBT_VALUE;
-            bytes_parsed += bytes_read;
-            return bytes_read;
-        }
-        if(key.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&key);
+            break;
         }
         if(value.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&value);
+            continue;
         }
-        if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
-            int res = add(current_section, &key, &value);
-            if(res < 0){
+        if(last_key_pos == 5){ // global transaction
+            if(key.scriptLen != 1 || key.scriptArray[0] != 0){
                 status = PARSING_FAILED;
                 ubtc_errno = UBTC_ERR_PSBT_SCOPE;
-                bytes_parsed += bytes_read;
-                return bytes_read;
+                break;
+            }
+            size_t l = tx.parse(value.scriptArray, value.scriptLen);
+            if(tx.getStatus() != PARSING_DONE || l != value.scriptLen || 1+tx.inputsNumber+tx.outputsNumber > 255){
+                status = PARSING_FAILED;
+                ubtc_errno = UBTC_ERR_PSBT_TX;
+                break;
+            }
+            txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
+            for(size_t i=0; i<tx.inputsNumber; i++){
+                txInsMeta[i].derivations = NULL;
+                txInsMeta[i].derivationsLen = 0;
+                txInsMeta[i].signatures = NULL;
+                txInsMeta[i].signaturesLen = 0;
             }
-            last_key_pos += key.length() + value.length();
+            txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
+            for(size_t i=0; i<tx.outputsNumber; i++){
+                txOutsMeta[i].derivations = NULL;
+                txOutsMeta[i].derivationsLen = 0;
+            }
+        }else if(add(current_section, &key, &value) < 0){
+            status = PARSING_FAILED;
+            ubtc_errno = UBTC_ERR_PSBT_SCOPE;
+            break;
         }
+        last_key_pos += key.length() + value.length();
     }
-    if(current_section == sections_number && sections_number > 0){
+    if(status != PARSING_FAILED && last_key_pos > 5 && current_section >= 1+tx.inputsNumber+tx.outputsNumber){
         status = PARSING_DONE;
         key = Script();
         value = Script();
@@ -439,17 +397,17 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
         bytes_written += s->serialize(&tx, offset+bytes_written-cur);
     }
     cur+=tx.length();
-    uint8_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
-    uint8_t section = 0;
+    size_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
+    size_t section = 0;
     while(s->available() && section < sections_number){
         if(section > 0 && section < tx.inputsNumber+1){
-            uint8_t input = section-1;
+            size_t input = section-1;
             for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
                 uint8_t key_arr[67];
                 key_arr[1] = 0x02; // PSBT_IN_PARTIAL_SIG
                 uint8_t key_len = 1+txInsMeta[input].signatures[i].pubkey.serialize(key_arr+2, 65);
                 key_arr[0] = key_len;
-                while(s->available() && bytes_written+offset-cur < (size_t)key_len+1){
+                while(s->available() && bytes_written+offset < cur+key_len+1){
                     s->write(key_arr[bytes_written+offset-cur]);
                     bytes_written++;
                 }
@@ -458,15 +416,17 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 uint8_t val_len = 1+txInsMeta[input].signatures[i].signature.serialize(val_arr+1, 98);
                 val_arr[0] = val_len;
                 val_arr[val_len] = SIGHASH_ALL;
-                while(s->available() && bytes_written+offset-cur < (size_t)val_len+1){
+                while(s->available() && bytes_written+offset < cur+val_len+1){
                     s->write(val_arr[bytes_written+offset-cur]);
                     bytes_written++;
                 }
                 cur += val_len+1;
             }
         }
-        s->write(0);
-        bytes_written++;
+        if(s->available() && bytes_written+offset == cur){ // delimiter
+            s->write(0);
+            bytes_written++;
+        }
         section++;
         cur++;
     }
@@ -474,7 +434,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
 }
 
 size_t PSBT::length() const{
-    uint8_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
+    size_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
     size_t len = 7 + lenVarInt(tx.length()) + tx.length() + sections_number;
     for(size_t input=0; input<tx.inputsNumber; input++){
         for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
-- 
2.43.0


From 0c5cf9051cb622fe7de8588f5b0abe40e54c2d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:21 +0000
Subject: [PATCH 06/72] fix: PSBT sign() read past short derivation paths,
 isMine() did not check output number

---
 src/PSBT.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 0c30f85..493cbf7 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -551,7 +551,7 @@ uint8_t PSBT::sign(const HDPrivateKey root){
                     }
                     PrivateKey pk;
                     // checking if cached key is ok
-                    if(memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
+                    if(txInsMeta[i].derivations[j].derivationLen >= first_derivation_len && memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
                         pk = account.derive(txInsMeta[i].derivations[j].derivation+first_derivation_len, txInsMeta[i].derivations[j].derivationLen - first_derivation_len);
                     }else{
                         pk = root.derive(txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen);
@@ -619,6 +619,9 @@ String PSBT::toBase64(){
 uint64_t PSBT::fee() const{
     uint64_t input_amount = 0;
     uint64_t output_amount = 0;
+    if(txInsMeta == NULL){
+        return 0;
+    }
     for(size_t i=0; i<tx.inputsNumber; i++){
         if(txInsMeta[i].txOut.amount == 0){
             return 0;
@@ -636,6 +639,9 @@ uint64_t PSBT::fee() const{
 
 bool PSBT::isMine(uint8_t outputNumber, const HDPublicKey xpub) const{
     bool mine = false;
+    if(txOutsMeta == NULL || outputNumber >= tx.outputsNumber){
+        return false;
+    }
     if(txOutsMeta[outputNumber].derivationsLen > 0){
         for(unsigned int j=0; j<txOutsMeta[outputNumber].derivationsLen; j++){
             HDPublicKey pub = xpub.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen);
@@ -650,6 +656,9 @@ bool PSBT::isMine(uint8_t outputNumber, const HDPublicKey xpub) const{
 
 bool PSBT::isMine(uint8_t outputNumber, const HDPrivateKey xprv) const{
     bool mine = false;
+    if(txOutsMeta == NULL || outputNumber >= tx.outputsNumber){
+        return false;
+    }
     if(txOutsMeta[outputNumber].derivationsLen > 0){
         for(unsigned int j=0; j<txOutsMeta[outputNumber].derivationsLen; j++){
             HDPublicKey pub = xprv.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen).xpub();
-- 
2.43.0


From ea8f358ae4ab99da46de8680e64da9a431171353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:22 +0000
Subject: [PATCH 07/72] fix: DER signature parsing in chunks, total length was
 not checked, der() overran short buffers

---
 src/Bitcoin.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 419a2fe..132fceb 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -174,7 +174,7 @@ size_t Signature::from_stream(ParseStream *stream){
         r[bytes_parsed+bytes_read-4+32-tot[1]] = stream->read();
         bytes_read++;
     }
-    if(rlen() != tot[1]){ status = PARSING_FAILED; return bytes_read; }
+    if(bytes_parsed+bytes_read >= (size_t)4+tot[1] && rlen() != tot[1]){ status = PARSING_FAILED; return bytes_read; }
     // s
     if(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]+1){
         c = stream->read();
@@ -184,7 +184,7 @@ size_t Signature::from_stream(ParseStream *stream){
     if(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]+2){
         tot[2] = stream->read();
         bytes_read++;
-        if(tot[2] > 33){ status = PARSING_FAILED; return bytes_read; }
+        if(tot[2] > 33 || tot[0] != 4+tot[1]+tot[2]){ status = PARSING_FAILED; return bytes_read; }
     }
     if(stream->available() && tot[2]==33 && bytes_parsed+bytes_read < (size_t)4+tot[1]+3){
         c = stream->read();
@@ -195,7 +195,7 @@ size_t Signature::from_stream(ParseStream *stream){
         s[bytes_parsed+bytes_read-4-tot[1]-2-tot[2]+32] = stream->read();
         bytes_read++;
     }
-    if(slen() != tot[2]){ status = PARSING_FAILED; return bytes_read; }
+    if(bytes_parsed+bytes_read >= (size_t)4+tot[1]+2+tot[2] && slen() != tot[2]){ status = PARSING_FAILED; return bytes_read; }
     if(bytes_parsed+bytes_read == (size_t)4+tot[1]+2+tot[2]){
         status = PARSING_DONE;
     }
@@ -255,6 +255,9 @@ size_t Signature::der(uint8_t * bytes, size_t len) const{
     memzero(bytes, len);
     uint8_t _rlen = rlen();
     uint8_t _slen = slen();
+    if(len < (size_t)4+_rlen+2+_slen){
+        return 0;
+    }
     bytes[0] = 0x30;
     bytes[1] = 4+_rlen+2+_slen-2;
     bytes[2] = 0x02;
-- 
2.43.0


From 4d0246b4403fda28bc990426edd35d56b74d3740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:22 +0000
Subject: [PATCH 08/72] fix: ECPoint parser kept the prefix in a static
 variable shared between objects

---
 src/BitcoinCurve.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 941b47f..5a0c2a1 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -8,7 +8,6 @@ const ECPoint InfinityPoint;
 const ECPoint GeneratorPoint("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798");
 
 size_t ECPoint::from_stream(ParseStream *s){
-	static uint8_t first_byte;
 	if(status == PARSING_FAILED){
 		return 0;
 	}
@@ -29,7 +28,9 @@ size_t ECPoint::from_stream(ParseStream *s){
 				bytes_parsed += bytes_read;
 				return bytes_read;
 			}
-			first_byte = c;
+			// x coordinate goes to the first half of the array,
+			// so we can keep the first byte at the end of it
+			point[63] = c;
 			if(c == 0x04){ // uncompressed
 				bytes_to_read += 32;
 				compressed = false;
@@ -45,10 +46,14 @@ size_t ECPoint::from_stream(ParseStream *s){
 	if(bytes_to_read==0){
 		if(compressed){
 			uint8_t buf[33];
-			buf[0] = first_byte;
+			buf[0] = point[63];
 			memcpy(buf+1, point, 32);
             uint8_t arr[65];
-            ecdsa_uncompress_pubkey(&secp256k1, buf, arr);
+            if(!ecdsa_uncompress_pubkey(&secp256k1, buf, arr)){
+                status = PARSING_FAILED;
+                bytes_parsed += bytes_read;
+                return bytes_read;
+            }
             memcpy(point, arr+1, 64);
 		}
 		status = PARSING_DONE;
@@ -93,6 +98,7 @@ ECPoint::ECPoint(const uint8_t pubkeyArr[64], bool use_compressed){
 	compressed = use_compressed;
 };
 ECPoint::ECPoint(const uint8_t * secArr){ 
+	reset();
 	if(secArr[0] == 0x04){
 		ECPoint::fromSec(secArr, 65);
 	}else{
@@ -110,8 +116,8 @@ bool ECPoint::isValid() const{
 		return false;
 	}
     curve_point pub;
-	uint8_t buf[65];
-	sec(buf, 65);
+	uint8_t buf[65] = { 0x04 };
+	memcpy(buf+1, point, 64);
 	return ecdsa_read_pubkey(&secp256k1, buf, &pub);
 };
 bool ECPoint::isEven() const{
-- 
2.43.0


From 537af36d42121fdad250d9ee413c923f981e931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:05 +0000
Subject: [PATCH 09/72] fix: Tx and TxIn - leaks of empty arrays on copy,
 uninitialized members, stale witness on reparse

---
 src/Transaction.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 39d74b9..0412592 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -35,6 +35,7 @@ TxIn::TxIn(const uint8_t prev_id[32], uint32_t prev_index, uint32_t sequence_num
     }
 }
 TxIn::TxIn(const uint8_t prev_id[32], uint32_t prev_index, const Script script, uint32_t sequence_number){
+    init();
     outputIndex = prev_index;
     sequence = sequence_number;
     for(int i=0; i<32; i++){
@@ -57,6 +58,7 @@ TxIn::TxIn(const char * prev_id, uint32_t prev_index, uint32_t sequence_number){
     }
 }
 TxIn::TxIn(const char * prev_id, uint32_t prev_index, const Script script, uint32_t sequence_number){
+    init();
     outputIndex = prev_index;
     sequence = sequence_number;
     if(strlen(prev_id) < 64){
@@ -78,6 +80,7 @@ size_t TxIn::from_stream(ParseStream *s){
         outputIndex = 0;
         sequence = 0;
         scriptSig = Script();
+        witness.clear();
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
@@ -214,8 +217,8 @@ Tx::Tx(const Tx & other){
     version = other.version;
     inputsNumber = other.inputsNumber;
     outputsNumber = other.outputsNumber;
-    txIns = new TxIn[inputsNumber];
-    txOuts = new TxOut[outputsNumber];
+    txIns = (inputsNumber > 0) ? new TxIn[inputsNumber] : NULL;
+    txOuts = (outputsNumber > 0) ? new TxOut[outputsNumber] : NULL;
     for(unsigned int i=0;i<inputsNumber;i++){
         txIns[i] = other.txIns[i];
     }
@@ -230,16 +233,11 @@ Tx::Tx(const Tx & other){
 Tx& Tx::operator=(Tx const &other){ // copy-paste =(
     if (this == &other){ return *this; } // self-assignment
     version = other.version;
-    if(inputsNumber > 0){
-        delete [] txIns;
-    }
-    if(outputsNumber > 0){
-        delete [] txOuts;
-    }
+    clear();
     inputsNumber = other.inputsNumber;
     outputsNumber = other.outputsNumber;
-    txIns = new TxIn[inputsNumber];
-    txOuts = new TxOut[outputsNumber];
+    txIns = (inputsNumber > 0) ? new TxIn[inputsNumber] : NULL;
+    txOuts = (outputsNumber > 0) ? new TxOut[outputsNumber] : NULL;
     for(unsigned int i=0;i<inputsNumber;i++){
         txIns[i] = other.txIns[i];
     }
@@ -256,13 +254,13 @@ Tx::~Tx(){
     clear();
 }
 void Tx::clear(){
-    if(inputsNumber > 0){
-        inputsNumber = 0;
+    inputsNumber = 0;
+    if(txIns != NULL){
         delete [] txIns;
         txIns = NULL;
     }
-    if(outputsNumber > 0){
-        outputsNumber = 0;
+    outputsNumber = 0;
+    if(txOuts != NULL){
         delete [] txOuts;
         txOuts = NULL;
     }
-- 
2.43.0


From aaeedd4ceb5b19b05e396287d43f1a7b45cd670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:06 +0000
Subject: [PATCH 10/72] fix: Tx input and output counts of 253 and more were
 misparsed and serialized incompletely

---
 src/Transaction.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 0412592..0957afa 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -306,7 +306,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
     }
     size_t cur_offset = 4+2*is_segwit;
     size_t l = writeVarInt(inputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
@@ -319,7 +319,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
         cur_offset+=l;
     }
     l = writeVarInt(outputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
@@ -371,6 +371,12 @@ size_t Tx::from_stream(ParseStream *s){
         if(c == 0x00){ // segwit!
             segwit_flag = 1;
         }else{
+            if(c >= 0xfd){ // multi-byte varints are not supported
+                status = PARSING_FAILED;
+                ubtc_errno = UBTC_ERR_TX_GLOBAL;
+                bytes_parsed+=bytes_read;
+                return bytes_read;
+            }
             inputsNumber = c; // FIXME: should be varint, but 255 inputs will kill the MCU...
             txIns = new TxIn[inputsNumber];
             for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
@@ -388,8 +394,15 @@ size_t Tx::from_stream(ParseStream *s){
         }
     }
     if(s->available() && segwit_flag > 0 && bytes_read+bytes_parsed == 6){
-        inputsNumber = s->read();
+        uint8_t c = s->read();
         bytes_read++;
+        if(c >= 0xfd){ // multi-byte varints are not supported
+            status = PARSING_FAILED;
+            ubtc_errno = UBTC_ERR_TX_GLOBAL;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        inputsNumber = c;
         txIns = new TxIn[inputsNumber];
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i]);
@@ -410,8 +423,15 @@ size_t Tx::from_stream(ParseStream *s){
         current_offset += txIns[i].length();
     }
     if(s->available() && bytes_read+bytes_parsed == current_offset){
-        outputsNumber = s->read();
+        uint8_t c = s->read();
         bytes_read++;
+        if(c >= 0xfd){ // multi-byte varints are not supported
+            status = PARSING_FAILED;
+            ubtc_errno = UBTC_ERR_TX_GLOBAL;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        outputsNumber = c;
         txOuts = new TxOut[outputsNumber];
         for(unsigned int i=0; i<outputsNumber; i++){ // this will at least set all txouts to PARSING_INCOMPLETE
             bytes_read += s->parse(&txOuts[i]);
-- 
2.43.0


From be8d4bca22f446144a71975260fb5a948d9aeb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:07 +0000
Subject: [PATCH 11/72] fix: wtxid of transactions without witnesses,
 signatures always had SIGHASH_ALL byte

---
 src/Transaction.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 0957afa..c7ac3a6 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -558,6 +558,9 @@ int Tx::hash(uint8_t * h) const{
     return 32;
 }
 int Tx::whash(uint8_t * h) const{
+    if(!isSegwit()){ // without witnesses it is the same as the hash
+        return hash(h);
+    }
     DoubleSha s;
     s.begin();
 
@@ -721,7 +724,7 @@ Signature Tx::signInput(uint8_t inputIndex, const PrivateKey pk, const Script re
     Signature sig = pk.sign(h);
 
     Script sc;
-    sc.push(sig);
+    sc.push(sig, sighash);
     sc.push(pubkey);
     // push script itself for timelocks and other single-key things if P2SH
     if(redeemScript.type() != P2PKH){
@@ -761,7 +764,7 @@ Signature Tx::signSegwitInput(uint8_t inputIndex, const PrivateKey pk, const Scr
     }
 
     Witness w;
-    w.push(sig);
+    w.push(sig, sighash);
     w.push(pubkey);
     if(redeem_type != P2WPKH){
         w.push(redeemScript);
-- 
2.43.0


From b45957a0f1a5ff1bb18b54fbdff7f5f52da6bb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:23 +0000
Subject: [PATCH 12/72] fix: SIGHASH_NONE and SIGHASH_SINGLE digests were
 computed as for SIGHASH_ALL

---
 src/Transaction.cpp | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index c7ac3a6..e588f28 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -504,6 +504,12 @@ size_t Tx::from_stream(ParseStream *s){
 }
 int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, SigHashType sighash) const{
     Script empty;
+    if(sighash == SIGHASH_SINGLE && inputIndex >= outputsNumber){
+        // no corresponding output - consensus defines this hash as 1
+        memset(h, 0, 32);
+        h[0] = 1;
+        return 32;
+    }
     DoubleSha s;
     s.begin();
 
@@ -519,13 +525,29 @@ int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, Si
             t.scriptSig = scriptPubkey;
         }else{
             t.scriptSig = empty;
+            if(sighash != SIGHASH_ALL){
+                t.sequence = 0;
+            }
         }
         s.serialize(&t, 0);
     }
-    l = writeVarInt(outputsNumber, arr, 10);
+    // NONE does not sign outputs, SINGLE - only the one with the same index
+    size_t num = outputsNumber;
+    if(sighash == SIGHASH_NONE){
+        num = 0;
+    }
+    if(sighash == SIGHASH_SINGLE){
+        num = (size_t)inputIndex+1;
+    }
+    l = writeVarInt(num, arr, 10);
     s.write(arr, l);
-    for(size_t i=0; i<outputsNumber; i++){
-        s.serialize(&txOuts[i], 0);
+    for(size_t i=0; i<num; i++){
+        if(sighash == SIGHASH_SINGLE && i != inputIndex){
+            TxOut blank(0xFFFFFFFFFFFFFFFFULL, empty);
+            s.serialize(&blank, 0);
+        }else{
+            s.serialize(&txOuts[i], 0);
+        }
     }
     intToLittleEndian(locktime, arr, 4);
     s.write(arr, 4);
@@ -691,7 +713,11 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubK
     hashPrevouts(h);
     s.write(h, 32);
 
-    hashSequence(h);
+    if(sighash == SIGHASH_ALL){
+        hashSequence(h);
+    }else{
+        memset(h, 0, 32);
+    }
     s.write(h, 32);
 
     s.write(txIns[inputIndex].hash, 32);
@@ -704,7 +730,15 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubK
     intToLittleEndian(txIns[inputIndex].sequence, arr, 4);
     s.write(arr, 4);
 
-    hashOutputs(h);
+    memset(h, 0, 32);
+    if(sighash == SIGHASH_ALL){
+        hashOutputs(h);
+    }else if(sighash == SIGHASH_SINGLE && inputIndex < outputsNumber){
+        DoubleSha o;
+        o.begin();
+        o.serialize(&txOuts[inputIndex], 0);
+        o.end(h);
+    }
     s.write(h, 32);
 
     intToLittleEndian(locktime, arr, 4);
-- 
2.43.0


From 6f4ed2a2ebba5fc377e12787402ef376a40b72cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:10:02 +0000
Subject: [PATCH 13/72] fix: Witness parser failed on an empty chunk before the
 first byte

---
 src/Script.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 9ec37b4..832844e 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -571,7 +571,7 @@ size_t Witness::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
-    if(bytes_parsed+bytes_read == lenLen && lenVarInt(numElements) != lenLen){
+    if(bytes_parsed+bytes_read > 0 && bytes_parsed+bytes_read == lenLen && lenVarInt(numElements) != lenLen){
         status = PARSING_FAILED;
         bytes_parsed+=bytes_read;
         return bytes_read;
-- 
2.43.0


From 7720ff0ac931c74690247363e7927015402fe4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:10:43 +0000
Subject: [PATCH 14/72] fix: Witness parser lost an element when a chunk ended
 inside its length

---
 src/Script.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 832844e..35667bd 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -618,12 +618,12 @@ size_t Witness::from_stream(ParseStream *s){
                 writeVarInt(cur_element_len, witnessArray+offset, lenVarInt(cur_element_len));
             }
         }
-        while(s->available() > 0 && cur_bytes_parsed+cur_bytes_read < cur_element_len+lenVarInt(cur_element_len)){
+        while(s->available() > 0 && cur_bytes_parsed+cur_bytes_read < cur_element_len+curLen){
             witnessArray[offset+cur_bytes_parsed+cur_bytes_read] = s->read();
             // s->read();
             cur_bytes_read++;
         }
-        if(cur_bytes_parsed+cur_bytes_read==cur_element_len+lenVarInt(cur_element_len)){
+        if(cur_bytes_parsed+cur_bytes_read==cur_element_len+curLen){
             curLen = 0;
             cur_element_len = 0;
             cur_element++;
-- 
2.43.0


From 743646253a3105bde6708c16a32a5d3bd23e5607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:43 +0000
Subject: [PATCH 15/72] fix: Witness::count() was truncated to 8 bits

---
 src/Bitcoin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 6d0d781..6a4d820 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -572,7 +572,7 @@ public:
     Witness(const Witness &other); // copy
     ~Witness(){ if(witnessArray){ free(witnessArray); } };
     /** \brief returns number of elements in the witness */
-    uint8_t count() const{ return numElements; };
+    size_t count() const{ return numElements; };
     /** \brief adds `<len><data>` to the witness */
     size_t push(const uint8_t * data, size_t len);
     /** \brief adds `<len><sec>` to the witness */
-- 
2.43.0


From 0e72918793b407653829bb6a098ad8977f999027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:43 +0000
Subject: [PATCH 16/72] fix: PSBT isMine() did not verify that the output
 script belongs to the key

---
 src/PSBT.cpp | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 493cbf7..1f3d343 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -637,6 +637,43 @@ uint64_t PSBT::fee() const{
     return input_amount-output_amount;
 }
 
+// checks if the script pushes this public key (a key of multisig for example)
+static bool scriptHasPubkey(const Script &script, const PublicKey &pubkey){
+    uint8_t arr[66];
+    size_t len = 1+pubkey.sec(arr+1, 65);
+    arr[0] = len-1;
+    for(size_t i=0; i+len <= script.scriptLen; i++){
+        if(memcmp(script.scriptArray+i, arr, len) == 0){
+            return true;
+        }
+    }
+    return false;
+}
+
+// checks that the output script really involves the public key from the derivation
+static bool outputHasPubkey(const TxOut &txOut, const PSBTOutputMetadata &meta, const PublicKey &pubkey){
+    Script script = txOut.scriptPubkey;
+    if(script.type() == P2SH){
+        if(script == Script(pubkey, P2WPKH).scriptPubkey(P2SH)){
+            return true;
+        }
+        if(script != meta.redeemScript.scriptPubkey(P2SH)){
+            return false;
+        }
+        script = meta.redeemScript;
+    }
+    if(script.type() == P2WSH){
+        if(script != meta.witnessScript.scriptPubkey(P2WSH)){
+            return false;
+        }
+        script = meta.witnessScript;
+    }
+    if(script.type() == P2PKH || script.type() == P2WPKH){
+        return script == Script(pubkey, script.type());
+    }
+    return scriptHasPubkey(script, pubkey);
+}
+
 bool PSBT::isMine(uint8_t outputNumber, const HDPublicKey xpub) const{
     bool mine = false;
     if(txOutsMeta == NULL || outputNumber >= tx.outputsNumber){
@@ -645,12 +682,12 @@ bool PSBT::isMine(uint8_t outputNumber, const HDPublicKey xpub) const{
     if(txOutsMeta[outputNumber].derivationsLen > 0){
         for(unsigned int j=0; j<txOutsMeta[outputNumber].derivationsLen; j++){
             HDPublicKey pub = xpub.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen);
-            if(memcmp(pub.point, txOutsMeta[outputNumber].derivations[j].pubkey.point, 64)==0){
+            if(memcmp(pub.point, txOutsMeta[outputNumber].derivations[j].pubkey.point, 64)==0 &&
+               outputHasPubkey(tx.txOuts[outputNumber], txOutsMeta[outputNumber], txOutsMeta[outputNumber].derivations[j].pubkey)){
                 mine = true;
             }
         }
     }
-    // TODO: add verification of the script
     return mine;
 }
 
@@ -662,12 +699,12 @@ bool PSBT::isMine(uint8_t outputNumber, const HDPrivateKey xprv) const{
     if(txOutsMeta[outputNumber].derivationsLen > 0){
         for(unsigned int j=0; j<txOutsMeta[outputNumber].derivationsLen; j++){
             HDPublicKey pub = xprv.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen).xpub();
-            if(memcmp(pub.point, txOutsMeta[outputNumber].derivations[j].pubkey.point, 64)==0){
+            if(memcmp(pub.point, txOutsMeta[outputNumber].derivations[j].pubkey.point, 64)==0 &&
+               outputHasPubkey(tx.txOuts[outputNumber], txOutsMeta[outputNumber], txOutsMeta[outputNumber].derivations[j].pubkey)){
                 mine = true;
             }
         }
     }
-    // TODO: add verification of the script
     return mine;
 }
 
-- 
2.43.0


From 976720c37d288298c55c9d761deab0f95623b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:04 +0000
Subject: [PATCH 17/72] fix: PSBT serialization replaced the sighash byte of
 partial signatures with SIGHASH_ALL

---
 src/PSBT.cpp | 3 ++-
 src/PSBT.h   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 1f3d343..87cc6c5 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -280,6 +280,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -2;
                     break;
                 }
+                psig.sighash = v->scriptArray[l];
                 // only one signature per public key
                 size_t index = 0;
                 while(index < txInsMeta[input].signaturesLen && txInsMeta[input].signatures[index].pubkey != psig.pubkey){
@@ -415,7 +416,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 uint8_t val_arr[100];
                 uint8_t val_len = 1+txInsMeta[input].signatures[i].signature.serialize(val_arr+1, 98);
                 val_arr[0] = val_len;
-                val_arr[val_len] = SIGHASH_ALL;
+                val_arr[val_len] = txInsMeta[input].signatures[i].sighash;
                 while(s->available() && bytes_written+offset < cur+val_len+1){
                     s->write(val_arr[bytes_written+offset-cur]);
                     bytes_written++;
diff --git a/src/PSBT.h b/src/PSBT.h
index 1c29fe9..894ea3f 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -24,6 +24,8 @@ typedef struct{
     PublicKey pubkey;
     /** \brief Signature we generated */
     Signature signature;
+    /** \brief Type of the hash that was signed */
+    uint8_t sighash;
 } PSBTPartialSignature;
 
 /** \brief Data required for input signing */
-- 
2.43.0


From 634a64a701e8261cd029020fe498ad988a652383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:53 +0000
Subject: [PATCH 18/72] fix: private keys that are not below the curve order
 were silently reduced when parsing, even to zero

---
 src/Bitcoin.cpp      | 9 ++++-----
 src/BitcoinCurve.cpp | 8 ++++----
 src/HDWallet.cpp     | 9 ++++-----
 3 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 132fceb..baa5448 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -491,13 +491,12 @@ size_t PrivateKey::from_stream(ParseStream *s){
     if(bytes_parsed+bytes_read == 32){
         status = PARSING_DONE;
         uint8_t zero[32] = { 0 };
-        if(memcmp(num, zero, 32)==0){ // should we add something else here?
-            status = PARSING_FAILED;
-        }
         bignum256 n;
         bn_read_be(num, &n);
-        bn_mod(&n, &secp256k1.order);
-        bn_write_be(&n, num);
+        if(memcmp(num, zero, 32)==0 || !bn_is_less(&n, &secp256k1.order)){ // not a valid secret
+            status = PARSING_FAILED;
+            memzero(num, 32);
+        }
         pubKey = *this * GeneratorPoint;
     }
     bytes_parsed += bytes_read;
diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 5a0c2a1..4e6ea59 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -181,14 +181,14 @@ size_t ECScalar::from_stream(ParseStream *s){
 	}
 	if(bytes_parsed+bytes_read == 32){
 		status = PARSING_DONE;
-		uint8_t zero[32] = { 0 };
-		if(memcmp(num, zero, 32)==0){ // should we add something else here?
-		status = PARSING_FAILED;
-		}
 		bignum256 n;
 		bn_read_be(num, &n);
 		bn_mod(&n, &secp256k1.order);
 		bn_write_be(&n, num);
+		uint8_t zero[32] = { 0 };
+		if(memcmp(num, zero, 32)==0){ // zero modulo curve order
+			status = PARSING_FAILED;
+		}
 	}
 	bytes_parsed += bytes_read;
 	return bytes_read;
diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index f822fc4..d8f743c 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -215,13 +215,12 @@ size_t HDPrivateKey::from_stream(ParseStream *s){
     if(bytes_parsed+bytes_read == 78){
         status = PARSING_DONE;
         uint8_t zero[32] = { 0 };
-        if(memcmp(num, zero, 32)==0){ // should we add something else here?
-            status = PARSING_FAILED;
-        }
         bignum256 n;
         bn_read_be(num, &n);
-        bn_mod(&n, &secp256k1.order);
-        bn_write_be(&n, num);
+        if(memcmp(num, zero, 32)==0 || !bn_is_less(&n, &secp256k1.order)){ // not a valid secret
+            status = PARSING_FAILED;
+            memzero(num, 32);
+        }
         pubKey = *this * GeneratorPoint;
         pubKey.compressed = true;
     }
-- 
2.43.0


From b0f9c34a69adf80b18ebcbb9e8fcbb15a8272a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:54 +0000
Subject: [PATCH 19/72] fix: extended keys of wrong length or with invalid
 public key were accepted or left uninitialized

---
 src/HDWallet.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index d8f743c..0805dc2 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -231,11 +231,15 @@ size_t HDPrivateKey::from_str(const char * xprvArr, size_t xprvLen){
     init();
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xprvArr, xprvLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != 78){
+        status = PARSING_FAILED;
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPrivateKey::from_stream(&s);
+    if(status != PARSING_DONE){
+        return 0;
+    }
     return xprvLen;
 }
 int HDPrivateKey::fromSeed(const uint8_t * seed, size_t seedSize, const Network * net){
@@ -644,8 +648,10 @@ size_t HDPublicKey::from_stream(ParseStream *s){
         status = PARSING_DONE;
         uint8_t arr[33];
         memcpy(arr, point, 33);
-        uint8_t buf[65];
-        ecdsa_uncompress_pubkey(&secp256k1, arr, buf);
+        uint8_t buf[65] = { 0 };
+        if((arr[0] != 0x02 && arr[0] != 0x03) || !ecdsa_uncompress_pubkey(&secp256k1, arr, buf)){
+            memzero(buf, sizeof(buf));
+        }
         memcpy(point, buf+1, 64);
         if(!isValid()){
             status = PARSING_FAILED;
@@ -657,11 +663,16 @@ size_t HDPublicKey::from_stream(ParseStream *s){
 size_t HDPublicKey::from_str(const char * xpubArr, size_t xpubLen){
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xpubArr, xpubLen, arr, sizeof(arr));
-    if(l == 0){
+    reset();
+    if(l != 78){
+        status = PARSING_FAILED;
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPublicKey::from_stream(&s);
+    if(status != PARSING_DONE){
+        return 0;
+    }
     return xpubLen;
 }
 
@@ -712,8 +723,12 @@ HDPublicKey &HDPublicKey::operator=(const HDPublicKey &other){
 HDPublicKey::HDPublicKey(const char * xpubArr){
     reset();
     memzero(prefix, 4);
+    memzero(chainCode, 32);
+    depth = 0;
+    memzero(parentFingerprint, 4);
     childNumber = 0;
     network = &DEFAULT_NETWORK;
+    type = UNKNOWN_TYPE;
     from_str(xpubArr, strlen(xpubArr));
 }
 HDPublicKey::~HDPublicKey(void) {
-- 
2.43.0


From ea4030baa7611b616350d92091c6493de49739e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:55 +0000
Subject: [PATCH 20/72] fix: derivation path parser read outside of the string
 and accepted empty and too large indexes

---
 src/HDWallet.cpp | 46 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 0805dc2..f2fb67f 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -482,12 +482,22 @@ HDPrivateKey HDPrivateKey::derive(const char * path) const{
     size_t len = strlen(path);
     const char * cur = path;
     if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
+        size_t skip = (len > 1) ? 2 : 1;
+        if(skip == 2 && path[1] != '/'){
+            return HDPrivateKey();
+        }
+        cur+=skip;
+        len-=skip;
+    }
+    if(len == 0){ // nothing to derive
+        return *this;
     }
     if(cur[len-1] == '/'){ // remove trailing "/"
         len--;
     }
+    if(len == 0 || cur[len-1] == '/'){ // empty index
+        return HDPrivateKey();
+    }
     HDPrivateKey pk; // invalid private key to return if something failed
     size_t derivationLen = 1;
     // checking if all chars are valid and counting derivation length
@@ -505,6 +515,10 @@ HDPrivateKey HDPrivateKey::derive(const char * path) const{
     size_t current = 0;
     for(size_t i=0; i<len; i++){
         if(cur[i] == '/'){ // next
+            if(i == 0 || cur[i-1] == '/'){ // empty index
+                free(derivation);
+                return pk;
+            }
             current++;
             continue;
         }
@@ -515,8 +529,16 @@ HDPrivateKey HDPrivateKey::derive(const char * path) const{
             return pk;
         }
         if(val < 10){
+            if(derivation[current] > (HARDENED_INDEX-1-val)/10){ // index is too large
+                free(derivation);
+                return pk;
+            }
             derivation[current] = derivation[current]*10 + val;
         }else{ // h or ' -> hardened
+            if(i == 0 || cur[i-1] == '/'){ // empty index
+                free(derivation);
+                return pk;
+            }
             derivation[current] += HARDENED_INDEX;
         }
     }
@@ -832,12 +854,22 @@ HDPublicKey HDPublicKey::derive(const char * path) const{
     size_t len = strlen(path);
     const char * cur = path;
     if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
+        size_t skip = (len > 1) ? 2 : 1;
+        if(skip == 2 && path[1] != '/'){
+            return HDPublicKey();
+        }
+        cur+=skip;
+        len-=skip;
+    }
+    if(len == 0){ // nothing to derive
+        return *this;
     }
     if(cur[len-1] == '/'){ // remove trailing "/"
         len--;
     }
+    if(len == 0 || cur[len-1] == '/'){ // empty index
+        return HDPublicKey();
+    }
     HDPublicKey pk; // dummy to return if something failed
     size_t derivationLen = 1;
     // checking if all chars are valid and counting derivation length
@@ -855,7 +887,7 @@ HDPublicKey HDPublicKey::derive(const char * path) const{
     size_t current = 0;
     for(size_t i=0; i<len; i++){
         if(cur[i] == '/'){ // next
-            if(derivation[current] >= HARDENED_INDEX){ // can't be hardened
+            if(i == 0 || cur[i-1] == '/'){ // empty index
                 free(derivation);
                 return pk;
             }
@@ -864,6 +896,10 @@ HDPublicKey HDPublicKey::derive(const char * path) const{
         }
         const char * pch = strchr(VALID_CHARS, cur[i]);
         uint32_t val = pch-VALID_CHARS;
+        if(derivation[current] > (HARDENED_INDEX-1-val)/10){ // can't be hardened
+            free(derivation);
+            return pk;
+        }
         derivation[current] = derivation[current]*10 + val;
     }
     pk = derive(derivation, derivationLen);
-- 
2.43.0


From 5793daed5c4cf1216358f5dbface42f76d0db83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:56 +0000
Subject: [PATCH 21/72] fix: children of invalid keys and hardened children of
 public keys looked like valid keys

---
 src/HDWallet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index f2fb67f..57eacc8 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -387,6 +387,9 @@ HDPrivateKey HDPrivateKey::child(uint32_t index, bool hardened) const{
         hardened = true;
     }
     HDPrivateKey child;
+    if(!isValid() || depth == 255){ // there are no children of this key
+        return child;
+    }
 
     uint8_t sec[65] = { 0 };
     PublicKey p = publicKey();
@@ -811,6 +814,9 @@ String HDPublicKey::fingerprint() const{
 
 HDPublicKey HDPublicKey::child(uint32_t index) const{
     HDPublicKey child;
+    if(index >= HARDENED_INDEX || !isValid() || depth == 255){ // impossible to derive from the public key
+        return child;
+    }
 
     uint8_t secArr[65] = { 0 };
     int l = sec(secArr, sizeof(secArr));
-- 
2.43.0


From c0cffcdb3bffd3a8513f645e20624370a9cc9027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:57 +0000
Subject: [PATCH 22/72] fix: derivation of regtest keys switched the network to
 testnet

---
 src/HDWallet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 57eacc8..f420f4b 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -426,7 +426,7 @@ HDPrivateKey HDPrivateKey::child(uint32_t index, bool hardened) const{
             }
         }
         if(depth == 1){
-            if(index == (HARDENED_INDEX+1)){
+            if(index == (HARDENED_INDEX+1) && network->bip32 != 1){ // regtest stays regtest
                 child.network = &Testnet;
             }
             if(index == HARDENED_INDEX){
-- 
2.43.0


From fabefa50652c96567e349d95f62694ae6a471b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:27 +0000
Subject: [PATCH 23/72] fix: witness parser wrote out of bounds when the
 element length overflows size_t

---
 src/Script.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 35667bd..79a3ceb 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -597,7 +597,7 @@ size_t Witness::from_stream(ParseStream *s){
             cur_element_len += ((size_t)(s->read() & 0xFF) << (8*(cur_bytes_parsed+cur_bytes_read-1)));
             cur_bytes_read++;
         }
-        if(lenVarInt(cur_element_len) != curLen && cur_bytes_parsed+cur_bytes_read == curLen){
+        if((lenVarInt(cur_element_len) != curLen || cur_element_len > SIZE_MAX - witnessLen - curLen) && cur_bytes_parsed+cur_bytes_read == curLen){
             status = PARSING_FAILED;
             cur_bytes_parsed+=cur_bytes_read;
             bytes_read+=cur_bytes_read;
-- 
2.43.0


From b8bb75f68dddc8f2cf52dae266ad958a50bfafa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:23 +0000
Subject: [PATCH 24/72] fix: base58 and base43 decoders lost or added leading
 zero bytes and read NUL as a digit

---
 src/Conversion.cpp | 46 +++++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 7a37261..10afcd9 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -347,7 +347,7 @@ size_t toBase58Check(const uint8_t * array, size_t arraySize, char * output, siz
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String toBase58Check(const uint8_t * array, size_t arraySize){
     if(array == NULL){ return String(); }
-    size_t len = toBase58Length(array, arraySize + 4) + 1; // +4 checksum +1 for null terminator
+    size_t len = toBase58Length(array, arraySize) + 6 + 1; // +6 for 4 bytes of checksum +1 for null terminator
     char * buf = (char *)malloc(len);
     if(buf == NULL){ return String(); }
     toBase58Check(array, arraySize, buf, len);
@@ -373,7 +373,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE58_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l]==0){ // char not in the alphabet
             break;
         }
     }
@@ -382,7 +382,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
 
-    uint8_t zeroCount = 0;
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE58_CHARS[0]){
             zeroCount++;
@@ -408,21 +408,19 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
-    for(size_t i = zeroCount; i < size; i++){
-        if(tmp[i] == 0){
-            shift++;
-        }else{
-            break;
-        }
+    size_t shift = 0; // leading zeroes of the number itself
+    while(shift < size && tmp[shift] == 0){
+        shift++;
     }
-    if(size-shift > outputSize){
+    size_t len = zeroCount + size - shift;
+    if(len > outputSize){
         free(tmp);
         return 0;
     }
-    memcpy(output, tmp+shift, size-shift);
+    // output is already zeroed
+    memcpy(output+zeroCount, tmp+shift, size-shift);
     free(tmp);
-    return size-shift;
+    return len;
 }
 
 size_t fromBase58Check(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize){
@@ -570,7 +568,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE43_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l]==0){ // char not in the alphabet
             break;
         }
     }
@@ -579,7 +577,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
 
-    uint8_t zeroCount = 0;
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE43_CHARS[0]){
             zeroCount++;
@@ -605,21 +603,19 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
-    for(size_t i = zeroCount; i < size; i++){
-        if(tmp[i] == 0){
-            shift++;
-        }else{
-            break;
-        }
+    size_t shift = 0; // leading zeroes of the number itself
+    while(shift < size && tmp[shift] == 0){
+        shift++;
     }
-    if(size-shift > outputSize){
+    size_t len = zeroCount + size - shift;
+    if(len > outputSize){
         free(tmp);
         return 0;
     }
-    memcpy(output, tmp+shift, size-shift);
+    // output is already zeroed
+    memcpy(output+zeroCount, tmp+shift, size-shift);
     free(tmp);
-    return size-shift;
+    return len;
 }
 #if (USE_STD_STRING || USE_ARDUINO_STRING)
 size_t fromBase43(String encoded, uint8_t * output, size_t outputSize){
-- 
2.43.0


From eea8189626ef3de88d453a3ae5b16aed25d869cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 25/72] fix: hex and base64 codecs accessed memory outside of
 the given buffers and malformed base64 was accepted

---
 src/Conversion.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 10afcd9..1f4c4c3 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -111,6 +111,10 @@ size_t fromHex(const char * hex, size_t hexLen, uint8_t * array, size_t arraySiz
         if((v1 > 0x0F) || (v2 > 0x0F)){ // if invalid char stop parsing
             return i;
         }
+        if(i >= arraySize){ // doesn't fit
+            memzero(array, arraySize);
+            return 0;
+        }
         array[i] = (v1<<4) | v2;
     }
     return hexLen/2;
@@ -145,7 +149,7 @@ size_t fromBin(const char * bin, size_t binLen, uint8_t * array, size_t arraySiz
     for(size_t i = 0; i < binLen; i++){
         // we go in reverse order (from the end of the string)
         uint8_t exp = (i%8); // shift
-        uint8_t n = (i/8); // current byte from the end
+        size_t n = (i/8); // current byte from the end
         char c = bin[binLen-i-1];
         if(c == '1'){
             // set bit
@@ -670,7 +674,7 @@ size_t toBase64(const uint8_t * array, size_t arraySize, char * output, size_t o
             memset(output + 4 * cur + 1 + rem, '=', 3-rem);
             len += 4;
         }
-    }else{
+    }else if(arraySize > 0){
         uint32_t val = bigEndianToInt(array+3*cur, 3);
         for(uint8_t i=0; i<4; i++){
             output[4*cur + i] = BASE64_CHARS[((val >> (6*(3-i))) & 0x3F)];
@@ -703,7 +707,7 @@ String toBase64(const uint8_t * array, size_t arraySize, uint8_t flags){
 }
 #endif
 size_t fromBase64Length(const char * array, size_t arraySize, uint8_t flags){
-    if(array == NULL){ return 0; }
+    if(array == NULL || arraySize == 0){ return 0; }
     if(arraySize % 4 != 0 && (flags & BASE64_NOPADDING) == 0){ return 0; }
     size_t v = (arraySize / 4) * 3;
     if(flags & BASE64_NOPADDING){
@@ -734,7 +738,9 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
         uint32_t val = 0;
         for(size_t i=0; i<4; i++){
-            char c = encoded[cur*4+i];
+            size_t pos = cur*4+i;
+            // missing characters at the end are the same as padding
+            char c = (pos < encodedSize) ? encoded[pos] : '=';
             // replace characters for urlsafe version
             if(c=='-' && (flags & BASE64_URLSAFE)){
                 c = '+';
@@ -742,9 +748,11 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
             if(c=='_' && (flags & BASE64_URLSAFE)){
                 c = '/';
             }
-            const char * pch = strchr(BASE64_CHARS, c);
-            if(pch==NULL || ((flags & BASE64_NOPADDING) && (c == 0))){
-                if((encoded[cur*4+i] == '=') || (c == 0 && (flags & BASE64_NOPADDING))){
+            const char * pch = (c == 0) ? NULL : strchr(BASE64_CHARS, c);
+            if(pch==NULL){
+                // padding is allowed only at the very end
+                bool last = (cur*4+4 >= encodedSize) && (i == 3 || pos >= encodedSize || (pos+1 < encodedSize && encoded[pos+1] == '='));
+                if(c == '=' && last){
                     if(i==3){
                         val = (val >> 2);
                         if(outputSize < 3*cur+2){
-- 
2.43.0


From 612f38c92e8cca7ef2e35cc95da5421411ee5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:43 +0000
Subject: [PATCH 26/72] fix: readVarInt read one byte of an empty buffer

---
 src/Conversion.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 1f4c4c3..eeb5c31 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -864,6 +864,9 @@ uint8_t lenVarInt(uint64_t num){
     return 9;
 }
 uint64_t readVarInt(const uint8_t * array, size_t arraySize){
+    if(arraySize == 0){
+        return 0;
+    }
     if(array[0] < 0xfd){
         return array[0];
     }else{
-- 
2.43.0


From 8cd23cf8eeaa5df61f018fa987291ef69e9b0ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:15 +0000
Subject: [PATCH 27/72] fix: integer conversion shifted by more than 63 bits
 for arrays longer than 8 bytes

---
 src/Conversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index eeb5c31..31a814b 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -830,7 +830,7 @@ uint64_t littleEndianToInt(const uint8_t * array, size_t arraySize){
 
 void intToLittleEndian(uint64_t num, uint8_t * array, size_t arraySize){
     for(size_t i = 0; i < arraySize; i++){
-        array[i] = ((num >> (8*i)) & 0xFF);
+        array[i] = (i < 8) ? ((num >> (8*i)) & 0xFF) : 0;
     }
 }
 
@@ -845,7 +845,7 @@ uint64_t bigEndianToInt(const uint8_t * array, size_t arraySize){
 
 void intToBigEndian(uint64_t num, uint8_t * array, size_t arraySize){
     for(size_t i = 0; i < arraySize; i++){
-        array[arraySize-i-1] = ((num >> (8*i)) & 0xFF);
+        array[arraySize-i-1] = (i < 8) ? ((num >> (8*i)) & 0xFF) : 0;
     }
 }
 
-- 
2.43.0


From 336596aee39e02c6ad905c135dbf0b28dc4d45a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:16 +0000
Subject: [PATCH 28/72] fix: scalar and point operators were wrong for zero,
 infinity and large integers, point order was reversed

---
 src/BitcoinCurve.cpp | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 4e6ea59..59f7a5f 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -212,30 +212,19 @@ ECScalar ECScalar::operator+(const ECScalar& other) const{
 	return sum;
 }
 ECScalar ECScalar::operator+(const uint32_t& i) const{
-	bignum256 a;
-	bn_read_be(this->num, &a);
-	bn_addi(&a, i);
-	bn_mod(&a, &secp256k1.order);
-	ECScalar sum;
-	bn_write_be(&a, sum.num);
-	return sum;
+	return *this + ECScalar(i);
 }
 ECScalar ECScalar::operator-() const{
     bignum256 a, b;
 	bn_read_be(this->num, &a);
 	bn_subtract(&secp256k1.order, &a, &b);
+	bn_mod(&b, &secp256k1.order); // zero stays zero
 	ECScalar neg;
 	bn_write_be(&b, neg.num);
 	return neg;
 }
 ECScalar ECScalar::operator-(const uint32_t& i) const{
-    bignum256 a;
-	bn_read_be(this->num, &a);
-	bn_subi(&a, i, &secp256k1.order);
-    bn_mod(&a, &secp256k1.order);
-	ECScalar sum;
-	bn_write_be(&a, sum.num);
-	return sum;
+	return *this - ECScalar(i);
 }
 ECScalar ECScalar::operator-(const ECScalar& other) const{
 	return (*this+(-other));
@@ -254,6 +243,9 @@ ECScalar ECScalar::operator/(const ECScalar& other) const{
     bignum256 a, b;
 	bn_read_be(this->num, &a);
 	bn_read_be(other.num, &b);
+	if(bn_is_zero(&b)){ // division by zero, result is not valid
+		return ECScalar();
+	}
 	bn_inverse(&b, &secp256k1.order);
 	bn_multiply(&b, &a, &secp256k1.order);
     bn_mod(&a, &secp256k1.order);
@@ -268,17 +260,20 @@ bool ECScalar::operator<(const ECScalar& other) const{
 	return bn_is_less(&a, &b);
 }
 bool ECPoint::operator<(const ECPoint& other) const{
-	uint8_t sec1[65];
-	uint8_t sec2[65];
+	uint8_t sec1[65] = { 0 };
+	uint8_t sec2[65] = { 0 };
 	sec(sec1, sizeof(sec1));
 	other.sec(sec2, sizeof(sec2));
-	return memcmp(sec1, sec2, sizeof(sec1)) > 0;
+	return memcmp(sec1, sec2, sizeof(sec1)) < 0;
 }
 ECPoint operator*(const ECScalar& scalar, const ECPoint& point){
 	ECPoint r;
 	uint8_t num[32];
 	scalar.getSecret(num);
-	if(point == GeneratorPoint){
+	uint8_t zero[32] = { 0 };
+	if(point == InfinityPoint || memcmp(num, zero, 32) == 0){
+		// result is infinity
+	}else if(point == GeneratorPoint){
 		uint8_t pubkey[65];
 		ecdsa_get_public_key65(&secp256k1, num, pubkey);
 		r.parse(pubkey, 65);
-- 
2.43.0


From 69a6d29318cb1fb93feafd67ed785529dc413070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:25 +0000
Subject: [PATCH 29/72] fix: PublicKey::verify rejected every signature for HD
 public keys

---
 src/Bitcoin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index baa5448..a311cbe 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -440,8 +440,8 @@ Script PublicKey::script(ScriptType type) const{
 bool PublicKey::verify(const Signature sig, const uint8_t hash[32]) const{
     uint8_t signature[64] = {0};
     sig.bin(signature, 64);
-    uint8_t pub[65];
-    serialize(pub, 65);
+    uint8_t pub[65] = {0};
+    sec(pub, 65);
     return (ecdsa_verify_digest(&secp256k1, pub, signature, hash)==0);
 }
 bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32]) const{
-- 
2.43.0


From aad2486e0eb79cdda57e86fd50b66f64b6a65ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:26 +0000
Subject: [PATCH 30/72] fix: ECDSA verification rejected valid signatures of
 hashes that are zero modulo the order

---
 src/utility/trezor/ecdsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/trezor/ecdsa.c b/src/utility/trezor/ecdsa.c
index b123b91..f853571 100755
--- a/src/utility/trezor/ecdsa.c
+++ b/src/utility/trezor/ecdsa.c
@@ -1102,7 +1102,7 @@ int ecdsa_verify_digest(const ecdsa_curve *curve, const uint8_t *pub_key, const
 	if (bn_is_zero(&z)) {
 		// our message hashes to zero
 		// I don't expect this to happen any time soon
-		result = 3;
+		point_set_infinity(&res);
 	} else {
 		scalar_multiply(curve, &z, &res);
 	}
-- 
2.43.0


From a0ee20761e435d16d2415b6ed243caf0042fdc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:54 +0000
Subject: [PATCH 31/72] fix: signatures that failed to parse were reported as
 valid

---
 src/Bitcoin.cpp | 1 +
 src/Bitcoin.h   | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index a311cbe..1e8faf6 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -295,6 +295,7 @@ void Signature::bin(uint8_t * arr, size_t len) const{
     }
 }
 void Signature::fromBin(const uint8_t * arr, size_t len){
+    reset();
     size_t l = len;
     if(l > 32){
         l = 32;
diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 6a4d820..f0cf934 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -438,7 +438,7 @@ public:
     /** \brief parses array as <r[32]><s[32]><index> */
     void fromBin(const uint8_t * arr, size_t len);
 
-    bool isValid() const{ uint8_t arr[32] = { 0 }; return !((memcmp(r, arr, 32) == 0) && (memcmp(s, arr, 32)==0)); };
+    bool isValid() const{ uint8_t arr[32] = { 0 }; return status == PARSING_DONE && !((memcmp(r, arr, 32) == 0) && (memcmp(s, arr, 32)==0)); };
     explicit operator bool() const{ return isValid(); };
 
     bool operator==(const Signature& other) const{ return (memcmp(r, other.r, 32) == 0) && (memcmp(s, other.s, 32) == 0); };
@@ -462,7 +462,7 @@ public:
     explicit SchnorrSignature(const char * rs);
     virtual size_t length() const{ return 64; };
 
-    bool isValid() const{ uint8_t arr[32] = { 0 }; return !((memcmp(r, arr, 32) == 0) && (memcmp(s, arr, 32)==0)); };
+    bool isValid() const{ uint8_t arr[32] = { 0 }; return status == PARSING_DONE && !((memcmp(r, arr, 32) == 0) && (memcmp(s, arr, 32)==0)); };
     explicit operator bool() const{ return isValid(); };
 
     bool operator==(const SchnorrSignature& other) const{ return (memcmp(r, other.r, 32) == 0) && (memcmp(s, other.s, 32) == 0); };
-- 
2.43.0


From 76b6871e72b4ea86809b52fa91471b9b5623fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:49 +0000
Subject: [PATCH 32/72] fix: Schnorr verification accepted signatures with odd
 nonce points, out-of-range values and invalid keys

---
 src/Bitcoin.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 1e8faf6..79f1b37 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -446,6 +446,9 @@ bool PublicKey::verify(const Signature sig, const uint8_t hash[32]) const{
     return (ecdsa_verify_digest(&secp256k1, pub, signature, hash)==0);
 }
 bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32]) const{
+    if(!ECPoint::isValid()){
+        return false;
+    }
     PublicKey pub = *this;
     if(!pub.isEven()){
         pub = -pub;
@@ -454,6 +457,15 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     sig.serialize(rs, sizeof(rs));
     PublicKey R;
     R.from_x(rs, 32);
+    if(!R.isValid()){ // not an x coordinate of a point on the curve
+        return false;
+    }
+    ECScalar s(rs+32, 32);
+    uint8_t snum[32];
+    s.getSecret(snum);
+    if(memcmp(snum, rs+32, 32) != 0){ // s is not less than the curve order
+        return false;
+    }
     // calculate hash using tagged hash with "BIP0340/challenge" prefix
     uint8_t e[32];
     uint8_t tmp[32];
@@ -466,12 +478,9 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     // write message
     tch.write(hash, 32);
     tch.end(e);
-    PrivateKey challenge(e);
-    PublicKey S = challenge*pub + R;
-    S.x(tmp, sizeof(tmp));
-    PrivateKey s(rs+32);
-    s.publicKey().x(e, 32);
-    return memcmp(tmp, e, 32) == 0;
+    ECScalar challenge(e, 32);
+    ECPoint S = challenge*pub + R;
+    return S == s*GeneratorPoint;
 };
 
 // ---------------------------------------------------------------- PrivateKey class
@@ -676,7 +685,7 @@ SchnorrSignature PrivateKey::schnorr_sign(const uint8_t hash[32]) const{
     tnonce.write(tmp, sizeof(tmp));
     tnonce.write(hash, 32);
     tnonce.end(nonce);
-    PrivateKey k(nonce);
+    PrivateKey k(ECScalar(nonce, 32));
     PublicKey R = k.publicKey();
     // flip k if r is not even
     if(!R.isEven()){
@@ -693,9 +702,9 @@ SchnorrSignature PrivateKey::schnorr_sign(const uint8_t hash[32]) const{
     tch.write(tmp, sizeof(tmp));
     tch.write(hash, 32);
     tch.end(e);
-    PrivateKey challenge(e);
+    ECScalar challenge(e, 32);
     // calculate s
-    PrivateKey S = k + challenge*prv;
+    ECScalar S = k + challenge*prv;
     S.getSecret(s);
 
     SchnorrSignature sig(r, s);
-- 
2.43.0


From 3ea9240d972b783b0b981a51edaa4b9f7f7d5313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:57 +0000
Subject: [PATCH 33/72] fix: WIF texts and secrets that are not valid left an
 old or unusable key behind

---
 src/Bitcoin.cpp | 48 ++++++++++++++++++++++++++++++++----------------
 src/Bitcoin.h   |  3 ++-
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 79f1b37..7f59507 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -517,17 +517,29 @@ PrivateKey::PrivateKey(void){
     memzero(num, 32); // empty key
     network = &DEFAULT_NETWORK;
 }
+void PrivateKey::setSecret(const uint8_t secret_arr[32]){
+    bignum256 n;
+    bn_read_be(secret_arr, &n);
+    if(bn_is_less(&n, &secp256k1.order)){
+        memcpy(num, secret_arr, 32);
+    }else{
+        memzero(num, 32); // not a valid secret
+    }
+    memzero(&n, sizeof(n));
+    pubKey = *this * GeneratorPoint;
+}
 PrivateKey::PrivateKey(const uint8_t * secret_arr, bool use_compressed, const Network * net){
     reset();
-    memcpy(num, secret_arr, 32);
     network = net;
-    pubKey = *this * GeneratorPoint;
+    PrivateKey::setSecret(secret_arr);
     pubKey.compressed = use_compressed;
 }
 PrivateKey::PrivateKey(const ECScalar other){
     reset();
-    other.getSecret(num);
-    pubKey = *this * GeneratorPoint;
+    uint8_t secret[32];
+    other.getSecret(secret);
+    PrivateKey::setSecret(secret);
+    memzero(secret, 32);
     pubKey.compressed = true;
     network = &DEFAULT_NETWORK;
 }
@@ -571,12 +583,19 @@ String PrivateKey::wif() const{
 int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
     uint8_t arr[40] = { 0 };
     size_t l = fromBase58Check(wifArr, wifSize, arr, sizeof(arr));
+    // if something is wrong the key is not valid
+    memzero(num, 32);
+    pubKey = PublicKey();
+    network = &DEFAULT_NETWORK;
     if( (l < 33) || (l > 34) ){
-        memzero(num, 32);
+        memzero(arr, 40);
+        return 0;
+    }
+    bool compressed = (l == 34);
+    if(compressed && arr[33] != 0x01){
+        memzero(arr, 40);
         return 0;
     }
-    bool compressed;
-    network = &DEFAULT_NETWORK;
     bool found = false;
     for(int i=0; i<networks_len; i++){
         if(arr[0] == networks[i]->wif){
@@ -586,19 +605,16 @@ int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
         }
     }
     if(!found){
+        memzero(arr, 40);
         return 0;
     }
 
-    if(l == 34){
-        compressed = (arr[33] > 0);
-    }
-    if(l == 33){
-        compressed = false;
-    }
-    memcpy(num, arr+1, 32);
+    PrivateKey::setSecret(arr+1);
     memzero(arr, 40); // clear memory
-
-    pubKey = *this * GeneratorPoint;
+    if(!ECScalar::isValid()){
+        network = &DEFAULT_NETWORK;
+        return 0;
+    }
     pubKey.compressed = compressed;
     return 1;
 }
diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index f0cf934..13907b5 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -180,7 +180,8 @@ public:
     /** \brief Length of the key in WIF format (52). In reality not always 52... */
     virtual size_t stringLength() const{ return 52; };
     virtual size_t length() const{ return 32; };
-    void setSecret(const uint8_t secret_arr[32]){ memcpy(num, secret_arr, 32); pubKey = *this * GeneratorPoint; };
+    /** \brief Sets the secret key. If it is not a valid secret (zero or not less than the curve order) the key becomes invalid. */
+    void setSecret(const uint8_t secret_arr[32]);
 
     /** \brief Pointer to the network to use. Mainnet or Testnet */
     const Network * network;
-- 
2.43.0


From 231dce073e1e91f4cbd6b51f486c485f06530b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:57 +0000
Subject: [PATCH 34/72] fix: key agreement with an invalid public key was not
 refused

---
 src/Bitcoin.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 7f59507..ccc6770 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -654,6 +654,10 @@ String PrivateKey::nestedSegwitAddress() const{
 #endif
 
 int PrivateKey::ecdh(const PublicKey pub, uint8_t shared_secret[32], bool use_hash){
+    if(!ECScalar::isValid() || !pub.isValid()){
+        memzero(shared_secret, 32);
+        return 0;
+    }
     // calculate pk * pub, serialize as uncompressed point and hash <x><y>
     ECPoint mult = *this * pub;
     mult.compressed = false;
-- 
2.43.0


From e964b3eb30ec74384213e4689faccfc816398003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:56 +0000
Subject: [PATCH 35/72] fix: Bech32 addresses longer than 90 characters
 overflowed buffers and witness versions 1-16 did not use Bech32m

---
 src/utility/segwit_addr.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/utility/segwit_addr.c b/src/utility/segwit_addr.c
index 337968f..e194bbb 100755
--- a/src/utility/segwit_addr.c
+++ b/src/utility/segwit_addr.c
@@ -47,7 +47,11 @@ static const int8_t charset_rev[128] = {
      1,  0,  3, 16, 11, 28, 12, 14,  6,  4,  2, -1, -1, -1, -1, -1
 };
 
-int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t data_len) {
+// checksum constants: BIP173 for witness version 0, BIP350 for other versions
+#define BECH32_CONST  1UL
+#define BECH32M_CONST 0x2bc830a3UL
+
+static int bech32_encode_const(char *output, const char *hrp, const uint8_t *data, size_t data_len, uint32_t checksum) {
     uint32_t chk = 1;
     size_t i = 0;
     while (hrp[i] != 0) {
@@ -75,7 +79,7 @@ int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t dat
     for (i = 0; i < 6; ++i) {
         chk = bech32_polymod_step(chk);
     }
-    chk ^= 1;
+    chk ^= checksum;
     for (i = 0; i < 6; ++i) {
         *(output++) = charset[(chk >> ((5 - i) * 5)) & 0x1f];
     }
@@ -83,7 +87,12 @@ int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t dat
     return 1;
 }
 
-int bech32_decode(char* hrp, uint8_t *data, size_t *data_len, const char *input) {
+int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t data_len) {
+    return bech32_encode_const(output, hrp, data, data_len, BECH32_CONST);
+}
+
+// returns the checksum constant of the string, 0 if the string is not valid
+static uint32_t bech32_decode_const(char* hrp, uint8_t *data, size_t *data_len, const char *input) {
     uint32_t chk = 1;
     size_t i;
     size_t input_len = strlen(input);
@@ -137,7 +146,11 @@ int bech32_decode(char* hrp, uint8_t *data, size_t *data_len, const char *input)
     if (have_lower && have_upper) {
         return 0;
     }
-    return chk == 1;
+    return chk;
+}
+
+int bech32_decode(char* hrp, uint8_t *data, size_t *data_len, const char *input) {
+    return bech32_decode_const(hrp, data, data_len, input) == BECH32_CONST;
 }
 
 int convert_bits(uint8_t* out, size_t* outlen, int outbits, const uint8_t* in, size_t inlen, int inbits, int pad) {
@@ -171,17 +184,21 @@ int segwit_addr_encode(char *output, const char *hrp, int witver, const uint8_t
     data[0] = witver;
     convert_bits(data + 1, &datalen, 5, witprog, witprog_len, 8, 1);
     ++datalen;
-    return bech32_encode(output, hrp, data, datalen);
+    return bech32_encode_const(output, hrp, data, datalen, (witver == 0) ? BECH32_CONST : BECH32M_CONST);
 }
 
 int segwit_addr_decode(int* witver, uint8_t* witdata, size_t* witdata_len, const char* hrp, const char* addr) {
     uint8_t data[84];
     char hrp_actual[84];
     size_t data_len;
-    if (!bech32_decode(hrp_actual, data, &data_len, addr)) return 0;
+    uint32_t checksum;
+    if (strlen(addr) > 90) return 0; // longer strings don't fit in the buffers
+    checksum = bech32_decode_const(hrp_actual, data, &data_len, addr);
+    if (checksum != BECH32_CONST && checksum != BECH32M_CONST) return 0;
     if (data_len == 0 || data_len > 65) return 0;
     if (strncmp(hrp, hrp_actual, 84) != 0) return 0;
     if (data[0] > 16) return 0;
+    if (checksum != ((data[0] == 0) ? BECH32_CONST : BECH32M_CONST)) return 0;
     *witdata_len = 0;
     if (!convert_bits(witdata, witdata_len, 8, data + 1, data_len - 1, 5, 0)) return 0;
     if (*witdata_len < 2 || *witdata_len > 40) return 0;
-- 
2.43.0


From fbccdb4e2996e2dfc2c2ff4983a7fc02e102e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:57 +0000
Subject: [PATCH 36/72] fix: scripts of upper case, regtest and future witness
 version addresses were wrong

---
 src/Script.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 79a3ceb..9ea636c 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -146,27 +146,22 @@ void Script::fromAddress(const char * address){
         return;
     }
     ScriptType type = UNKNOWN_TYPE;
-    const Network * network;
+    const Network * network = NULL;
+    int ver = 0;
+    uint8_t prog[40];
+    size_t prog_len = 0;
     for(int i=0; i<networks_len; i++){
-        if(memcmp(address, networks[i]->bech32, strlen(networks[i]->bech32))==0){
-            type = P2WPKH;
+        if(segwit_addr_decode(&ver, prog, &prog_len, networks[i]->bech32, address) == 1){
             network = networks[i];
             break;
         }
     }
     // segwit
-    if(type == P2WPKH){
-        int ver = 0;
-        uint8_t prog[32];
-        size_t prog_len = 0;
-        int r = segwit_addr_decode(&ver, prog, &prog_len, network->bech32, address);
-        if(r != 1){ // decoding failed
-            return;
-        }
+    if(network != NULL){
         scriptLen = prog_len + 2;
         scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
         if(scriptArray == NULL){ scriptLen = 0; return; }
-        scriptArray[0] = ver;
+        scriptArray[0] = (ver == 0) ? 0 : 0x50 + ver; // OP_0 or OP_1 - OP_16
         scriptArray[1] = prog_len; // varint?
         memcpy(scriptArray+2, prog, prog_len);
     }else{ // legacy or nested segwit
-- 
2.43.0


From bede7a8ef483dd0212878d6260f46844787e6b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:07 +0000
Subject: [PATCH 37/72] fix: Bech32 strings without a separator overflowed
 buffers

---
 src/utility/segwit_addr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/segwit_addr.c b/src/utility/segwit_addr.c
index e194bbb..8664427 100755
--- a/src/utility/segwit_addr.c
+++ b/src/utility/segwit_addr.c
@@ -105,10 +105,10 @@ static uint32_t bech32_decode_const(char* hrp, uint8_t *data, size_t *data_len,
     while (*data_len < input_len && input[(input_len - 1) - *data_len] != '1') {
         ++(*data_len);
     }
-    hrp_len = input_len - (1 + *data_len);
-    if (hrp_len < 1 || *data_len < 6) {
+    if (1 + *data_len >= input_len || *data_len < 6) { // no separator, no prefix or no checksum
         return 0;
     }
+    hrp_len = input_len - (1 + *data_len);
     *(data_len) -= 6;
     for (i = 0; i < hrp_len; ++i) {
         int ch = input[i];
-- 
2.43.0


From a4b08f5c48079af8f3fd01a0ed28af1639b34dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:04 +0000
Subject: [PATCH 38/72] fix: extended keys from invalid secrets aborted and
 failed texts left an old public key

---
 src/HDWallet.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index f420f4b..9cfc6b1 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -22,6 +22,7 @@ void HDPrivateKey::init(){
     reset();
     memzero(chainCode, 32);
     memzero(num, 32);
+    pubKey = PublicKey();
     pubKey.compressed = true;
     depth = 0;
     memzero(parentFingerprint, 4);
@@ -41,9 +42,8 @@ HDPrivateKey::HDPrivateKey(const uint8_t secret[32],
                            const Network * net,
                            ScriptType key_type){
     init();
-    memcpy(num, secret, 32);
     network = net;
-    pubKey = *this * GeneratorPoint;
+    PrivateKey::setSecret(secret);
     pubKey.compressed = true;
     type = key_type;
     memcpy(chainCode, chain_code, 32);
@@ -251,10 +251,9 @@ int HDPrivateKey::fromSeed(const uint8_t * seed, size_t seedSize, const Network
     sha.write(seed, seedSize);
     sha.endHMAC(raw);
     // sha512Hmac((byte *)key, strlen(key), seed, 64, raw);
-    memcpy(num, raw, 32);
     network = net;
     memcpy(chainCode, raw+32, 32);
-    pubKey = *this * GeneratorPoint;
+    PrivateKey::setSecret(raw);
     pubKey.compressed = true;
     return 1;
 }
-- 
2.43.0


From ca01bb76cb9b91e3a516e3a14fcc74dcfbd76baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:34 +0000
Subject: [PATCH 39/72] fix: mnemonicToEntropy ignored the given length of the
 mnemonic

---
 src/Bitcoin.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index ccc6770..e975e7b 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -41,22 +41,22 @@ const char * mnemonicFromEntropy(const uint8_t * entropy_data, size_t dataLen){
     return mnemonic_from_data(entropy_data, dataLen);
 }
 size_t mnemonicToEntropy(const char * mnemonic, size_t mnemonicLen, uint8_t * output, size_t outputLen){
-    int num_words = 1;
-    for (size_t i = 0; i < strlen(mnemonic); i++){
-        if(mnemonic[i] == ' '){
-            num_words ++;
-        }
-    }
-    size_t entropy_len = (num_words*4)/3;
-    if(outputLen < entropy_len){
+    // null-terminated copy, 24 words of 8 letters are the longest mnemonic
+    char words[24*10] = {0};
+    if(mnemonicLen >= sizeof(words)){
         return 0;
     }
+    memcpy(words, mnemonic, mnemonicLen);
     uint8_t res[33] = {0};
-    int r = mnemonic_to_entropy(mnemonic, res);
-    if(r == 0){
+    int num_words = mnemonic_to_entropy(words, res)/11;
+    memzero(words, sizeof(words));
+    size_t entropy_len = (num_words*4)/3;
+    if(num_words == 0 || outputLen < entropy_len){
+        memzero(res, sizeof(res));
         return 0;
     }
     memcpy(output, res, entropy_len);
+    memzero(res, sizeof(res));
     return entropy_len;
 }
 #if USE_ARDUINO_STRING || USE_STD_STRING
-- 
2.43.0


From 2a766d1905b6c5bfb1affa9d503ef72a81e40e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:25 +0000
Subject: [PATCH 40/72] fix: mnemonics of 15 and 21 words were generated but
 rejected as invalid

---
 src/utility/trezor/bip39.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/utility/trezor/bip39.c b/src/utility/trezor/bip39.c
index e02422f..d43e421 100755
--- a/src/utility/trezor/bip39.c
+++ b/src/utility/trezor/bip39.c
@@ -116,7 +116,7 @@ int mnemonic_to_entropy(const char *mnemonic, uint8_t *entropy)
 	n++;
 
 	// check number of words
-	if (n != 12 && n != 18 && n != 24) {
+	if (n < 12 || n > 24 || n % 3 != 0) {
 		return 0;
 	}
 
@@ -167,21 +167,16 @@ int mnemonic_check(const char *mnemonic)
 {
 	uint8_t bits[32 + 1];
 	int seed_len = mnemonic_to_entropy(mnemonic, bits);
-	if (seed_len != (12 * 11) && seed_len != (18 * 11) && seed_len != (24 * 11)) {
+	if (seed_len == 0) {
 		return 0;
 	}
 	int words = seed_len / 11;
 
 	uint8_t checksum = bits[words * 4 / 3];
 	sha256_Raw(bits, words * 4 / 3, bits);
-	if (words == 12) {
-		return (bits[0] & 0xF0) == (checksum & 0xF0); // compare first 4 bits
-	} else if (words == 18) {
-		return (bits[0] & 0xFC) == (checksum & 0xFC); // compare first 6 bits
-	} else if (words == 24) {
-		return bits[0] == checksum; // compare 8 bits
-	}
-	return 0;
+	// compare first 4 bits for 12 words, 5 for 15, 6 for 18, 7 for 21, 8 for 24
+	uint8_t mask = (uint8_t)(0xFF << (8 - words / 3));
+	return (bits[0] & mask) == (checksum & mask);
 }
 
 // passphrase must be at most 256 characters otherwise it would be truncated
-- 
2.43.0


From 4bdd3cb01916e38b8558b9193a52a0e74b54529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:36 +0000
Subject: [PATCH 41/72] fix: sortedmulti did not sort the keys

---
 src/Script.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 9ea636c..630b28a 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -103,9 +103,16 @@ static void quickSort(PublicKey array[], int low, int high) {
 }
 
 Script sortedmulti(uint8_t threshold, const PublicKey * pubkeys, uint8_t pubkeys_len){
-    // sort first
-    PublicKey * sortedkeys = (PublicKey *) pubkeys;
-    // TODO: the most
+    PublicKey sortedkeys[16];
+    if(pubkeys_len > 16){
+        // returning empty script
+        return Script();
+    }
+    // sort a copy of the keys first
+    for(int i=0; i<pubkeys_len; i++){
+        sortedkeys[i] = pubkeys[i];
+    }
+    quickSort(sortedkeys, 0, pubkeys_len-1);
     return multi(threshold, sortedkeys, pubkeys_len);
 }
 
-- 
2.43.0


From a1423ddc14ff77702afc8db9e9fa87bccfab1cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:37 +0000
Subject: [PATCH 42/72] fix: script of a public key for nested segwit was empty

---
 src/Script.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Script.cpp b/src/Script.cpp
index 630b28a..89a2553 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -235,6 +235,9 @@ Script::Script(const PublicKey pubkey, ScriptType type){
         int l = pubkey.sec(sec_arr, sizeof(sec_arr));
         hash160(sec_arr, l, scriptArray+2);
     }
+    if(type == P2SH_P2WPKH){
+        *this = sh(wpkh(pubkey));
+    }
 }
 Script::Script(const Script &other, ScriptType type){
     init();
-- 
2.43.0


From 63bf2482ef2ea16276127e90d256c97903595c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 43/72] fix: pushes that exceed the script size limit left a
 part of the data in the script

---
 src/Script.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 89a2553..e4495f7 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -461,22 +461,24 @@ size_t Script::push(const uint8_t * data, size_t len){
     return scriptLen;
 }
 size_t Script::push(const PublicKey pubkey){
-    uint8_t sec[65];
-    uint8_t len = pubkey.sec(sec, sizeof(sec));
-    push(len);
-    push(sec, len);
-    return scriptLen;
+    uint8_t buf[66];
+    buf[0] = pubkey.sec(buf+1, sizeof(buf)-1);
+    return push(buf, 1+buf[0]);
 }
 size_t Script::push(const Signature sig, SigHashType sigType){
-    uint8_t der[75];
-    uint8_t len = sig.der(der, sizeof(der));
-    push(len+1);
-    push(der, len);
-    push(sigType);
-    return scriptLen;
+    uint8_t buf[77];
+    uint8_t len = sig.der(buf+1, sizeof(buf)-2);
+    buf[0] = len+1;
+    buf[1+len] = sigType;
+    return push(buf, 2+len);
 }
 size_t Script::push(const Script sc){
     size_t len = sc.scriptLen;
+    size_t prefix = (len < OP_PUSHDATA1) ? 1 : ((len <= 0xFF) ? 2 : 3);
+    if(scriptLen+prefix+len > MAX_SCRIPT_SIZE){
+        clear();
+        return 0;
+    }
     if(len < OP_PUSHDATA1){
         push((uint8_t)len);
     }else if(len <= 0xFF){
-- 
2.43.0


From d459138f7c2c3ae6a303ad3b2145029d3f076446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:24 +0000
Subject: [PATCH 44/72] fix: copies of Electrum transactions leaked, dropped
 state and read missing metadata

---
 src/Electrum.cpp | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 13bdd26..8b9ddad 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -1,24 +1,21 @@
 #include "Electrum.h"
 
 ElectrumTx::ElectrumTx(ElectrumTx const &other){
-    tx = other.tx;
-    is_segwit = false;
-    txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
-    for(unsigned int i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
-    }
-    status = other.status;
-    bytes_parsed = other.bytes_parsed;
+    txInsMeta = NULL;
+    *this = other;
 }
 ElectrumTx& ElectrumTx::operator=(ElectrumTx const &other){
     if (this == &other){ return *this; } // self-assignment
-    if(tx.inputsNumber > 0){
-        delete [] txInsMeta;
-    }
+    delete [] txInsMeta;
+    txInsMeta = NULL;
     tx = other.tx;
-    txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
-    for(unsigned int i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
+    is_segwit = other.is_segwit;
+    // metadata is not there until the transaction is parsed
+    if(other.txInsMeta != NULL){
+        txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
+        for(unsigned int i=0; i<tx.inputsNumber; i++){
+            txInsMeta[i] = other.txInsMeta[i];
+        }
     }
     status = other.status;
     bytes_parsed = other.bytes_parsed;
@@ -30,9 +27,7 @@ size_t ElectrumTx::from_stream(ParseStream *s){
         return 0;
     }
     if(status == PARSING_DONE){
-        if(tx.inputsNumber > 0){
-            delete [] txInsMeta;
-        }
+        delete [] txInsMeta;
         txInsMeta = NULL;
         tx = Tx();
         bytes_parsed = 0;
-- 
2.43.0


From f053287788884811e4c0ddaed788c125ae9ec254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:47 +0000
Subject: [PATCH 45/72] fix: copies of partially parsed scripts, witnesses and
 PSBTs could not be continued

---
 src/PSBT.cpp   |  5 +++++
 src/Script.cpp | 30 ++++++++++++++++--------------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 87cc6c5..cc63821 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -473,6 +473,11 @@ static void freeDerivations(PSBTDerivation * derivations, uint8_t len){
 void PSBT::copy(PSBT const &other){
     tx = other.tx;
     status = other.status;
+    bytes_parsed = other.bytes_parsed;
+    key = other.key;
+    value = other.value;
+    current_section = other.current_section;
+    last_key_pos = other.last_key_pos;
     if(other.txInsMeta != NULL){
         txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
         for(size_t i=0; i<tx.inputsNumber; i++){
diff --git a/src/Script.cpp b/src/Script.cpp
index e4495f7..d716929 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -506,16 +506,16 @@ Script &Script::operator=(const Script &other){
         if(scriptArray == NULL){ scriptLen = 0; return *this; }
         memcpy(scriptArray, other.scriptArray, scriptLen);
     }
+    // parsing can be continued in the copy
+    status = other.status;
+    bytes_parsed = other.bytes_parsed;
+    lenLen = other.lenLen;
+    varLen = other.varLen;
     return *this;
 };
 Script::Script(const Script &other){
     init();
-    if(other.scriptLen > 0){
-        scriptLen = other.scriptLen;
-        scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
-        if(scriptArray == NULL){ scriptLen = 0; return; }
-        memcpy(scriptArray, other.scriptArray, scriptLen);
-    }
+    *this = other;
 };
 
 //------------------------------------------------------------ Witness
@@ -710,24 +710,26 @@ size_t Witness::push(const Script sc){
 }
 Witness::Witness(const Witness &other){
     init();
-    numElements = other.numElements;
-    if(other.witnessLen > 0){
-        witnessLen = other.witnessLen;
-        witnessArray = (uint8_t *) calloc( witnessLen, sizeof(uint8_t));
-        if(witnessArray == NULL){ witnessLen = 0; return;}
-        memcpy(witnessArray, other.witnessArray, witnessLen);
-    }
+    *this = other;
 };
 Witness &Witness::operator=(Witness const &other){
     if (this == &other){ return *this; } // self-assignment
     reset();
     clear();
-    numElements = other.numElements;
     if(other.witnessLen > 0){
         witnessLen = other.witnessLen;
         witnessArray = (uint8_t *) calloc( witnessLen, sizeof(uint8_t));
         if(witnessArray == NULL){ witnessLen = 0; return *this;}
         memcpy(witnessArray, other.witnessArray, witnessLen);
     }
+    numElements = other.numElements;
+    // parsing can be continued in the copy
+    status = other.status;
+    bytes_parsed = other.bytes_parsed;
+    cur_element = other.cur_element;
+    cur_element_len = other.cur_element_len;
+    cur_bytes_parsed = other.cur_bytes_parsed;
+    curLen = other.curLen;
+    lenLen = other.lenLen;
     return *this;
 };
-- 
2.43.0


From ee231e036373bb5a15ff6785294dd5bbe8c98708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:20 +0000
Subject: [PATCH 46/72] fix: input amounts of legacy Electrum transactions were
 not initialized

---
 src/Electrum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 8b9ddad..d0f052b 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -65,6 +65,7 @@ size_t ElectrumTx::from_stream(ParseStream *s){
                         bytes_parsed+=bytes_read;
                         return bytes_read;
                     }
+                    txInsMeta[i].amount = 0; // amounts are not known
                     txInsMeta[i].derivation[0] = arr[84] + (arr[85] << 8);
                     txInsMeta[i].derivation[1] = arr[86] + (arr[87] << 8);
                     tx.txIns[i].scriptSig = Script();
-- 
2.43.0


From d07f44a71a0e8e1fe85e2c321e8236c15359e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:39 +0000
Subject: [PATCH 47/72] fix: invalid key in a segwit Electrum transaction hung
 the parser

---
 src/Electrum.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index d0f052b..620e295 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -114,6 +114,11 @@ size_t ElectrumTx::from_stream(ParseStream *s){
             start += 7;
             while(s->available() && bytes_parsed+bytes_read < start + 78){
                 bytes_read+=s->parse(&txInsMeta[i].hd);
+                if(txInsMeta[i].hd.getStatus() == PARSING_FAILED){ // not a key, nothing more to read
+                    status = PARSING_FAILED;
+                    bytes_parsed += bytes_read;
+                    return bytes_read;
+                }
             }
             start += 78;
             while(s->available() && bytes_parsed+bytes_read < start + 4){
-- 
2.43.0


From f0c1242d00da3ba7e08216bc2c7062ebf41eb3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:00 +0000
Subject: [PATCH 48/72] fix: descriptor checksum accepted zero characters

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index cc63821..2b21521 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -55,7 +55,7 @@ size_t descriptorChecksum(const char * span, size_t spanLen, char * output, size
     for(size_t i=0; i<spanLen; i++){
         char ch = span[i];
         const char * pch = strchr(INPUT_CHARSET, ch);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || ch == 0){ // char not in the alphabet
             return 0;
         }
         size_t pos = pch - INPUT_CHARSET;
-- 
2.43.0


From ba215be75750a15343c9ad0da8f6d8ec65f211a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:23 +0000
Subject: [PATCH 49/72] fix: segwitAddress returned a wrong length and refused
 sufficient buffers

---
 src/Bitcoin.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index e975e7b..9dcfce6 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -396,15 +396,18 @@ String PublicKey::legacyAddress(const Network * network) const{
 #endif
 int PublicKey::segwitAddress(char address[], size_t len, const Network * network) const{
     memzero(address, len);
-    if(len < 76){ // TODO: 76 is too much for native segwit
-        return 0;
-    }
     uint8_t hash[20];
     uint8_t sec_arr[65] = { 0 };
     int l = sec(sec_arr, sizeof(sec_arr));
     hash160(sec_arr, l, hash);
-    segwit_addr_encode(address, network->bech32, 0, hash, 20);
-    return 76;
+    char addr[76] = { 0 };
+    segwit_addr_encode(addr, network->bech32, 0, hash, 20);
+    size_t addr_len = strlen(addr);
+    if(len < addr_len+1){
+        return 0;
+    }
+    memcpy(address, addr, addr_len);
+    return addr_len;
 }
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String PublicKey::segwitAddress(const Network * network) const{
-- 
2.43.0


From 6dabf7ab02d2310412c17acd9eb13497082984b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:34 +0000
Subject: [PATCH 50/72] fix: texts of objects dereferenced a failed allocation

---
 src/BaseClasses.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index 2d1e3b6..265b6d9 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -136,6 +136,7 @@ size_t SerializeByteStream::write(const uint8_t *arr, size_t length){
 size_t Readable::printTo(Print& p) const{
     size_t len = this->stringLength()+1;
     char * arr = (char *)calloc(len, sizeof(char));
+    if(arr == NULL){ return 0; }
     toString(arr, len);
     p.print(arr);
     free(arr);
@@ -146,6 +147,7 @@ size_t Readable::printTo(Print& p) const{
 String Readable::toString() const{
     size_t len = this->stringLength()+1;
     char * arr = (char *)calloc(len, sizeof(char));
+    if(arr == NULL){ return String(); }
     toString(arr, len);
     String s = arr;
     free(arr);
@@ -161,6 +163,7 @@ String Streamable::serialize(size_t offset, size_t len) const{
         len = (length()-offset);
     }
     char * arr = (char *)calloc(2*len+1, sizeof(char));
+    if(arr == NULL){ return String(); }
     serialize(arr, 2*len, offset, HEX_ENCODING);
     String s = arr;
     free(arr);
-- 
2.43.0


From b1bc8040792ab7db9e1b59a3d51c0ecff72e4a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:15 +0000
Subject: [PATCH 51/72] fix: PSBT records were dropped silently when memory ran
 out

---
 src/PSBT.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 2b21521..faf03cf 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -214,10 +214,10 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
         return 0;
     }
     uint8_t * key_arr = (uint8_t *)calloc(k->length(), sizeof(uint8_t));
-    if(key_arr == NULL){ return 0; }
+    if(key_arr == NULL){ return -1; }
     k->serialize(key_arr, k->length());
     uint8_t * val_arr = (uint8_t *)calloc(v->length(), sizeof(uint8_t));
-    if(val_arr == NULL){ free(key_arr); return 0; }
+    if(val_arr == NULL){ free(key_arr); return -1; }
     v->serialize(val_arr, v->length());
     uint8_t key_code = key_arr[lenVarInt(k->scriptLen)];
     int res = 0;
@@ -249,7 +249,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 txInsMeta[input].txOut = tempTx.txOuts[tx.txIns[input].outputIndex];
-                res = 1;
+                // the copy is incomplete if there is not enough memory
+                res = (txInsMeta[input].txOut.length() == tempTx.txOuts[tx.txIns[input].outputIndex].length()) ? 1 : -2;
                 break;
             }
             case 1: { // PSBT_IN_WITNESS_UTXO
@@ -264,7 +265,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 txInsMeta[input].txOut = txOut;
-                res = 1;
+                // the copy is incomplete if there is not enough memory
+                res = (txInsMeta[input].txOut.length() == txOut.length()) ? 1 : -2;
                 break;
             }
             case 2: { // PSBT_IN_PARTIAL_SIG
@@ -321,7 +323,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 txInsMeta[input].redeemScript.parse(val_arr, v->length());
-                res = 1;
+                res = (txInsMeta[input].redeemScript.getStatus() == PARSING_DONE) ? 1 : -2;
                 break;
             }
             case 5: { // PSBT_IN_WITNESS_SCRIPT
@@ -330,7 +332,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 txInsMeta[input].witnessScript.parse(val_arr, v->length());
-                res = 1;
+                res = (txInsMeta[input].witnessScript.getStatus() == PARSING_DONE) ? 1 : -2;
                 break;
             }
             case 6: { // PSBT_IN_BIP32_DERIVATION
@@ -355,7 +357,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 txOutsMeta[output].redeemScript.parse(val_arr, v->length());
-                res = 1;
+                res = (txOutsMeta[output].redeemScript.getStatus() == PARSING_DONE) ? 1 : -2;
                 break;
             }
             case 1: { // PSBT_OUT_WITNESS_SCRIPT
@@ -364,7 +366,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 txOutsMeta[output].witnessScript.parse(val_arr, v->length());
-                res = 1;
+                res = (txOutsMeta[output].witnessScript.getStatus() == PARSING_DONE) ? 1 : -2;
                 break;
             }
             case 2: { // PSBT_OUT_BIP32_DERIVATION
-- 
2.43.0


From 303341eafd27f4deefb6e73e7c356c84d2ea1d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:15 +0000
Subject: [PATCH 52/72] fix: scripts with missing parts were built when memory
 ran out

---
 src/Bitcoin.h  |  2 +-
 src/Script.cpp | 34 ++++++++++++++++++++--------------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 13907b5..7aeb788 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -581,7 +581,7 @@ public:
     /** \brief adds `<len><der><sigType>` to the witness */
     size_t push(const Signature sig, SigHashType sigType = SIGHASH_ALL);
     /** \brief adds `<len><script>` to the witness */
-    size_t push(const Script sc);
+    size_t push(const Script & sc);
 
     Witness &operator=(Witness const &other); // assignment
     explicit operator bool() const{ return (numElements > 0); };
diff --git a/src/Script.cpp b/src/Script.cpp
index d716929..aec02a4 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -38,14 +38,13 @@ Script multi(uint8_t threshold, const PublicKey * pubkeys, uint8_t pubkeys_len){
         return sc;
     }
     // OP_M
-    sc.push(OP_1+threshold-1);
+    if(sc.push(OP_1+threshold-1) == 0){ return Script(); }
     // pubkeys
     for(int i=0; i<pubkeys_len; i++){
-        sc.push(pubkeys[i]);
+        if(sc.push(pubkeys[i]) == 0){ return Script(); }
     }
     // OP_N OP_CHECKMULTISIG
-    sc.push(OP_1+pubkeys_len-1);
-    sc.push(OP_CHECKMULTISIG);
+    if(sc.push(OP_1+pubkeys_len-1) == 0 || sc.push(OP_CHECKMULTISIG) == 0){ return Script(); }
     return sc;
 }
 
@@ -236,7 +235,18 @@ Script::Script(const PublicKey pubkey, ScriptType type){
         hash160(sec_arr, l, scriptArray+2);
     }
     if(type == P2SH_P2WPKH){
-        *this = sh(wpkh(pubkey));
+        // 00 14 hash160(pubkey) is the redeem script
+        uint8_t redeem[22] = { 0x00, 0x14 };
+        uint8_t sec_arr[65] = { 0 };
+        int l = pubkey.sec(sec_arr, sizeof(sec_arr));
+        hash160(sec_arr, l, redeem+2);
+        scriptLen = 23;
+        scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
+        if(scriptArray == NULL){ scriptLen = 0; return; }
+        hash160(redeem, sizeof(redeem), scriptArray+2);
+        scriptArray[0] = OP_HASH160;
+        scriptArray[1] = 20;
+        scriptArray[scriptLen-1] = OP_EQUAL;
     }
 }
 Script::Script(const Script &other, ScriptType type){
@@ -480,17 +490,13 @@ size_t Script::push(const Script sc){
         return 0;
     }
     if(len < OP_PUSHDATA1){
-        push((uint8_t)len);
+        if(push((uint8_t)len) == 0){ return 0; }
     }else if(len <= 0xFF){
-        push(OP_PUSHDATA1);
-        push((uint8_t)len);
+        if(push(OP_PUSHDATA1) == 0 || push((uint8_t)len) == 0){ return 0; }
     }else{
-        push(OP_PUSHDATA2);
-        push((uint8_t)(len & 0xFF));
-        push((uint8_t)((len >> 8) & 0xFF));
+        if(push(OP_PUSHDATA2) == 0 || push((uint8_t)(len & 0xFF)) == 0 || push((uint8_t)((len >> 8) & 0xFF)) == 0){ return 0; }
     }
-    push(sc.scriptArray, len);
-    return scriptLen;
+    return push(sc.scriptArray, len);
 }
 Script Script::scriptPubkey(ScriptType type) const{
     Script sc(*this, type);
@@ -697,7 +703,7 @@ size_t Witness::push(const Signature sig, SigHashType sigType){
     push(der, len+1);
     return witnessLen;
 }
-size_t Witness::push(const Script sc){
+size_t Witness::push(const Script & sc){
     size_t len = sc.length();
     uint8_t * tmp;
     tmp = (uint8_t *)calloc(len, sizeof(uint8_t));
-- 
2.43.0


From 0a99edeafe4ba84add1fecd3961d1147c4ea87a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:15 +0000
Subject: [PATCH 53/72] fix: encoders to strings read uninitialized memory when
 memory ran out

---
 src/Conversion.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 31a814b..6fe993d 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -324,7 +324,7 @@ size_t toBase58(const uint8_t * array, size_t arraySize, char * output, size_t o
 String toBase58(const uint8_t * array, size_t arraySize){
     if(array == NULL){ return String(); }
     size_t len = toBase58Length(array, arraySize) + 1; // +1 for null terminator
-    char * buf = (char *)malloc(len);
+    char * buf = (char *)calloc(len, sizeof(char));
     if(buf == NULL){ return String(); }
     toBase58(array, arraySize, buf, len);
     String result(buf);
@@ -352,7 +352,7 @@ size_t toBase58Check(const uint8_t * array, size_t arraySize, char * output, siz
 String toBase58Check(const uint8_t * array, size_t arraySize){
     if(array == NULL){ return String(); }
     size_t len = toBase58Length(array, arraySize) + 6 + 1; // +6 for 4 bytes of checksum +1 for null terminator
-    char * buf = (char *)malloc(len);
+    char * buf = (char *)calloc(len, sizeof(char));
     if(buf == NULL){ return String(); }
     toBase58Check(array, arraySize, buf, len);
     String result(buf);
@@ -698,7 +698,7 @@ size_t toBase64(const uint8_t * array, size_t arraySize, char * output, size_t o
 String toBase64(const uint8_t * array, size_t arraySize, uint8_t flags){
     if(array == NULL){ return String(); }
     size_t len = toBase64Length(array, arraySize, flags) + 1; // +1 for null terminator
-    char * buf = (char *)malloc(len);
+    char * buf = (char *)calloc(len, sizeof(char));
     if(buf==NULL){ return String(); }
     toBase64(array, arraySize, buf, len, flags);
     String result(buf);
-- 
2.43.0


From 0ebe061176f1bb7f2762888185b97e148b26be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:56 +0000
Subject: [PATCH 54/72] fix: input built from a short id text and a script has
 a zero hash

---
 src/Transaction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index e588f28..cf55ed9 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -59,6 +59,7 @@ TxIn::TxIn(const char * prev_id, uint32_t prev_index, uint32_t sequence_number){
 }
 TxIn::TxIn(const char * prev_id, uint32_t prev_index, const Script script, uint32_t sequence_number){
     init();
+    memset(hash, 0, 32);
     outputIndex = prev_index;
     sequence = sequence_number;
     if(strlen(prev_id) < 64){
-- 
2.43.0


From 6d5f46fc332cb208400b0f7b5fcf161984c3968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:57 +0000
Subject: [PATCH 55/72] fix: printTo reports the number of characters it
 printed

---
 src/BaseClasses.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index 265b6d9..683d2ea 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -138,9 +138,9 @@ size_t Readable::printTo(Print& p) const{
     char * arr = (char *)calloc(len, sizeof(char));
     if(arr == NULL){ return 0; }
     toString(arr, len);
-    p.print(arr);
+    size_t printed = p.print(arr);
     free(arr);
-    return len-1;
+    return printed;
 }
 #endif
 #if USE_ARDUINO_STRING || USE_STD_STRING
-- 
2.43.0


From a01c61559bac2602315993912828492b6064be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:24 +0000
Subject: [PATCH 56/72] fix: working copies of secrets are erased before their
 memory is freed

---
 src/BaseClasses.cpp | 4 ++++
 src/Conversion.cpp  | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index 683d2ea..0162cb1 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -1,5 +1,6 @@
 #include "uBitcoin_conf.h"
 #include "BaseClasses.h"
+#include "utility/trezor/memzero.h"
 #include <cstdlib>
 
 #if USE_STD_STRING
@@ -139,6 +140,7 @@ size_t Readable::printTo(Print& p) const{
     if(arr == NULL){ return 0; }
     toString(arr, len);
     size_t printed = p.print(arr);
+    memzero(arr, len); // may be a secret
     free(arr);
     return printed;
 }
@@ -150,6 +152,7 @@ String Readable::toString() const{
     if(arr == NULL){ return String(); }
     toString(arr, len);
     String s = arr;
+    memzero(arr, len); // may be a secret
     free(arr);
     return s;
 };
@@ -166,6 +169,7 @@ String Streamable::serialize(size_t offset, size_t len) const{
     if(arr == NULL){ return String(); }
     serialize(arr, 2*len, offset, HEX_ENCODING);
     String s = arr;
+    memzero(arr, 2*len+1); // may be a secret
     free(arr);
     return s;
 };
diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 6fe993d..1991b8f 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -328,6 +328,7 @@ String toBase58(const uint8_t * array, size_t arraySize){
     if(buf == NULL){ return String(); }
     toBase58(array, arraySize, buf, len);
     String result(buf);
+    memzero(buf, len); // secret should not stay in RAM
     free(buf);
     return result;
 }
@@ -356,6 +357,7 @@ String toBase58Check(const uint8_t * array, size_t arraySize){
     if(buf == NULL){ return String(); }
     toBase58Check(array, arraySize, buf, len);
     String result(buf);
+    memzero(buf, len); // secret should not stay in RAM
     free(buf);
     return result;
 }
@@ -407,6 +409,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
                 tmp[size-j-1] = cur%256;
             }
         }else{
+            memzero(tmp, size); // secret should not stay in RAM
             free(tmp);
             return 0;
         }
@@ -418,11 +421,13 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     }
     size_t len = zeroCount + size - shift;
     if(len > outputSize){
+        memzero(tmp, size); // secret should not stay in RAM
         free(tmp);
         return 0;
     }
     // output is already zeroed
     memcpy(output+zeroCount, tmp+shift, size-shift);
+    memzero(tmp, size); // secret should not stay in RAM
     free(tmp);
     return len;
 }
@@ -433,6 +438,7 @@ size_t fromBase58Check(const char * encoded, size_t encodedSize, uint8_t * outpu
     if(arr == NULL){ return 0; }
     size_t l = fromBase58(encoded, encodedSize, arr, outputSize+4);
     if(l<4){
+        memzero(arr, outputSize+4);
         free(arr);
         return 0;
     }
@@ -440,6 +446,7 @@ size_t fromBase58Check(const char * encoded, size_t encodedSize, uint8_t * outpu
     uint8_t hash[32];
     doubleSha(arr, l-4, hash);
     if(memcmp(arr+l-4, hash, 4)!=0){
+        memzero(arr, outputSize+4);
         free(arr);
         return 0;
     }
-- 
2.43.0


From 10c4ca90818b715b6fbc0d9547a7ab268f6a70b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:47 +0000
Subject: [PATCH 57/72] fix: base58 decoder refuses zeros that do not fit the
 buffer

---
 src/utility/trezor/base58.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/trezor/base58.c b/src/utility/trezor/base58.c
index b5cf5f4..c0a3e42 100755
--- a/src/utility/trezor/base58.c
+++ b/src/utility/trezor/base58.c
@@ -124,14 +124,14 @@ bool b58tobin(void *bin, size_t *binszp, const char *b58)
 	for (i = 0; i < binsz; ++i)
 	{
 		if (binu[i]) {
-			if (zerocount > i) {
-				/* result too large */
-				return false;
-			}
 			break;
 		}
 		--*binszp;
 	}
+	if (zerocount > i) {
+		/* result too large */
+		return false;
+	}
 	*binszp += zerocount;
 
 	return true;
-- 
2.43.0


From 921443046b8563f90761c737f7840c33663a661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:47 +0000
Subject: [PATCH 58/72] fix: mnemonic_to_seed keeps long passphrases inside the
 salt buffer

---
 src/utility/trezor/bip39.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/trezor/bip39.c b/src/utility/trezor/bip39.c
index d43e421..65f876b 100755
--- a/src/utility/trezor/bip39.c
+++ b/src/utility/trezor/bip39.c
@@ -184,6 +184,9 @@ void mnemonic_to_seed(const char *mnemonic, const char *passphrase, uint8_t seed
 {
 	int mnemoniclen = strlen(mnemonic);
 	int passphraselen = strlen(passphrase);
+	if (passphraselen > 256) {
+		passphraselen = 256;
+	}
 #if USE_BIP39_CACHE
 	// check cache
 	if (mnemoniclen < 256 && passphraselen < 64) {
-- 
2.43.0


From e1586b7fa51ed52bd355dd56ad37e24d8628a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:48 +0000
Subject: [PATCH 59/72] fix: public key recovery fails for the point at
 infinity

---
 src/utility/trezor/ecdsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/trezor/ecdsa.c b/src/utility/trezor/ecdsa.c
index f853571..a61b1f2 100755
--- a/src/utility/trezor/ecdsa.c
+++ b/src/utility/trezor/ecdsa.c
@@ -1065,6 +1065,10 @@ int ecdsa_recover_pub_from_sig (const ecdsa_curve *curve, uint8_t *pub_key, cons
 	scalar_multiply(curve, &e, &cp2);
 	// cp := (s * k - digest) * G = (r*priv) * G = r * Pub
 	point_add(curve, &cp2, &cp);
+	// the point at infinity is not a public key
+	if (point_is_infinity(&cp)) {
+		return 1;
+	}
 	// cp := r^{-1} * r * Pub = Pub
 	point_multiply(curve, &r, &cp, &cp);
 	pub_key[0] = 0x04;
-- 
2.43.0


From 717db1d0f84a17c3ea079ea581916149f85405ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:49 +0000
Subject: [PATCH 60/72] fix: PSBT::sign skips inputs whose spent output is
 unknown

---
 src/PSBT.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index faf03cf..c2f96ab 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -541,7 +541,8 @@ uint8_t PSBT::sign(const HDPrivateKey root){
     uint8_t first_derivation_len = 0;
     HDPrivateKey account;
     for(size_t i=0; i<tx.inputsNumber; i++){
-        if(txInsMeta[i].derivationsLen > 0){
+        // can't sign if the output we are spending is unknown
+        if(txInsMeta[i].derivationsLen > 0 && txInsMeta[i].txOut.scriptPubkey.length() > 1){
             for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
                 if(memcmp(fingerprint, txInsMeta[i].derivations[j].fingerprint, 4) == 0){
                     // caching account key here
-- 
2.43.0


From 646824c228471b7b8cb52fc3c1ceaecfc8ef4001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:59 +0000
Subject: [PATCH 61/72] fix: bn_inverse of zero stays inside its buffer

---
 src/utility/trezor/bignum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/trezor/bignum.c b/src/utility/trezor/bignum.c
index 20c57d9..32dbef5 100755
--- a/src/utility/trezor/bignum.c
+++ b/src/utility/trezor/bignum.c
@@ -677,7 +677,7 @@ void bn_inverse(bignum256 *x, const bignum256 *prime)
 			// if input was 0, return.
 			// This simple check prevents crashing with stack underflow
 			// or worse undesired behaviour for illegal input.
-			if (even->len1 < 0)
+			if (even->len1 <= 0)
 				return;
 		}
 
-- 
2.43.0


From 89d03a6f612eed86155720acb6c5ea5e36a06e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:59 +0000
Subject: [PATCH 62/72] fix: bn_format prints at least one digit before a
 suffix

---
 src/utility/trezor/bignum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/trezor/bignum.c b/src/utility/trezor/bignum.c
index 32dbef5..4643832 100755
--- a/src/utility/trezor/bignum.c
+++ b/src/utility/trezor/bignum.c
@@ -1064,7 +1064,7 @@ size_t bn_format(const bignum256 *amnt, const char *prefix, const char *suffix,
 		}
 	}
 
-	while (decimals > 0 || str[0] == '\0' || str[0] == '.') {
+	while (decimals > 0 || str == end || str[0] == '.') {
 		BN_FORMAT_PUSH(0);
 	}
 
-- 
2.43.0


From 20659163b5da673a1d8b99b487de810b600b39c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:43 +0000
Subject: [PATCH 63/72] fix: isMine looks for a pushed public key, not for its
 bytes anywhere in the script

---
 src/PSBT.cpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index c2f96ab..2f92988 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -1,5 +1,6 @@
 #include "PSBT.h"
 #include "Conversion.h"
+#include "OpCodes.h"
 #if USE_STD_STRING
 using std::string;
 #define String string
@@ -648,13 +649,33 @@ uint64_t PSBT::fee() const{
 
 // checks if the script pushes this public key (a key of multisig for example)
 static bool scriptHasPubkey(const Script &script, const PublicKey &pubkey){
-    uint8_t arr[66];
-    size_t len = 1+pubkey.sec(arr+1, 65);
-    arr[0] = len-1;
-    for(size_t i=0; i+len <= script.scriptLen; i++){
-        if(memcmp(script.scriptArray+i, arr, len) == 0){
+    uint8_t arr[65];
+    size_t len = pubkey.sec(arr, 65);
+    if(script.scriptLen > 0 && script.scriptArray[0] == OP_RETURN){ // can't be spent
+        return false;
+    }
+    size_t i = 0;
+    while(i < script.scriptLen){
+        uint8_t code = script.scriptArray[i];
+        i++;
+        size_t l = 0; // length of the pushed data
+        if(code < OP_PUSHDATA1){
+            l = code;
+        }else if(code <= OP_PUSHDATA4){
+            size_t n = (size_t)1 << (code-OP_PUSHDATA1);
+            if(n > script.scriptLen-i){
+                return false;
+            }
+            l = littleEndianToInt(script.scriptArray+i, n);
+            i += n;
+        }
+        if(l > script.scriptLen-i){ // can't be spent
+            return false;
+        }
+        if(l == len && memcmp(script.scriptArray+i, arr, len) == 0){
             return true;
         }
+        i += l;
     }
     return false;
 }
-- 
2.43.0


From c64e5b336d08ba57b5dae5e20f74b96d9d876aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:44 +0000
Subject: [PATCH 64/72] fix: PSBT derivation records may have the longest
 possible path of 255 indexes

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 2f92988..b334cea 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -184,7 +184,7 @@ size_t PSBT::from_stream(ParseStream *s){
 
 // parses bip32 derivation and appends it to the array
 static int addDerivation(PSBTDerivation ** derivations, uint8_t * derivationsLen, const Script * k, const Script * v){
-    if(k->scriptLen < 2 || v->scriptLen < 4 || v->scriptLen % 4 != 0 || v->scriptLen/4 > 255 || *derivationsLen == 255){
+    if(k->scriptLen < 2 || v->scriptLen < 4 || v->scriptLen % 4 != 0 || v->scriptLen/4 > 256 || *derivationsLen == 255){
         return -1;
     }
     PSBTDerivation der;
-- 
2.43.0


From 84dd736fbdd4caf7d40d05f754aa42cd07f14196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:59 +0000
Subject: [PATCH 65/72] fix: public child derivation and fingerprint use the
 compressed key whatever its compression flag

---
 src/HDWallet.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 9cfc6b1..478bb75 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -798,7 +798,9 @@ String HDPublicKey::address() const{
 
 void HDPublicKey::fingerprint(uint8_t arr[4]) const{
     uint8_t secArr[65] = { 0 };
-    int l = sec(secArr, sizeof(secArr));
+    ECPoint p = *this;
+    p.compressed = true; // always compressed in bip32
+    int l = p.sec(secArr, sizeof(secArr));
     uint8_t hash[20] = { 0 };
     hash160(secArr, l, hash);
     memcpy(arr, hash, 4);
@@ -818,7 +820,9 @@ HDPublicKey HDPublicKey::child(uint32_t index) const{
     }
 
     uint8_t secArr[65] = { 0 };
-    int l = sec(secArr, sizeof(secArr));
+    ECPoint parent = *this;
+    parent.compressed = true; // always compressed in bip32
+    int l = parent.sec(secArr, sizeof(secArr));
     uint8_t hash[20] = { 0 };
     hash160(secArr, l, hash);
     memcpy(child.parentFingerprint, hash, 4);
-- 
2.43.0


From f15125ea5aa293763f513ee36a04df2bb6ac3080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:00 +0000
Subject: [PATCH 66/72] fix: PrivateKey reset clears the public key together
 with the secret

---
 src/Bitcoin.cpp | 7 +++++--
 src/Bitcoin.h   | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 9dcfce6..be2fa10 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -520,6 +520,10 @@ PrivateKey::PrivateKey(void){
     memzero(num, 32); // empty key
     network = &DEFAULT_NETWORK;
 }
+void PrivateKey::reset(){
+    ECScalar::reset();
+    pubKey = PublicKey();
+}
 void PrivateKey::setSecret(const uint8_t secret_arr[32]){
     bignum256 n;
     bn_read_be(secret_arr, &n);
@@ -587,8 +591,7 @@ int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
     uint8_t arr[40] = { 0 };
     size_t l = fromBase58Check(wifArr, wifSize, arr, sizeof(arr));
     // if something is wrong the key is not valid
-    memzero(num, 32);
-    pubKey = PublicKey();
+    reset();
     network = &DEFAULT_NETWORK;
     if( (l < 33) || (l > 34) ){
         memzero(arr, 40);
diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 7aeb788..625c0ff 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -166,6 +166,7 @@ protected:
     virtual size_t from_str(const char * buf, size_t len){ return fromWIF(buf, len); };
     virtual size_t from_stream(ParseStream *s);
 public:
+    virtual void reset();
     PrivateKey();
     PrivateKey(const uint8_t secret_arr[32], bool use_compressed = true, const Network * net = &DEFAULT_NETWORK);
     PrivateKey(const ECScalar sc);
-- 
2.43.0


From eac52da8b531ad9b2af6b83ae0956aabf24e4c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:02 +0000
Subject: [PATCH 67/72] fix: a scalar or private key whose parsing failed or is
 not finished is not valid

---
 src/Bitcoin.cpp    | 1 +
 src/BitcoinCurve.h | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index be2fa10..828d052 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -527,6 +527,7 @@ void PrivateKey::reset(){
 void PrivateKey::setSecret(const uint8_t secret_arr[32]){
     bignum256 n;
     bn_read_be(secret_arr, &n);
+    ECScalar::reset(); // forget the result of the last parsing
     if(bn_is_less(&n, &secp256k1.order)){
         memcpy(num, secret_arr, 32);
     }else{
diff --git a/src/BitcoinCurve.h b/src/BitcoinCurve.h
index 1709010..8ef703e 100644
--- a/src/BitcoinCurve.h
+++ b/src/BitcoinCurve.h
@@ -117,7 +117,7 @@ public:
     ~ECScalar(){ memzero(num, 32); };
 
     /** \brief Populates array with the secret key */
-    virtual void setSecret(const uint8_t secret_arr[32]){ memcpy(num, secret_arr, 32); };
+    virtual void setSecret(const uint8_t secret_arr[32]){ reset(); memcpy(num, secret_arr, 32); };
     /** \brief Sets the secret key */
     void getSecret(uint8_t buffer[32]) const{ memcpy(buffer, num, 32); };
 
@@ -136,7 +136,7 @@ public:
     ECScalar operator*=(const ECScalar& other){ *this = *this*other; return *this; };
     ECScalar operator/=(const ECScalar& other){ *this = *this/other; return *this; };
     
-    virtual bool isValid() const{ uint8_t arr[32] = { 0 }; return (memcmp(num, arr, 32) != 0); };
+    virtual bool isValid() const{ uint8_t arr[32] = { 0 }; return (status == PARSING_DONE) && (memcmp(num, arr, 32) != 0); };
     explicit operator bool() const { return isValid(); };
     bool operator==(const ECScalar& other) const{ return (memcmp(num, other.num, 32) == 0); };
     bool operator!=(const ECScalar& other) const{ return !operator==(other); };
-- 
2.43.0


From b49f922130b5e53e668ca5a884b85fe539a47097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:03 +0000
Subject: [PATCH 68/72] fix: arithmetic in place on a private key updates its
 public key

---
 src/Bitcoin.cpp | 9 +++++++++
 src/Bitcoin.h   | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 828d052..c1456c8 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -524,6 +524,15 @@ void PrivateKey::reset(){
     ECScalar::reset();
     pubKey = PublicKey();
 }
+PrivateKey & PrivateKey::update(const ECScalar & scalar){
+    uint8_t secret[32];
+    scalar.getSecret(secret);
+    bool compressed = pubKey.compressed;
+    PrivateKey::setSecret(secret);
+    memzero(secret, 32);
+    pubKey.compressed = compressed;
+    return *this;
+}
 void PrivateKey::setSecret(const uint8_t secret_arr[32]){
     bignum256 n;
     bn_read_be(secret_arr, &n);
diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 625c0ff..7fbbb0d 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -165,6 +165,8 @@ protected:
     virtual size_t to_str(char * buf, size_t len) const{ return wif( buf, len); };
     virtual size_t from_str(const char * buf, size_t len){ return fromWIF(buf, len); };
     virtual size_t from_stream(ParseStream *s);
+    /** \brief replaces the secret and calculates the public key, compression flag doesn't change */
+    PrivateKey & update(const ECScalar & scalar);
 public:
     virtual void reset();
     PrivateKey();
@@ -184,6 +186,12 @@ public:
     /** \brief Sets the secret key. If it is not a valid secret (zero or not less than the curve order) the key becomes invalid. */
     void setSecret(const uint8_t secret_arr[32]);
 
+    // public key should be updated together with the secret
+    PrivateKey & operator+=(const ECScalar& other){ return update(*this+other); };
+    PrivateKey & operator-=(const ECScalar& other){ return update(*this-other); };
+    PrivateKey & operator*=(const ECScalar& other){ return update(*this*other); };
+    PrivateKey & operator/=(const ECScalar& other){ return update(*this/other); };
+
     /** \brief Pointer to the network to use. Mainnet or Testnet */
     const Network * network;
 
-- 
2.43.0


From 114156f8086550b113c8df98b2fec847e4f2a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:53 +0000
Subject: [PATCH 69/72] fix: Electrum segwit transactions with six or more
 inputs are read again

Tx::from_stream went on parsing the witnesses of the following inputs
after one of them had failed, so bytes that belong to what comes after
were consumed. It stops at the first failure now.
---
 src/Transaction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index cf55ed9..1f9bb33 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -455,6 +455,9 @@ size_t Tx::from_stream(ParseStream *s){
     if(segwit_flag > 0 && bytes_read+bytes_parsed == current_offset){
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins witnesses to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i].witness);
+            if(txIns[i].witness.getStatus() == PARSING_FAILED){ // the rest is not for the other inputs
+                break;
+            }
         }
     }
     if(segwit_flag > 0){
-- 
2.43.0


From 73c071e3ee268a857ef9cf3fdb8a43513313ce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:22 +0000
Subject: [PATCH 70/72] fix: parsing raw bytes held in a text object no longer
 stops at a zero byte

---
 src/BaseClasses.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BaseClasses.h b/src/BaseClasses.h
index 5587c53..6bf5465 100644
--- a/src/BaseClasses.h
+++ b/src/BaseClasses.h
@@ -143,12 +143,12 @@ public:
     }
 #if USE_ARDUINO_STRING
     size_t parse(String arr, encoding_format format=HEX_ENCODING){
-        return parse(arr.c_str(), strlen(arr.c_str()), format);
+        return parse(arr.c_str(), arr.length(), format);
     }
 #endif
 #if USE_STD_STRING
     size_t parse(std::string arr, encoding_format format=HEX_ENCODING){
-        return parse(arr.c_str(), strlen(arr.c_str()), format);
+        return parse(arr.c_str(), arr.length(), format);
     }
 #endif
 #if !(USE_ARDUINO_STRING  || USE_STD_STRING)
-- 
2.43.0


From 4e9cf8750418a677e23db0657457fc13bfc6115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:23 +0000
Subject: [PATCH 71/72] fix: generateMnemonic uses all of the entropy text,
 zero bytes included

---
 src/Bitcoin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index c1456c8..5ebaa05 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -84,7 +84,7 @@ bool checkMnemonic(const char * mnemonic){
 }
 #else
 const char * generateMnemonic(uint8_t numWords, const String entropy_string){
-    return generateMnemonic(numWords, (uint8_t*)entropy_string.c_str(), strlen(entropy_string.c_str()));
+    return generateMnemonic(numWords, (uint8_t*)entropy_string.c_str(), entropy_string.length());
 }
 const char * generateMnemonic(const String entropy_string){
     return generateMnemonic(24, entropy_string);
-- 
2.43.0


From 20bc82e738beec2aa802f1487e2b3ce25a83648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:25 +0000
Subject: [PATCH 72/72] fix: descriptorChecksum judges the whole text object,
 zero bytes included

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index b334cea..2e948e4 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -81,7 +81,7 @@ size_t descriptorChecksum(const char * span, size_t spanLen, char * output, size
 #if (USE_ARDUINO_STRING || USE_STD_STRING)
 String descriptorChecksum(String descriptor){
     char checksum[10] = { 0 };
-    descriptorChecksum(descriptor.c_str(), strlen(descriptor.c_str()), checksum, sizeof(checksum));
+    descriptorChecksum(descriptor.c_str(), descriptor.length(), checksum, sizeof(checksum));
     return String(checksum);
 }
 #endif
-- 
2.43.0

