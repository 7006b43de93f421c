From 3393c180cb8edea74ceac3a80bb5734a5a1edeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 01/20] fix: base64.Encoder.Write reports the number of bytes
 it consumed

Write counted only whole three-byte groups, so it returned short counts
without an error, and counts larger than len(p) when earlier bytes were
buffered. io.Copy over the encoder failed with ErrShortWrite.
---
 base64/coding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base64/coding.go b/base64/coding.go
index a309128..1d6f4a1 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -69,8 +69,8 @@ func (w *Encoder) Write(p []byte) (int, error) {
 				}
 				w.line = 0
 			}
-			written += 3
 		}
+		written++
 	}
 
 	return written, nil
-- 
2.43.0


From b3875e3503133aea82509c3a74b3662ddb92c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 02/20] fix: base64.Decoder follows the io.Reader contract

Read panicked when len(p) was not a multiple of three, never returned
io.EOF (so ioutil.ReadAll did not terminate), reused a stale byte when the
source returned (0, nil), and lost the byte of a (1, io.EOF) read.
---
 base64/coding.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/base64/coding.go b/base64/coding.go
index 1d6f4a1..cea5d14 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -78,7 +78,8 @@ func (w *Encoder) Write(p []byte) (int, error) {
 
 // Decoder is a base64 decoder that handles sources with newlines.
 type Decoder struct {
-	r io.Reader
+	r    io.Reader
+	rest []byte // decoded, but not yet returned by Read
 }
 
 // NewDecoder returns a new Decoder over a Reader.
@@ -93,7 +94,13 @@ func (r *Decoder) Close() error {
 }
 
 func (r *Decoder) Read(p []byte) (int, error) {
-	enclen := base64.StdEncoding.EncodedLen(len(p))
+	have := copy(p, r.rest)
+	r.rest = r.rest[have:]
+	if have == len(p) {
+		return have, nil
+	}
+
+	enclen := base64.StdEncoding.EncodedLen(len(p) - have)
 	buf := make([]byte, 0, enclen)
 	c := make([]byte, 1)
 	n := 0
@@ -103,12 +110,12 @@ func (r *Decoder) Read(p []byte) (int, error) {
 			break
 		}
 
-		_, err := r.r.Read(c)
+		_, err := io.ReadFull(r.r, c)
 		if err != nil {
 			if err == io.EOF {
 				break
 			}
-			return 0, err
+			return have, err
 		}
 
 		if c[0] == 0xa {
@@ -119,5 +126,14 @@ func (r *Decoder) Read(p []byte) (int, error) {
 		n++
 	}
 
-	return base64.StdEncoding.Decode(p, buf)
+	out := make([]byte, base64.StdEncoding.DecodedLen(len(buf)))
+	n, err := base64.StdEncoding.Decode(out, buf)
+	out = out[:n]
+	n = copy(p[have:], out)
+	r.rest = out[n:]
+	have += n
+	if err == nil && have == 0 {
+		err = io.EOF
+	}
+	return have, err
 }
-- 
2.43.0


From 26fed51d66df5661b52df965a7814f09bdd81a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 03/20] fix: seal the whole message or fail

seal took whatever a single Read returned as a whole chunk, so a short read
shifted the message and cut off its tail without an error, and data beyond
the reported size (a pipe, a growing file) was dropped silently.
---
 crypto/crypto.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index d476fc0..1a66c85 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -97,7 +97,12 @@ func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) e
 	chunk := make([]byte, chunkSize)
 	nonce := [24]byte{}
 	for i := 0; i < chunks; i++ {
-		n, err := message.Read(chunk)
+		n := messageLen - i*chunkSize
+		if n > chunkSize {
+			n = chunkSize
+		}
+
+		_, err = io.ReadFull(message, chunk[:n])
 		if err != nil {
 			return err
 		}
@@ -114,6 +119,15 @@ func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) e
 		}
 	}
 
+	// The header already names the number of chunks, so a message that
+	// is longer than expected can't be sealed completely.
+	_, err = io.ReadFull(message, chunk[:1])
+	if err == nil {
+		return errors.New("signify/crypto: message is longer than its reported size")
+	} else if err != io.EOF {
+		return err
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1e4d641593ca252db6d3d7c6cd71b072df7cfe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 04/20] fix: sealing an empty message produces a file that can
 be opened

Seal reported success but wrote no header, and Open rejected the result.
---
 crypto/crypto.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 1a66c85..cbf74d9 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -51,10 +51,6 @@ func incrementNonce(nonce *[24]byte) error {
 }
 
 func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) error {
-	if messageLen == 0 {
-		return nil
-	}
-
 	var shared [32]byte
 	edpub, err := pub.ToBox()
 	if err != nil {
-- 
2.43.0


From a6be4b847a78267382ad2489f218e74cb19f2ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 05/20] fix: Seal reports a failure to write the end of the
 encrypted file

The last base64 group and newline are written by the encoder's Close, whose
error was discarded by a defer.
---
 crypto/crypto.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index cbf74d9..6157c71 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -161,9 +161,12 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 	}
 
 	encoder := base64.NewEncoder(encrypted)
-	defer encoder.Close()
+	err = seal(pub, message, messageLen, encoder)
+	if err != nil {
+		return err
+	}
 
-	return seal(pub, message, messageLen, encoder)
+	return encoder.Close()
 }
 
 func open(priv *signify.Private, message io.Reader, w io.Writer) error {
-- 
2.43.0


From 9e60468a38d354e7a49dbf797f9e31d93f1b3a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 06/20] fix: opening tolerates short reads from the encrypted
 stream

open took whatever a single Read returned as the whole header or chunk.
---
 crypto/crypto.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 6157c71..713eb68 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -176,8 +176,8 @@ func open(priv *signify.Private, message io.Reader, w io.Writer) error {
 	}
 
 	header := [headerSize]byte{}
-	n, err := message.Read(header[:])
-	if err != nil {
+	n, err := io.ReadFull(message, header[:])
+	if err != nil && err != io.ErrUnexpectedEOF {
 		return err
 	} else if n != headerSize {
 		return fmt.Errorf("signify/crypto: couldn't read the full header (read %d)", n)
@@ -196,8 +196,8 @@ func open(priv *signify.Private, message io.Reader, w io.Writer) error {
 	chunk := make([]byte, sealedChunkSize)
 	nonce := [24]byte{}
 	for i := uint64(0); i < chunks; i++ {
-		n, err := message.Read(chunk)
-		if err != nil {
+		n, err := io.ReadFull(message, chunk)
+		if err != nil && err != io.ErrUnexpectedEOF {
 			return err
 		}
 
-- 
2.43.0


From 1db1e0d0fc4a28bbd680d395a4ddb7c27a2037f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 07/20] fix: reject signature files of the wrong length

Verify panicked on a signature shorter than its header, and ignored bytes
after the signature.
---
 signify/signature.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signify/signature.go b/signify/signature.go
index 9308cf7..8985f77 100644
--- a/signify/signature.go
+++ b/signify/signature.go
@@ -2,6 +2,7 @@ package signify
 
 import (
 	"bytes"
+	"fmt"
 	"io/ioutil"
 
 	"golang.org/x/crypto/ed25519"
@@ -25,6 +26,10 @@ func (sig *Signature) encode() []byte {
 }
 
 func readSignatureData(data []byte) (*Signature, error) {
+	if len(data) != (keyAlgoLength + keyNumLength + signatureLength) {
+		return nil, fmt.Errorf("signify: invalid signature length %d", len(data))
+	}
+
 	sig := &Signature{}
 	copy(sig.pkAlgo[:], data[:2])
 	copy(sig.keyNum[:], data[2:keyNumLength+2])
-- 
2.43.0


From a5ce5fbc7cc26f9ca01f0f63eef4edf47538c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 08/20] fix: reject private key files of the wrong length

A truncated key was padded with zeros, and trailing bytes were ignored.
---
 signify/key.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 7e49e25..4009a0f 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -27,6 +27,10 @@ const (
 	saltLength      = 16
 	checksumLength  = 8
 	kdfRounds       = 42
+
+	// key algorithm, KDF algorithm, KDF rounds, salt, checksum, key number, key
+	privateKeyLength = keyAlgoLength + kdfAlgoLength + 4 + saltLength +
+		checksumLength + keyNumLength + secretKeyLength
 )
 
 // PassphrasePrompt prompts the user for a passphrase. If confirm is true, the
@@ -134,6 +138,10 @@ func (priv *Private) sign(message []byte) (*Signature, error) {
 }
 
 func readPrivateKeyData(data []byte) (*Private, error) {
+	if len(data) != privateKeyLength {
+		return nil, fmt.Errorf("signify: invalid private key length %d", len(data))
+	}
+
 	buf := bytes.NewBuffer(data)
 	priv := &Private{}
 
-- 
2.43.0


From d50ed3839d5746f6769b18b5c529a8e83a50eb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 09/20] fix: refuse to use a damaged unencrypted private key

Sign never looked at the checksum of an unencrypted key and reported success
for a useless signature; ToBox prompted for a passphrase and then used the
damaged key anyway.
---
 signify/key.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 4009a0f..4767270 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -227,6 +227,11 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 		}
 	}
 
+	err = priv.Check()
+	if err != nil {
+		return err
+	}
+
 	message, err := ioutil.ReadFile(messagePath)
 	if err != nil {
 		return err
@@ -255,6 +260,10 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 func (priv *Private) ToBox() (*[32]byte, error) {
 	err := priv.Check()
 	if err != nil {
+		if !priv.IsEncrypted() {
+			return nil, err
+		}
+
 		var passphrase []byte
 		passphrase, err = PassphrasePrompt(false)
 		if err != nil {
-- 
2.43.0


From 31f743d717bf4c02b644708e54456efb3577e02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 10/20] fix: a wrong passphrase no longer destroys the loaded
 private key

decrypt left the key XORed with the wrong key stream, so that the right
passphrase was rejected afterwards.
---
 signify/key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 4767270..6a7cd08 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -119,6 +119,11 @@ func (priv *Private) decrypt(password []byte) error {
 
 	err = priv.Check()
 	if err != nil {
+		// Put the encrypted key back, so that decryption may be
+		// tried again with another passphrase.
+		for i := range priv.key[:] {
+			priv.key[i] ^= xorkey[i]
+		}
 		return err
 	}
 
-- 
2.43.0


From b2828956087df97d398f9b0ae13bf100a71bf9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 11/20] fix: refuse keys of an unsupported algorithm

Sign and Open used private keys, and Seal public keys, whatever algorithm they
were labelled with; Verify rejects the signatures such a key makes.
---
 signify/key.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 6a7cd08..ecdd97f 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -185,6 +185,10 @@ func readPrivateKeyData(data []byte) (*Private, error) {
 		return nil, err
 	}
 
+	if string(priv.keyAlgo[:]) != "Ed" {
+		return nil, errors.New("signify: unsupported private key algorithm " + string(priv.keyAlgo[:]))
+	}
+
 	return priv, nil
 }
 
@@ -341,6 +345,10 @@ func (pub *Public) ToBox() (*[32]byte, error) {
 	var oneMinusY = &edwards25519.FieldElement{}
 	var x = &edwards25519.FieldElement{}
 
+	if string(pub.keyAlgo[:]) != "Ed" {
+		return nil, errors.New("signify: not an Ed25519 public key")
+	}
+
 	edpub := [32]byte{}
 	copy(edpub[:], pub.key[:])
 
-- 
2.43.0


From ae03f3c8969da145843784a4c7c4808e98f0aaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 12/20] fix: secret key files are not readable by other users

GenerateKey created the .sec file, which may be unencrypted, with mode 0644.
---
 signify/common.go | 5 +++--
 signify/key.go    | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/signify/common.go b/signify/common.go
index eb8cbd2..5a2a02a 100644
--- a/signify/common.go
+++ b/signify/common.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/base64"
 	"io/ioutil"
+	"os"
 	"strings"
 )
 
@@ -48,7 +49,7 @@ func readDataFileBytes(data []byte) (*dataFile, error) {
 	return dat, nil
 }
 
-func writeDataFile(path, comment string, data []byte) error {
+func writeDataFile(path, comment string, data []byte, perm os.FileMode) error {
 	encoded := make([]byte, base64.StdEncoding.EncodedLen(len(data)))
 	base64.StdEncoding.Encode(encoded, data)
 	dataFile := &dataFile{
@@ -56,7 +57,7 @@ func writeDataFile(path, comment string, data []byte) error {
 		data:    encoded,
 	}
 
-	return ioutil.WriteFile(path, dataFile.Encode(), 0644)
+	return ioutil.WriteFile(path, dataFile.Encode(), perm)
 }
 
 func zero(buf *[]byte) {
diff --git a/signify/key.go b/signify/key.go
index ecdd97f..8c24534 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -257,7 +257,7 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 
 	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"
 	comment := "untrusted comment: verify with " + filepath.Base(pubKeyPath)
-	err = writeDataFile(signaturePath, comment, sig.encode())
+	err = writeDataFile(signaturePath, comment, sig.encode(), 0644)
 	if err != nil {
 		return err
 	}
@@ -503,12 +503,12 @@ func GenerateKey(keyPath string, passphrase []byte, opts *GenerateOptions) error
 		return err
 	}
 
-	err = writeDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
+	err = writeDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode(), 0600)
 	if err != nil {
 		return err
 	}
 
-	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
+	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode(), 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b5ef31918c612642afd0ac558fb5e344680d7d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 13/20] fix: generating a key never overwrites an existing key
 file

As in OpenBSD's signify, the key files are created with O_EXCL. A secret key
was replaced without notice; and when only one of the two files could be
written, a pair that doesn't match was left behind.
---
 signify/common.go | 26 ++++++++++++++++++++++++--
 signify/key.go    |  9 ++++++---
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/signify/common.go b/signify/common.go
index 5a2a02a..e74aafe 100644
--- a/signify/common.go
+++ b/signify/common.go
@@ -49,7 +49,7 @@ func readDataFileBytes(data []byte) (*dataFile, error) {
 	return dat, nil
 }
 
-func writeDataFile(path, comment string, data []byte, perm os.FileMode) error {
+func encodeDataFile(comment string, data []byte) []byte {
 	encoded := make([]byte, base64.StdEncoding.EncodedLen(len(data)))
 	base64.StdEncoding.Encode(encoded, data)
 	dataFile := &dataFile{
@@ -57,7 +57,29 @@ func writeDataFile(path, comment string, data []byte, perm os.FileMode) error {
 		data:    encoded,
 	}
 
-	return ioutil.WriteFile(path, dataFile.Encode(), perm)
+	return dataFile.Encode()
+}
+
+func writeDataFile(path, comment string, data []byte) error {
+	return ioutil.WriteFile(path, encodeDataFile(comment, data), 0644)
+}
+
+// createDataFile is writeDataFile for a file that must not exist yet.
+func createDataFile(path, comment string, data []byte, perm os.FileMode) error {
+	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+	if err != nil {
+		return err
+	}
+
+	_, err = file.Write(encodeDataFile(comment, data))
+	closeErr := file.Close()
+	if err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		os.Remove(path)
+	}
+	return err
 }
 
 func zero(buf *[]byte) {
diff --git a/signify/key.go b/signify/key.go
index 8c24534..1137482 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -257,7 +258,7 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 
 	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"
 	comment := "untrusted comment: verify with " + filepath.Base(pubKeyPath)
-	err = writeDataFile(signaturePath, comment, sig.encode(), 0644)
+	err = writeDataFile(signaturePath, comment, sig.encode())
 	if err != nil {
 		return err
 	}
@@ -497,19 +498,21 @@ func GenerateKeypair(passphrase []byte, opts *GenerateOptions) (*Private, *Publi
 // GenerateKey generates a new signify keypair under keypath.sec and
 // keypath.pub. If passphrase is provided, the private key is
 // encrypted. If opts is nil, a set of sane defaults is provided.
+// Existing key files are never overwritten.
 func GenerateKey(keyPath string, passphrase []byte, opts *GenerateOptions) error {
 	priv, pub, err := GenerateKeypair(passphrase, opts)
 	if err != nil {
 		return err
 	}
 
-	err = writeDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode(), 0600)
+	err = createDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode(), 0600)
 	if err != nil {
 		return err
 	}
 
-	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode(), 0644)
+	err = createDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode(), 0644)
 	if err != nil {
+		os.Remove(keyPath + ".sec")
 		return err
 	}
 
-- 
2.43.0


From 44bb3885e081ec2da212e6378e1ff8bb31b305cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 14/20] fix: ToBox erases the passphrase, as Sign does

---
 signify/key.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/signify/key.go b/signify/key.go
index 1137482..cb5a759 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -279,6 +279,7 @@ func (priv *Private) ToBox() (*[32]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		defer zero(&passphrase)
 
 		err = priv.decrypt(passphrase)
 		if err != nil {
-- 
2.43.0


From 221dca0599f7df2ff80d62df6c066061164e3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 15/20] fix: reject a number of KDF rounds that the key file
 can't hold

It was truncated to 32 bits: 1<<32+1 rounds became a single round, and a
negative number more than four billion.
---
 signify/key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index cb5a759..46b873a 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -459,6 +460,8 @@ func GenerateKeypair(passphrase []byte, opts *GenerateOptions) (*Private, *Publi
 
 	if len(passphrase) == 0 {
 		priv.kdfRounds = 0
+	} else if opts.Rounds < 1 || int64(opts.Rounds) > math.MaxUint32 {
+		return nil, nil, fmt.Errorf("signify: invalid number of KDF rounds %d", opts.Rounds)
 	} else {
 		priv.kdfRounds = uint32(opts.Rounds)
 	}
-- 
2.43.0


From 72e34be7242c9a017a1e8b4cfadc6b55447dab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 16/20] fix: a line break in the key's file name no longer
 corrupts the signature

---
 signify/key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/signify/key.go b/signify/key.go
index 46b873a..61f99c1 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -258,7 +258,10 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 	}
 
 	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"
-	comment := "untrusted comment: verify with " + filepath.Base(pubKeyPath)
+	// A line break would end the comment, and the rest of the file name
+	// be taken for the signature.
+	pubKeyName := strings.NewReplacer("\n", "?", "\r", "?").Replace(filepath.Base(pubKeyPath))
+	comment := "untrusted comment: verify with " + pubKeyName
 	err = writeDataFile(signaturePath, comment, sig.encode())
 	if err != nil {
 		return err
-- 
2.43.0


From 26c7080cb83ed2d0acfe787280a0a2a03aee5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 17/20] fix: a command line that can't be parsed exits with a
 nonzero status

flag.Usage exited with status 0, so 'psignify -V' with a mistyped flag looked
like a successful verification. The flag package itself exits with 0 for -h
and 2 for an error.
---
 cmd/psignify/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/psignify/main.go b/cmd/psignify/main.go
index 600a919..88fd9a9 100644
--- a/cmd/psignify/main.go
+++ b/cmd/psignify/main.go
@@ -25,7 +25,6 @@ Usage: %s -S -s seckey -m message [-x sigfile]
 func init() {
 	flag.Usage = func() {
 		usage(os.Stdout)
-		os.Exit(0)
 	}
 }
 
-- 
2.43.0


From ce6e00592d4d16a1f82388ba5499a95c1feb27f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 18/20] fix: the default key pair is generated where the other
 commands look for it

-G without -p used the default public key path as the base name, and wrote
name.pub.sec and name.pub.pub.
---
 cmd/psignify/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/psignify/main.go b/cmd/psignify/main.go
index 88fd9a9..7b770b3 100644
--- a/cmd/psignify/main.go
+++ b/cmd/psignify/main.go
@@ -76,7 +76,10 @@ func main() {
 	}
 
 	if pubKeyFile == "" && keyBase != "" {
-		pubKeyFile = keyBase + ".pub"
+		pubKeyFile = keyBase
+		if !generate {
+			pubKeyFile += ".pub"
+		}
 	}
 
 	if generate {
-- 
2.43.0


From cd1c58acdbf3ebf25460b6e3c61502cd50572d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 19/20] fix: refuse to encrypt to a public key of small order

Anyone can compute the key that such a message is encrypted with. libsodium's
conversion, which ToBox follows, rejects these keys as well.
---
 signify/key.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 61f99c1..fe3715a 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -15,6 +15,7 @@ import (
 
 	"github.com/dchest/bcrypt_pbkdf"
 	"github.com/kisom/psignify/signify/internal/edwards25519"
+	"golang.org/x/crypto/curve25519"
 	"golang.org/x/crypto/ed25519"
 
 	"golang.org/x/crypto/ssh/terminal"
@@ -370,6 +371,14 @@ func (pub *Public) ToBox() (*[32]byte, error) {
 	edwards25519.FeMul(x, x, oneMinusY)
 	edwards25519.FeToBytes(&edpub, x)
 
+	// Multiplying by the (clamped) scalar takes the points of small order,
+	// whose shared keys anyone can compute, to zero.
+	var scalar, product [32]byte
+	curve25519.ScalarMult(&product, &scalar, &edpub)
+	if product == [32]byte{} {
+		return nil, errors.New("signify: invalid public key")
+	}
+
 	return &edpub, nil
 }
 
-- 
2.43.0


From 681d4209be8ec8db16ccbaf71e439fff177d3352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 20/20] fix: report failure to close the output of sealing and
 opening

---
 crypto/crypto.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 713eb68..a8d23e1 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -166,7 +166,13 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 		return err
 	}
 
-	return encoder.Close()
+	err = encoder.Close()
+	if err != nil {
+		return err
+	}
+
+	// Writing may fail as late as this.
+	return encrypted.Close()
 }
 
 func open(priv *signify.Private, message io.Reader, w io.Writer) error {
@@ -245,5 +251,11 @@ func Open(privatePath, encryptedPath, messagePath string) error {
 	}
 	defer message.Close()
 
-	return open(priv, decoder, message)
+	err = open(priv, decoder, message)
+	if err != nil {
+		return err
+	}
+
+	// Writing may fail as late as this.
+	return message.Close()
 }
-- 
2.43.0

