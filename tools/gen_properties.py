#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                  "observe_at": list(observe), "hook_needed": hook}})
KEY, SIG, COM, CRY, B64, CLI = "signify/key.go", "signify/signature.go", "signify/common.go", "crypto/crypto.go", "base64/coding.go", "cmd/psignify/main.go"
ED = "signify/internal/edwards25519/edwards25519.go"

p("C01", "A signature that signing reports as made always verifies",
  "Whenever signing reports success, the signature file it leaves is a well-formed signify signature by the given key over exactly the bytes of the message file, and verifying the message with the matching public key succeeds. Signing succeeds for every readable message of any size or content with any undamaged secret key whose passphrase, if it has one, is supplied, whatever the file names are. If no signature path is given, the signature is written next to the message as <message>.sig.",
  ["inputs","configurations"], "all message contents and sizes, keys with and without passphrase, passphrases, KDF rounds, file names, existing contents of the signature path",
  "TestSign signs one 1 kB text file with one key under one file name; sizes, binary contents, file names and pre-existing signature files are not varied.",
  [KEY, SIG, COM], [("Sign, Private.sign", KEY), ("Signature.encode", SIG), ("writeDataFile", COM)], observe=["signify.Sign","signify.Verify"])
p("C02", "Verification accepts exactly the authentic signatures",
  "Verification succeeds if and only if the signature file holds a complete Ed25519 signature record of the right length, its key number equals that of the public key, both are labelled with the Ed25519 algorithm, and the signature is valid under that public key for exactly the bytes of the message file. Any change to the message, to the signed record, to the key number, to an algorithm label or to the public key makes it fail.",
  ["inputs"], "all public key, message and signature files, in particular all single-bit and length changes of valid ones and all mixtures of parts of valid ones",
  "The tests only verify signatures that are valid; no test expects a rejection.",
  [KEY, SIG, COM], [("Public.verify, verifyEd25519", KEY), ("readSignatureData", SIG), ("readPublicKeyData", KEY)], observe=["signify.Verify"])
p("C03", "Malformed files are rejected with an error, never a crash or a hang",
  "Whatever bytes a public key, secret key, signature or encrypted file contains (or if it is missing, empty or a directory), every operation on it returns (in the case of a secret key, after the time that the number of KDF rounds it names takes), and returns an error unless the file is well formed: no input makes the library panic or loop. A key or signature file whose payload is not valid base64 or whose decoded payload does not have exactly the length of its kind is always refused.",
  ["inputs"], "all file contents for each kind of file and each operation that reads it",
  "All test inputs are well formed.",
  [KEY, SIG, COM, CRY, B64], [("readDataFileBytes", COM), ("readPublicKeyData, readPrivateKeyData", KEY), ("readSignatureData", SIG), ("skipComment, open", CRY)], observe=["LoadPrivateKey","LoadPublicKey","Sign","Verify","Seal","Open"])
p("C04", "A damaged or unsupported secret key is never used",
  "A secret key file whose key bytes or checksum have been altered, whose key algorithm is not Ed25519, or which is passphrase-protected with an unknown KDF or an altered salt, is never used: signing, decrypting and deriving the encryption key fail with an error. Such a failed signing or decrypting operation leaves no signature and no plaintext. An undamaged key passes its integrity check once it is unlocked.",
  ["inputs"], "every alteration of the algorithm, KDF, salt, checksum and key fields of a secret key file, protected or not, and every operation using it",
  "No test uses a damaged key.",
  [KEY], [("Private.Check", KEY), ("Private.decrypt", KEY), ("Sign, ToBox", KEY), ("readPrivateKeyData", KEY)], observe=["signify.Sign","crypto.Open","Private.ToBox","Private.Check"])
p("C05", "A passphrase-protected key is usable only with its passphrase",
  "If a key pair is generated with a non-empty passphrase, the key reports that it is protected (also once it has been unlocked), its stored secret is the key material masked with the bcrypt-PBKDF output for exactly that passphrase, salt and the requested number of rounds, and signing, decrypting or deriving the encryption key succeeds with that passphrase and fails with every other one (including empty, shortened, extended or re-cased ones). Without a passphrase the key reports that it is unprotected and no passphrase is ever needed. A rounds value that cannot be honoured is refused.",
  ["inputs","configurations"], "all passphrases (length, bytes), wrong passphrases close to them, KDF rounds, operations",
  "The only protected key in the tests is opened with the right passphrase; no wrong passphrase is ever tried and GenerateKeypair is only called without one.",
  [KEY], [("GenerateKeypair", KEY), ("Private.decrypt", KEY), ("IsEncrypted, Check", KEY)], observe=["GenerateKeypair","GenerateKey","Sign","Open","Private.ToBox"])
p("C06", "Unlocking a key depends only on the passphrase, not on earlier attempts",
  "For a loaded or generated secret key, every attempt to derive its encryption key with the right passphrase succeeds and returns the same key, after any number and order of failed attempts, integrity checks and successful attempts. A failed attempt (wrong or empty passphrase, failing prompt) returns an error and no key, and leaves the key as it was. Once unlocked, the key passes its integrity check and is not asked for again.",
  ["histories"], "all sequences of unlock attempts (right, wrong, empty, failing prompt), checks and queries on one key object",
  "Each test performs at most one unlock per key object, always with the right passphrase.",
  [KEY], [("Private.decrypt", KEY), ("Private.ToBox", KEY)], state=[("Private.key","masked or plain key bytes",KEY),("Private.kdfRounds","> 0 if protected",KEY)], observe=["Private.ToBox","Private.Check","Private.IsEncrypted"])
p("C07", "Generated key pairs match, are well formed and fresh",
  "Each successful key generation yields a secret and a public key with the same key number, whose public key is the one belonging to the secret key (signatures made with one verify with the other, messages sealed to one open with the other), also after both are written to files and loaded again. Key number, salt and key material are freshly random in all their bytes on every generation.",
  ["inputs","histories"], "all generations, with or without passphrase, and all pairs of generations",
  "The tests generate a few pairs without passphrase and never write them to files or compare them.",
  [KEY, COM], [("GenerateKeypair", KEY), ("GenerateKey", KEY), ("Private.encode, Public.encode", KEY)], observe=["GenerateKeypair","GenerateKey","LoadPrivateKey","LoadPublicKey"])
p("C08", "Key generation never exposes or destroys a secret key",
  "The secret key file that key generation creates is at no point accessible to users other than its owner, whatever the umask. Generation never changes an existing file: if either key file already exists it fails. If generation fails, at whatever write it fails, neither of the two key files has come into existence, and at no point (even if the process is killed) does a public key file exist without its complete secret key file.",
  ["configurations","fault_sequences","crash_points"], "umasks, existing files at the key paths, every write at which the disk fills up, every system call at which the process is killed",
  "GenerateKey is not called by any test.",
  [KEY, COM], [("GenerateKey", KEY), ("createDataFile", COM)], observe=["signify.GenerateKey","psignify -G"])
p("C09", "A sealed message opens to exactly the original",
  "For every message file of any length (including the empty one and lengths at and around multiples of the chunk size) and any content, sealing it to a public key succeeds, and opening the result with the matching secret key succeeds and writes exactly the original bytes. If no output path is given for sealing, the encrypted file is written to <message>.enc.",
  ["inputs"], "all message lengths and contents, all key pairs, with and without passphrase",
  "The tests round-trip one message of one length (about 400 kB, 26 chunks); no boundary length, no empty message, no message of more than 256 chunks.",
  [CRY, B64, KEY], [("Seal, seal", CRY), ("Open, open", CRY), ("incrementNonce", CRY), ("Encoder, Decoder", B64)], observe=["crypto.Seal","crypto.Open"])
p("C10", "A manipulated encrypted file never opens to anything but the sealed message",
  "If opening an encrypted file reports success, the file's header and all its chunks were produced by one sealing operation to that key, and the output is exactly the complete message of that operation: whatever is flipped, truncated, reordered, duplicated, dropped, inserted or spliced in from other encrypted files, opening either fails or yields exactly that message. In particular a file that lacks any chunk, or any part of a chunk or of the header, fails.",
  ["inputs"], "all manipulations of encrypted files: bit flips at every position, truncations at every length, all rearrangements and splices of chunks and headers of several encrypted files",
  "No test opens a manipulated file.",
  [CRY, B64], [("open", CRY), ("header authentication", CRY), ("chunk nonces", CRY)], observe=["crypto.Open"])
p("C11", "Opening releases only authenticated plaintext, in order",
  "Whatever opening has written to the output when it ends, successfully or not, is a prefix of the message that the sealing operation which produced the file's authenticated header was given. If the header is not authentic for the key, nothing is written.",
  ["inputs","fault_sequences"], "all manipulations of encrypted files, at every chunk, and write failures at every chunk",
  "No test opens a manipulated file or looks at the output of a failed opening.",
  [CRY], [("open", CRY)], observe=["crypto.Open","crypto.open"])
p("C12", "Only the recipient's secret key opens a sealed message",
  "An encrypted file opens only with the secret key that matches the public key it was sealed to; with any other key opening fails and writes nothing. Sealing to a public key that is not a valid Ed25519 key, is labelled with another algorithm, or is a point of small order (for which everybody can compute the message key) is refused.",
  ["inputs","configurations"], "all pairs of keys, including pairs sharing a key number or file name, and all invalid public keys",
  "TestEncryption2 checks nacl/box itself with a wrong key; Open with a wrong key and invalid public keys are not tested.",
  [CRY, KEY], [("seal, open", CRY), ("Public.ToBox, Private.ToBox", KEY)], observe=["crypto.Seal","crypto.Open","Public.ToBox"])
p("C13", "No two chunks are ever encrypted under the same key and nonce",
  "Every sealing operation uses a fresh ephemeral key, and within one sealing operation every chunk is encrypted under its own nonce, for any number of chunks; sealing the same message twice to the same key therefore never repeats an ephemeral key or an encrypted chunk.",
  ["inputs","histories"], "all sealing histories and all chunk counts, including more than 256 and more than 65536 chunks",
  "A round trip with repeated nonces still succeeds, so no test can see it; the largest test message has 26 chunks.",
  [CRY], [("box.GenerateKey in seal", CRY), ("incrementNonce", CRY)], observe=["crypto.Seal","crypto.seal"])
p("C14", "The encrypted file format is the documented one, in both directions",
  "An encrypted file is one comment line followed by base64 text in lines of at most 72 characters encoding a 72-byte header (8-byte big-endian chunk count, 32-byte ephemeral public key, 32-byte authenticator of the first 40 bytes) and the message in 16385-byte chunks (the last may be shorter), each sealed with nacl/box for the converted recipient key under a 24-byte big-endian counter nonce starting at zero. Sealing produces exactly this format, and opening accepts every file that any conforming implementation produced, including files sealed by earlier versions.",
  ["inputs"], "all messages, chunk counts and key pairs; files produced by an independent implementation of the format and by the pinned version",
  "Tests only open what the same build sealed, so a change made on both sides passes.",
  [CRY, B64], [("seal, open", CRY), ("Encoder, Decoder", B64)], observe=["crypto.Seal","crypto.Open"])
p("C15", "The base64 encoder's output depends only on the bytes written",
  "However a byte sequence is divided into writes, the encoder's output after closing is the standard padded base64 encoding of the whole sequence, broken into lines of exactly 72 characters (the last may be shorter) and ending in a line break. Each write that succeeds reports exactly the number of bytes it was given, and at every moment the output is a prefix of that encoding; if the destination fails, the write or close during which it failed reports an error and no write reports more bytes than it was given.",
  ["inputs","histories","fault_sequences"], "all byte sequences, all divisions into writes (including empty ones), destination failures at every point",
  "TestEncodeDecode writes one 72-byte sequence in a single write and does not close the encoder.",
  [B64], [("Encoder.Write, Encoder.Close", B64)], state=[("Encoder.index","bytes waiting for a complete group",B64),("Encoder.line","bytes on the current line",B64)], observe=["base64.NewEncoder"])
p("C16", "The base64 decoder delivers exactly the encoded bytes, for any read sizes",
  "For text that is the base64 encoding of a byte sequence with line breaks anywhere, any sequence of reads of any sizes delivers exactly those bytes in order and then the end of the stream, however the underlying source divides its data, returns no data for a while, or signals its end together with data. A read never returns more than it was asked for. Text with characters outside the alphabet or an incomplete final group, or a failing source, yields an error after a prefix of the bytes, never a clean end.",
  ["inputs","histories","fault_sequences"], "all texts, line break positions, read size sequences, source behaviours and source failures",
  "TestEncodeDecode performs a single read of 72 bytes, a multiple of three, from a buffer.",
  [B64], [("Decoder.Read", B64)], state=[("Decoder.rest","decoded bytes not yet returned",B64)], observe=["base64.NewDecoder"])
p("C17", "Success is reported only when the output is complete",
  "If writing any part of the output fails (for instance because the disk is full), at whatever byte, then signing, sealing, opening and key generation report an error; if they report success, the output files are complete and correct. The same holds for the exit status of the command.",
  ["fault_sequences"], "a write failure at every byte offset of every output of every operation",
  "No test makes a write fail.",
  [KEY, COM, CRY, B64], [("writeDataFile, createDataFile", COM), ("Seal, seal, Open, open", CRY), ("Encoder.Close", B64)], observe=["Sign","Seal","Open","GenerateKey","psignify"])
p("C18", "Sealing and opening use the whole input, however it is delivered",
  "However the message source divides its data into reads, sealing either encrypts exactly the whole message or reports an error, in particular if the source fails, ends early, or holds more data than the stated size (a pipe, a growing file). Opening likewise does not depend on how the encrypted input is divided into reads.",
  ["inputs","schedules","fault_sequences"], "all divisions of the input into reads, empty reads, end signalled with or after the last data, source errors at every point, size smaller or larger than the data",
  "Tests read from regular files and byte buffers, which always fill the buffer they are given.",
  [CRY], [("seal, open", CRY), ("Seal", CRY)], observe=["crypto.seal","crypto.open","crypto.Seal"])
p("C19", "Signing keys convert to the right encryption keys",
  "For every key pair, the encryption public key derived from the Ed25519 public key is the canonical Curve25519 u-coordinate (1+y)/(1-y), the encryption secret key derived from the Ed25519 secret key is the clamped SHA-512 half that signing itself uses, and the former is the Curve25519 public key of the latter; conversion does not change the keys. Byte strings that are not points of the curve are refused.",
  ["inputs"], "all Ed25519 public keys and seeds, including y coordinates near 0 and p, non-canonical encodings, both sign bits, and non-points",
  "TestEncryption converts a few random pairs; errors that need unusual field elements (carries, values near p) or invalid points are not reached.",
  [KEY, ED], [("Public.ToBox, Private.ToBox", KEY), ("field arithmetic, FromBytes", ED)], observe=["Public.ToBox","Private.ToBox"])
p("C20", "The command's exit status is zero exactly when the operation succeeded",
  "The command exits with status 0 only if the one operation selected by its flags was carried out successfully (or help was requested), and with a nonzero status in every other case: no or unknown flags, missing or unusable files, wrong passphrase or mismatching confirmation, failed verification, failed decryption. On success of a signature check, encryption or decryption it says so on standard output with OK; it never prints OK otherwise.",
  ["inputs","configurations"], "all combinations of mode and path flags, states of the files they name, passphrase dialogues",
  "The command has no tests.",
  [CLI, KEY], [("main, usage", CLI), ("PassphrasePrompt", KEY)], observe=["psignify"])
p("C21", "The commands agree on default names and locations",
  "With no key given, key generation writes, and signing, verifying, encrypting and decrypting read, the same pair <home>/.signify/<user>.sec and .pub. An explicit key, message, signature or encrypted-file argument always takes precedence over the default, generation with -p NAME writes exactly NAME.sec and NAME.pub, and signatures and encrypted files default to the message's name with .sig and .enc added.",
  ["configurations"], "all combinations of given and omitted path flags for every mode",
  "The command has no tests.",
  [CLI, KEY, CRY], [("defaultKeyBase, main", CLI), ("Sign, Verify, GenerateKey", KEY), ("Seal", CRY)], observe=["psignify"])
p("C22", "Operations change nothing but their own output file",
  "Verification changes no file; signing, sealing and opening change no file but the one output they are directed to, whether they succeed or fail. A signing operation that fails before the signature has been made leaves an existing signature file unchanged.",
  ["inputs","histories"], "all operations, outcomes and failure reasons, existing files at all paths",
  "The tests do not look at any file but the output.",
  [KEY, COM, CRY], [("Sign, Verify", KEY), ("Seal, Open", CRY), ("writeDataFile", COM)], observe=["Sign","Verify","Seal","Open"])
p("C23", "The passphrase is asked for only when needed, and erased",
  "Signing and opening ask for a passphrase exactly once, without confirmation, if the secret key is passphrase-protected and never otherwise; verifying, sealing and using an unprotected or already unlocked key never ask. The buffer holding the passphrase that was supplied is erased by the time the operation returns, whatever its outcome. If the prompt fails, the operation fails with that error.",
  ["inputs","histories"], "all operations, keys, prompt outcomes (right, wrong, empty, error)",
  "The tests install a prompt that always succeeds and do not count its calls or look at the buffer.",
  [KEY, CRY], [("Sign, ToBox", KEY), ("PassphrasePrompt, zero", KEY)], observe=["signify.PassphrasePrompt"])
p("C24", "Comment lines never influence the outcome",
  "The untrusted comment line of a key, signature or encrypted file has no effect: for any text in it (up to the 1024 characters that signify allows a comment line), every operation has the same outcome and produces the same signatures and plaintexts as with any other comment. The comment is never taken for payload.",
  ["inputs"], "all comment texts (empty, long, containing base64, file names, other prefixes) in each kind of file",
  "All test files have the standard comments.",
  [COM, CRY], [("readDataFileBytes", COM), ("skipComment", CRY)], observe=["LoadPrivateKey","LoadPublicKey","Verify","Open"])
p("C25", "Concurrent operations do not interfere",
  "Any number of signing, verifying, sealing, opening, key generation, encoding and decoding operations running concurrently on different outputs, also when they share key files and loaded unlocked keys, each have exactly the outcome they would have alone.",
  ["schedules"], "all interleavings of concurrent operations on shared keys and separate outputs",
  "All tests are sequential.",
  [KEY, COM, CRY, B64], [("no shared mutable state", KEY)], observe=["Sign","Verify","Seal","Open","ToBox"])
p("C26", "Key and signature files follow the signify format, in both directions",
  "Key and signature files are one line 'untrusted comment: ...' and one line of base64 of the signify records: public key = 'Ed', 8-byte key number, 32-byte key; signature = 'Ed', key number, 64-byte signature; secret key = 'Ed', 'BK', 32-bit big-endian rounds, 16-byte salt, 8-byte checksum (start of the SHA-512 of the plain key), key number, 64-byte key, masked if rounds is not zero. Files written have exactly this form, carrying the right values, and files of this form made by any other implementation (such as OpenBSD's signify) are accepted and used correctly.",
  ["inputs"], "all keys, passphrases, rounds, signatures; files made by an independent implementation of the format",
  "The tests read three fixed files; what is written is only read back by the same build.",
  [KEY, SIG, COM], [("encode and read functions", KEY), ("Signature.encode", SIG), ("dataFile.Encode, readDataFileBytes", COM)], observe=["GenerateKey","Sign","LoadPrivateKey","LoadPublicKey","Verify"])
p("C27", "Outcomes depend only on current file contents, not on history",
  "In any sequence of operations over a set of files, each operation's outcome and output are determined by the current contents of the files it is given and the passphrase supplied: no earlier operation, previous contents of an output path, or previously loaded key has any influence. Output written over an existing longer or shorter file replaces it completely.",
  ["histories"], "all sequences of generate, sign, verify, seal, open, copy, replace, damage and delete over a small set of paths",
  "Each test performs one or two operations on fresh paths.",
  [KEY, SIG, COM, CRY, CLI], [("Sign, Verify, GenerateKey", KEY), ("Seal, Open", CRY)], observe=["Sign","Verify","Seal","Open","GenerateKey"])
p("C28", "Passphrases and secret keys are never shown or stored elsewhere",
  "A passphrase typed at the command's prompt is not echoed by the terminal, and when the command ends of its own accord, successfully or not, the terminal is in the state in which it was before. Whatever happens, neither a passphrase that was typed or supplied nor secret key material appears, in any common encoding, on the terminal, on standard output, on standard error or in any file other than the secret key file, and a passphrase-protected secret key file holds neither of them in the clear.",
  ["inputs","histories","schedules"], "all operations of the command with right, wrong, mismatching and empty passphrases, terminals with and without echo, terminals that go away at a prompt, damaged keys and missing files",
  "No test runs the command; the tests replace the prompt and never look at what is printed.",
  [KEY, COM, CLI, CRY], [("PassphrasePrompt", KEY), ("main", CLI), ("GenerateKey, createDataFile", KEY)], observe=["terminal state and output of the command","standard output and error","files"])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
