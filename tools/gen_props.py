#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe,hook_needed=None)))
CERT="src/ssh/cert.rs";SIG="src/ssh/signature.rs";PUB="src/ssh/pubkey.rs";PRIV="src/ssh/privkey.rs"
RD="src/ssh/reader.rs";WR="src/ssh/writer.rs";KT="src/ssh/keytype.rs";AS="src/ssh/allowed_signer.rs"
FP="src/fido/parsing.rs";FV="src/fido/verification.rs";YV="src/yubikey/verification.rs";X5="src/x509/mod.rs";UT="src/utils.rs"
p("C01","A certificate is accepted only with its CA's valid signature",
  "Importing an SSH certificate (from text, bytes or a file) succeeds only if the CA public key contained in it produced the contained signature over exactly all the bytes that precede the signature field. Changing any signed byte, the CA key or the signature, or transplanting a signature from another certificate, key or message, always makes the import fail.",
  ["inputs","histories"],"every byte string an attacker can derive from any number of genuine certificates by editing, splicing, truncating, re-keying or swapping signatures, for every supported CA algorithm",
  "The tests try a few hand-made forgeries; the claim is about every derivable byte string and every CA algorithm.",
  [CERT,SIG],[("signature check during import","cert.rs Certificate::from_bytes -> signature.rs verify_signature"),("signed range = everything before the signature field","cert.rs signed_len")],["Certificate::from_string","Certificate::from_bytes","Certificate::from_path"])
p("C02","Certificate import reports exactly the certified fields",
  "For every accepted certificate, the reported type, nonce, subject key, serial, user/host role, key id, principals (in order), validity bounds, critical options, extensions, reserved data, CA key, signature and comment are exactly the values encoded in it. Every well-formed certificate of a supported type with a valid CA signature is accepted, and one that is truncated, repeats an option name, has a role other than user or host, is not of a certificate type, or whose text label differs from the type inside is rejected.",
  ["inputs"],"every certificate content: all subject and CA key types, all u64 serials/validity bounds, any number and length of principals and options, any UTF-8 strings, and every malformed encoding",
  "Tests parse about twenty fixed certificates; field values, lengths and combinations outside them are never seen.",
  [CERT,RD,PUB,KT],[("field-by-field decoding","cert.rs Certificate::from_bytes, read_options, read_principals"),("outer/inner type agreement","cert.rs Certificate::from_string")],["public fields of Certificate"])
p("C03","Issued certificates carry exactly what the issuer set last",
  "Whatever sequence of builder calls is made, the certificate obtained by signing carries exactly the values last set (lists accumulate in call order; maps keep the last value per name), in the OpenSSH certificate layout with options in lexical order. Exporting it as text and importing it again yields an identical certificate.",
  ["inputs","histories"],"every finite sequence of builder calls with any values, every subject/CA key type, followed by signing, export and re-import",
  "Tests build certificates with one fixed call order and a handful of values and compare only some fields.",
  [CERT,WR],[("builder setters","cert.rs serial/key_id/principal/..."),("to-be-signed encoding","cert.rs tbs_certificate; writer.rs"),("export","cert.rs Display for Certificate")],["Certificate::tbs_certificate","Certificate fields","to_string()"])
p("C04","Signing a certificate never yields one that does not verify",
  "Attaching a signature (or signing through any signer) succeeds only if the signature is valid for the certificate's current content under the CA key the certificate names; a signer that fails, signs other bytes, uses another key or returns garbage yields an error. After success the exported bytes are the current content followed by that signature, also when the certificate was previously imported or signed and then modified.",
  ["inputs","histories"],"every signer behaviour (right key, wrong key, stale content, malformed output, refusal) at every point of every build/import/modify/sign history",
  "Tests sign freshly built certificates with well-behaved signers, plus one wrong-key case.",
  [CERT,SIG],[("verification gate","cert.rs add_signature"),("signer failure propagation","cert.rs sign")],["Certificate::add_signature","Certificate::sign","Certificate.serialized"])
p("C05","A detached SSH signature verifies only for its message, namespace and key",
  "Verifying an armored SSH signature succeeds only if the key inside it signed exactly that message under exactly that namespace and the declared hash, and, when an expected public key is supplied, only if it is the same key (comments do not matter). Any other message, namespace, key, hash name, version or altered signature is rejected, and genuine signatures are always accepted.",
  ["inputs","histories"],"every message, namespace, hash algorithm, key type, expected key and every alteration or recombination of genuine armored signatures",
  "Tests check a few fixed signature files and simple negatives.",
  [SIG],[("expected key and namespace comparison","signature.rs VerifiedSshSignature::from_ssh_signature"),("signed-data reconstruction","signature.rs to_signed_format"),("armor/blob decoding","signature.rs from_armored_string, from_reader")],["SshSignature::from_armored_string","VerifiedSshSignature::from_ssh_signature"])
p("C06","Created SSH signatures are standard, verifiable and round-trip",
  "Signing a message with a private key, a non-empty namespace and an optional hash choice yields a signature that verifies for that message, namespace and public key, embeds precisely these (SHA-512 when no hash is chosen), and whose armored text re-imports to the same key, namespace, hash and signature in the standard SSHSIG layout. Creation either yields such a signature or returns an error.",
  ["inputs"],"every message (any length and content), namespace, hash choice and private key of a signing-capable type",
  "Tests sign a couple of short messages and only re-verify them with the same library.",
  [SIG,PRIV],[("creation and self-verification","signature.rs new_with_private_key"),("armoring","signature.rs Display for SshSignature")],["VerifiedSshSignature::new_with_private_key","to_string()"])
p("C07","Signature scheme, key type and security-key data must agree",
  "Wherever a signature is verified (certificates or detached), the scheme named in the signature must belong to the verifying key's family and fix its hash (RSA with SHA-1, SHA-256 or SHA-512; ECDSA per named curve; Ed25519), the raw signature must be well formed, and it must be valid for the signed bytes under that key. For hardware security keys the signed data must bind the key's application string, the presented flags byte and counter, and the message; altering any of them is rejected.",
  ["inputs"],"every pairing of signature-scheme name, key type, raw signature encoding (padding, length, extra bytes), and security-key application/flags/counter values",
  "Tests cover each scheme once with recorded vectors; cross pairings and boundary encodings are not covered.",
  [SIG],[("scheme/key agreement and per-scheme verification","signature.rs verify_signature")],["Certificate::from_bytes","VerifiedSshSignature::from_ssh_signature"])
p("C08","Public keys decode, encode and fingerprint faithfully",
  "A public key line or blob is accepted only if the declared type matches the type inside, is a plain key type, its curve fits the type and all components are present; the reported components are exactly those encoded. Encoding, printing or writing an accepted key and reading it back gives the same key (an RSA key declared under a signature-scheme name such as rsa-sha2-512 is written as ssh-rsa), and its fingerprint is the unpadded base64 of the chosen SHA-2 digest of that encoding.",
  ["inputs"],"every key type, component values (any length, leading zeros, high bits), comments, whitespace layout and every malformed line or blob",
  "Tests check a fixed list of key files and fingerprints.",
  [PUB,WR,RD,KT],[("decoding","pubkey.rs from_string/from_bytes/from_reader"),("encoding","pubkey.rs encode/write/Display; writer.rs"),("fingerprints","pubkey.rs Fingerprint::compute")],["PublicKey fields","encode()","fingerprint_with()","to_string()","write()","bits()"])
p("C09","Unencrypted private keys survive read and write byte for byte",
  "Reading any unencrypted OpenSSH private key file in canonical layout and writing it back reproduces the same file contents byte for byte, including the check value, comment, padding and security-key data, and reading that again yields an equal key. Generated keys likewise write files that re-read as the same key and carry the standard 64-byte Ed25519 secret.",
  ["inputs"],"every private key of every supported type, any component values, comment (any length, so every padding length) and check value",
  "Tests re-serialise a few fixed key files.",
  [PRIV,WR],[("serialisation","privkey.rs encode, write"),("parsing","privkey.rs from_reader, read_private_key"),("generation","privkey.rs PrivateKey::new")],["PrivateKey::from_string","PrivateKey::encode","PrivateKey::write"])
p("C10","A private key file opens only if consistent and correctly decrypted",
  "Opening a private key file succeeds only if it holds exactly one key, its two check values agree, the private section's public part equals the file's public key, and it is either unencrypted or AES-256-CTR/bcrypt decrypted with the right passphrase. An encrypted file without a passphrase reports that it is encrypted, an unsupported cipher or KDF is reported as unsupported, a wrong passphrase is an error, and the right passphrase yields the same key as the unencrypted file.",
  ["inputs","configurations"],"every key, passphrase, salt, round count, cipher/KDF pair, and every inconsistency between the public and private sections",
  "Tests open a few fixed encrypted files with one right and one wrong passphrase.",
  [PRIV],[("container checks and decryption","privkey.rs from_reader")],["PrivateKey::from_string_with_passphrase","PrivateKey::from_string","PrivateKey::from_path_with_passphrase"])
p("C11","Every signature made by a private key verifies under its public key",
  "For every usable software private key and every message, signing produces a signature blob in SSH format naming the scheme of the key (RSA: SHA-512) that is valid for exactly that message under the key's public half. Keys that cannot sign (unsupported curve, inconsistent or damaged secret) yield no signature rather than an invalid one.",
  ["inputs"],"every key of every type (including secrets or r/s values with leading zero bytes) and every message",
  "Tests sign a handful of messages; leading-zero secrets and r/s values occur once in hundreds of keys or signatures.",
  [PRIV,UT],[("signing per key type","privkey.rs SSHCertificateSigner for PrivateKey"),("SSH signature formatting","utils.rs format_signature_for_ssh")],["SSHCertificateSigner::sign"])
p("C12","An allowed-signers entry means exactly what its line says",
  "Parsing an allowed-signers line yields exactly the principals, CA marker, namespaces, validity bounds and key written on it, honouring double quotes, '#' comments, repeated spaces, option order and case-insensitive option names. Lines with missing or empty principals, a missing or malformed key, stray quotes, duplicate single-valued options, conflicting validity bounds or extra tokens are rejected, and a printed entry parses back to the same entry.",
  ["inputs"],"every line over the grammar's alphabet: any quoting, spacing, comment position, option combination and order",
  "Tests check some two dozen fixed lines.",
  [AS],[("tokenising","allowed_signer.rs AllowedSignerSplitter"),("entry parsing","allowed_signer.rs AllowedSigner::from_string"),("printing","allowed_signer.rs Display for AllowedSigner")],["AllowedSigner::from_string","AllowedSigner fields","to_string()"])
p("C13","An allowed-signers file is all its entries in order, or an error",
  "Loading an allowed-signers file returns precisely one entry per line that is neither blank nor a comment, in file order, each equal to what that line means by itself. If any such line is invalid the whole load fails and identifies that first invalid line by its zero-based position, so no entry is ever dropped or partially loaded.",
  ["inputs"],"every sequence of valid, invalid, blank, comment and indented lines with any line endings",
  "Tests load four fixed files.",
  [AS],[("line loop","allowed_signer.rs AllowedSigners::from_string")],["AllowedSigners::from_string","AllowedSigners::from_path"])
p("C14","Validity timestamps denote the exact instant written",
  "A validity timestamp of the form YYYYMMDD[HHMM[SS]] with optional Z denotes exactly that calendar instant, in UTC with Z and in the local time zone otherwise, as seconds since 1970. Impossible dates or times, other lengths or characters, and local times that do not exist are rejected (the first second skipped by a forward clock change may also be read as the instant of the change), and no zone or date makes parsing crash.",
  ["inputs","configurations"],"every digit string and every calendar date/time, in every time zone including daylight-saving gaps and overlaps",
  "Tests parse a few timestamps in the zone of the build machine (UTC).",
  [AS],[("timestamp parsing","allowed_signer.rs parse_timestamp")],["AllowedSigner.valid_after","AllowedSigner.valid_before"])
p("C15","The wire reader returns exactly the encoded values and never over-reads",
  "For every buffer and every sequence of reads, each read returns exactly the next encoded value (integers big-endian, length-prefixed bytes, UTF-8 strings, NUL-terminated strings, strictly encoded positive mpints) and advances by exactly its encoded length. It fails without returning data when the buffer is exhausted or the value is malformed.",
  ["inputs","histories"],"every buffer and every finite sequence of read and reposition calls",
  "Tests read a few short buffers with a single call each.",
  [RD],[("bounds checks and decoding","reader.rs Reader::read_*")],["Reader::read_*","Reader::get_offset"])
p("C16","The wire writer emits canonical encodings the reader inverts",
  "Each write appends exactly the canonical SSH encoding of its value (positive minimal mpints, length-prefixed strings and lists, option maps in lexical name order with empty values as bare flags) and nothing else. Reading the written bytes back with the matching reads yields the written values.",
  ["inputs","histories"],"every finite sequence of writes with any values and lengths",
  "Tests write a few single values.",
  [WR],[("encoding","writer.rs Writer::write_*")],["Writer::as_bytes","Writer::into_bytes"])
p("C17","No input can crash or hang a parser",
  "Feeding arbitrary text or bytes to any parsing or verification entry point (keys, certificates, signatures, allowed signers, authenticator data, attestations, X.509 data, DER signatures, and signing with whatever key was parsed) always returns a value or an error in bounded time; it never panics or aborts.",
  ["inputs"],"every byte string or text handed to any public parsing/verification function",
  "Tests contain a dozen malformed inputs.",
  [CERT,SIG,PUB,PRIV,AS,RD,FP,FV,YV,X5,UT],[("checked decoding","Reader and callers"),("error propagation","Result-returning APIs")],["all public from_*/parse/verify functions","sign"])
p("C18","Authenticator data decodes to exactly what the token reported",
  "Decoding FIDO authenticator data yields exactly the encoded RP hash, flags, counter, AAGUID, credential id and COSE key, and the derived SSH key is the security-key form of that credential public key (Ed25519 bytes, or the uncompressed P-256 point) with the given application. Data that is truncated, lacks a credential, or has a malformed or over-long key map is rejected; user presence and verification reflect the flag bits.",
  ["inputs"],"every authenticator-data byte string: any flags, lengths, CBOR integer widths, key order, and map sizes",
  "Tests decode three recorded samples.",
  [FP],[("decoding","parsing.rs AuthData::parse"),("SSH key derivation","parsing.rs AuthData::ssh_public_key")],["AuthData fields","ssh_public_key"])
p("C19","A FIDO attestation is valid only through the full chain",
  "Attestation verification succeeds only for ES256 when the trusted root (the given one, else Yubico's) signed the attestation certificate and that certificate's key signed the authenticator data followed by the challenge. The result then reports that authenticator data and exactly the firmware, AAGUID and transports stated in the attestation certificate.",
  ["inputs"],"every combination of root, attestation certificate, signature, challenge, algorithm id, authenticator data and certificate extensions, and every alteration of them",
  "Tests verify three recorded attestations and one failure.",
  [FV],[("chain and signature checks","verification.rs verify_auth_data"),("extension extraction","verification.rs extract_certificate_extension_data")],["verify_auth_data"])
p("C20","A PIV attestation is valid only through the full chain",
  "PIV attestation verification succeeds only if the trusted root (the given one, else Yubico's) signed the intermediate and the intermediate signed the leaf, and the leaf holds a supported key plus firmware, serial and policy data. The result reports precisely the leaf's key, firmware, serial, and PIN and touch policies.",
  ["inputs"],"every combination of root, intermediate, leaf and leaf extensions, and every alteration of them",
  "Tests verify one recorded chain and a few failures.",
  [YV],[("chain checks","yubikey/verification.rs verify_certificate_chain"),("extension extraction","yubikey/verification.rs extract_certificate_extension_data")],["verify_certificate_chain"])
p("C21","X.509, CSR and DER public keys convert to the same SSH key",
  "Extracting a public key from an X.509 certificate, a certificate request or a DER public key returns the SSH key with the same curve and point for NIST P-256 and P-384 keys. Any other key algorithm or curve, or malformed data, is rejected.",
  ["inputs"],"every certificate, request or DER key, with any key algorithm, curve and surrounding content",
  "Only recorded PIV certificates exercise this, and only one path of the three.",
  [X5],[("conversion","x509/mod.rs convert_x509_pki_to_pubkey, der_encoding_to_ssh_public_key")],["extract_ssh_pubkey_from_x509_certificate","extract_ssh_pubkey_from_x509_csr","der_encoding_to_ssh_public_key"])
p("C22","ECDSA DER signatures convert to SSH form without changing r and s",
  "Converting an ASN.1 DER ECDSA signature to SSH form yields the same r and s as length-prefixed integers, wrapped with the key's scheme name (RSA raw signatures are labelled rsa-sha2-512, Ed25519 with the key's type). Inputs that are not a sequence of two integers filling the buffer yield nothing.",
  ["inputs"],"every byte string up to any length, and every r/s length and padding",
  "There are no tests of the conversion itself; signing tests see only random r/s values.",
  [UT],[("DER splitting and re-encoding","utils.rs")],["asn_der_to_r_s","signature_convert_asn1_ecdsa_to_ssh","format_signature_for_ssh"])
p("C23","Private key secrets are wiped when the key is dropped",
  "When a private key value (or any clone of it) is dropped, every buffer holding its secret components, including the security-key handle and PIN, has been overwritten before its memory is released. A PIN that is replaced by set_pin is overwritten in the same way. Dropping one copy does not affect other live copies.",
  ["inputs","histories"],"every key type, every secret component and every sequence of clone, use and drop",
  "No test observes memory contents at release.",
  [PRIV],[("zeroize on drop","privkey.rs Drop for PrivateKey, derive(Zeroize)")],["memory released by dropping PrivateKey"])
p("C24","Key-type and curve names map one-to-one onto their meaning",
  "Exactly the supported key-type and curve names are recognised (case-sensitively, no prefixes or variants), each with its right family, certificate flag, security-key flag, plain name and short name. The plain name and certificate name of any recognised type are themselves recognised types of the same family and flags.",
  ["inputs"],"every string as a name, and every recognised type",
  "Tests look up only the names that occur in their fixtures.",
  [KT],[("lookup tables","keytype.rs KeyType::from_name, Curve::from_identifier, as_cert_name, as_pubkey_name")],["KeyType::from_name","Curve::from_identifier","as_cert_name","as_pubkey_name"])
p("C25","Nonces, default serials and generated keys are always fresh",
  "Each new certificate gets an independent 32-byte random nonce and random default serial, and each generated private key an independent random secret and check value, across any history and from any thread. No value repeats or is partly constant, and setting fields or signing never changes the nonce.",
  ["histories","schedules"],"every number and interleaving of builder and key-generation calls across threads",
  "Tests never compare two nonces or two generated keys.",
  [CERT,PRIV],[("system randomness","cert.rs Certificate::builder; privkey.rs PrivateKey::new")],["Certificate.nonce","Certificate.serial","PrivateKey"])
p("C26","Results depend only on the arguments, not on history or threads",
  "Every parse, verify, encode and sign-then-verify call gives the same outcome no matter which calls were made before, how often, or concurrently from other threads; accepting or rejecting one input never changes the verdict on another.",
  ["histories","schedules"],"every sequence and interleaving of library calls in one process",
  "Each test makes a few calls on fixed data in isolation.",
  [CERT,SIG,PUB,PRIV,AS,RD,WR],[("no shared mutable state","whole crate")],["all public parse/verify/encode functions"])
p("C27","Human-readable listings show the true certificate and key data",
  "The descriptive rendering of a certificate shows its actual type, role, subject and CA fingerprints, key id, serial, validity (forever only when unbounded on both ends), every principal in order, every critical option with its value and every extension; certificate, key, fingerprint and role renderings likewise show the true values.",
  ["inputs"],"every certificate and key value",
  "No test reads the rendering.",
  [CERT,PUB,PRIV],[("Display implementations","cert.rs, pubkey.rs, privkey.rs")],["Display of Certificate ({:#}), PublicKey, PrivateKey, Fingerprint, CertType"])
p("C28","PIV tokens are used as asked: that token, slot, key, policy and PIN only",
  "Opening, provisioning, signing, certificate storage, attestation and signing requests through a YubiKey reach the token with the requested serial and use or change only the requested slot. Provisioning generates exactly one key with the given key type, PIN and touch policy, stores a self-signed certificate of that key under the given common name and returns that key. Signing has the key in the slot sign the hash that fits its type of precisely the given data, and returns that signature; a request (CSR) carries the slot's key and the given name and is signed by it. A PIN is presented exactly as given and at most once per call. An empty slot, a key of another type, a refusal, an absent token or a connection lost at any command is reported as an error, never as success, a crash or an effect elsewhere; what could be refused beforehand changes nothing.",
  ["inputs","histories","fault_sequences"],"every set of tokens, slot, policy, PIN and data, every history of calls, and a lost connection at every command",
  "There are no tests of it: they would need physical tokens.",
  ["src/yubikey/piv/management.rs","src/yubikey/piv/ssh.rs","src/yubikey/piv/mod.rs"],[("PIV operations","piv/management.rs Yubikey::*, CSRSigner"),("SSH signatures from a slot","piv/ssh.rs")],["Yubikey::{new,open,reconnect,unlock,configured,fetch_subject,fetch_certificate,write_certificate,fetch_attestation,generate_csr,provision,sign_data,ssh_cert_fetch_pubkey,get_ssh_key_type,ssh_cert_signer}"])
p("C30","A refusal names what is actually wrong",
  "When a certificate, key, private key, signature, key type or curve name, allowed-signers line or file is refused, the error says something true about that input: an unknown key type or curve is named exactly as it stands there, a certificate role by its number, an encrypted file, an unsupported version, hash or cipher, a plain key in place of a certificate, a disagreement of types, bytes that are not text or not base64, data that ends early, a signature that does not hold, or the very allowed-signers rule, option and line that is broken. A file that cannot be read is an I/O error, a key type that cannot be generated is reported as unsupported or mismatched, and the messages of different errors can be told apart and show the value and line they carry.",
  ["inputs"],"every refused input with one or several faults of any kind, in every format",
  "Tests mostly assert that an input is refused, not with which error, and hold one fault each.",
  ["src/error.rs",CERT,PUB,PRIV,SIG,AS,KT,RD],[("error values and messages","error.rs Error, Display; allowed_signer.rs AllowedSignerParsingError"),("where they are raised","the parsers and verifiers of src/ssh")],["Err(..) of from_string, from_bytes, from_path, from_name, from_identifier, from_armored_string, verify, sign, add_signature, PrivateKey::new","to_string() of Error"])
p("C29","FIDO tokens make and use only the key asked for",
  "Generating an SSH key on a FIDO token asks the one token there is (or the one its user touches) for one non-resident Ed25519 credential, for exactly the given application and bound to a fresh challenge. It succeeds only if the attestation the token sends verifies for that challenge, and then returns exactly that credential: its public key under the application, handle and flags, the given comment and PIN, and the attestation as sent. Signing asks for one assertion of precisely the key's handle and application over the SHA-256 of the given data and returns the token's signature with its flags and counter; a certificate is issued from it only if it verifies. A PIN is shown as given, at most once per call and only to that token, and a missing, wrong, locked or blocked PIN is reported as such, with the tries left. A refusal, an absent or untouched token, a foreign or stale attestation, a garbled answer or a token taken out at any command is an error: no call hangs, crashes, succeeds falsely or touches another token.",
  ["inputs","histories","fault_sequences"],"every set of tokens, application, comment, PIN, credential and data, every history of calls, and a refusal, garbled answer or removal at every command",
  "There are no tests of it: they would need physical tokens.",
  ["src/fido/generate/mozilla.rs","src/fido/signing/mozilla.rs","src/fido/generate/mod.rs"],[("making keys","fido/generate/mozilla.rs generate_new_ssh_key, U2FAttestation"),("signing","fido/signing/mozilla.rs sign_with_private_key")],["fido::generate::generate_new_ssh_key","fido::signing::sign_with_private_key","SSHCertificateSigner for PrivateKey with SK keys","Certificate::sign with SK keys"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for r in P:
        assert len(r["title"])<=80,r["title"]
        f.write(json.dumps(r)+"\n")
print(len(P))
