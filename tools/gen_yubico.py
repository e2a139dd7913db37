#!/usr/bin/env python3
"""Writes /verif/fixtures/yubico.json: genuine attestations by Yubico devices
and the Yubico roots, taken once from the repository at the pinned commit."""
import base64, hashlib, json, os, re

R = "/repo"


def arr(f, name):
    t = open(os.path.join(R, f)).read()
    m = re.search(name + r": \[u8; \d+\] = \[(.*?)\];", t, re.S)
    return bytes(int(x, 0) for x in m.group(1).replace("\n", " ").split(",") if x.strip())


def pem(f):
    t = open(os.path.join(R, f)).read()
    m = re.search(r"-----BEGIN CERTIFICATE-----(.*?)-----END", t, re.S)
    return base64.b64decode("".join(m.group(1).split()))


out = dict(fido_root=pem("src/fido/verification.rs").hex(), piv_root=pem("src/yubikey/verification.rs").hex(), fido=[], piv=[])
for n in ("YUBIKEY_BIO", "YUBIKEY_5C_NFC"):
    f = "tests/fido-lite.rs"
    out["fido"].append(dict(ad=arr(f, n + "_AUTH_DATA_ED25519").hex(), sig=arr(f, n + "_AUTH_SIG_ED25519").hex(),
                            ch=hashlib.sha256(arr(f, n + "_CHALLENGE_ED25519")).hexdigest(), inter=arr(f, n + "_INTERMEDIATE").hex()))
f = "tests/yubikey-lite.rs"
out["piv"].append(dict(leaf=arr(f, "YUBIKEY_5CI_ATTESTATION").hex(), inter=arr(f, "YUBIKEY_5CI_INTERMEDIATE").hex()))
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fixtures", "yubico.json"), "w"), indent=0)
