#!/usr/bin/env python3
"""writes the "fixed:" part of known-findings.txt from this table"""
import os
T = [
("C13","f2942aa","alerts were sent with numbers other than those of RFC 8446"),
("C01","f2c5061","shared secrets, points and signatures with a leading zero byte were shortened, so that honest handshakes failed"),
("C14","0ab46f8","ECDSA signature integers with a leading zero byte were not minimal DER"),
("C11","7be2fba","ChaCha20 left the last block of a record in clear when its length was a multiple of 64"),
("C08","856796a","hello messages and extensions with inconsistent lengths panicked"),
("C15","ddb24a9","missing or foreign key shares, missing TLS 1.3 and all-zero shared secrets were accepted or crashed"),
("C15","2dbdd70","the client accepted a ServerHello that did not echo its session id"),
("C07","801b18f","hello messages with a repeated extension were accepted"),
("C02","f6420e5","records that arrive in pieces or together with others were lost or misread"),
("C14","572fc7c","records of more than 2^14 bytes were sent for large certificates and writes"),
("C01","d664a77","a short write of the client hello lost its rest"),
("C01","9c18404","handshake messages spread over several records, or several in one record, were refused"),
("C08","7fdd764","protected records shorter than their tag panicked, records of another outer type were decrypted"),
("C13","549a975","received alerts were reported as another error or answered with an alert"),
("C03","a609ccc","a read after a refused record delivered the data that followed the damage"),
("C08","b6c27a3","malformed CertificateVerify messages and signatures panicked"),
("C08","9a55245","wrong lengths in Certificate and CertificateRequest panicked"),
("C14","78e9301","a client without certificate answered a request without a Certificate message"),
("C14","91c4e4f","the client answered a second CertificateRequest"),
("C08","25cf7a3","a CertificateVerify of a scheme the server did not offer panicked"),
("C13","e929da4","alerts of the server after its Finished were sent under the handshake keys and unreadable"),
("C12","38059df","key log lines were written in pieces and mixed; failures of the log file broke the handshake"),
("C01","df8b98a","SimpleRng::bytes returned the wrong number of bytes"),
("C06","da60c94","dates were computed wrongly (leap years, 2050, GeneralizedTime) and a clock before 1970 panicked"),
("C05","e366c91","the signed part of a certificate was searched for by content: unsigned parts were believed, deep nesting overflowed the stack"),
("C16","f06df48","truncated or damaged PEM files were loaded partially"),
("C16","1fdf1b1","the private key was taken from a fixed offset of its file"),
("C08","64cf447","a CertificateVerify of a scheme the client did not offer panicked"),
("C06","6b0ae07","the error of a handshake was masked by the failure to send its alert"),
("C15","77330f2","a client that listed another host next to the configured name was served"),
("C16","8e515cf","a private key of another curve (secp256k1) was loaded as a P-256 key"),
]
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")
keep = [l for l in open(p)] if os.path.exists(p) else []
keep = [l for l in keep if l.startswith("KNOWN-FINDING:")]
with open(p, "w") as f:
    f.write("# Genuine defects found in otsmr/AnotherTLS. Format: see DESIGN.md. No check writes this file.\n")
    for l in keep: f.write(l)
    for a, b, c in T: f.write(f"fixed: property={a} {b} {c}\n")
