"""Certificates of every kind, made with the openssl program."""
import os, ssl, subprocess, threading, time
from pathlib import Path
from core import Inconclusive

CNF = """
[ca]
default_ca = d
[d]
dir = {dir}
database = {dir}/index.txt
new_certs_dir = {dir}
rand_serial = yes
default_md = sha256
policy = p
unique_subject = no
email_in_dn = no
x509_extensions = none
copy_extensions = none
[none]
[p]
commonName = optional
[req]
distinguished_name = dn
prompt = no
[dn]
CN = {cn}
"""
CA_EXT = "basicConstraints=critical,CA:TRUE{plen}\nkeyUsage=critical,keyCertSign,cRLSign\nsubjectKeyIdentifier=hash\n"
LEAF_EXT = "basicConstraints=CA:FALSE\n"


def run(*argv):
    r = subprocess.run([*map(str, argv)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise Inconclusive(f"{argv[:3]}: {r.stdout[-400:]!r}")


class Cert:
    def __init__(self, path, key, issuer):
        self.path, self.key, self.issuer = path, key, issuer

    def pem(self):
        return self.path.read_bytes()

    def chain(self):
        """This certificate and its intermediates, not the root."""
        c, out = self, b""
        while c is not None and (c.issuer is not None or c is self):
            out += c.pem()
            c = c.issuer
        return out


class Authority:
    """Makes certificates in `dir`."""
    def __init__(self, dir):
        self.dir = Path(dir)
        self.dir.mkdir(exist_ok=True)
        self.n = 0

    def make(self, cn, ext, issuer=None, start="20200101000000Z", end="20450101000000Z", key=None):
        """A certificate with extensions `ext` signed by `issuer` (or itself)."""
        self.n += 1
        d = self.dir / f"c{self.n}"
        d.mkdir()
        (d / "index.txt").touch()
        (d / "cnf").write_text(CNF.format(dir=d, cn=cn))
        (d / "ext").write_text(ext)
        k = key or d / "key"
        if key is None:
            run("openssl", "genpkey", "-algorithm", "EC", "-pkeyopt", "ec_paramgen_curve:P-256", "-out", k)
        run("openssl", "req", "-new", "-key", k, "-config", d / "cnf", "-out", d / "csr")
        sign = ["-selfsign", "-keyfile", k] if issuer is None else ["-cert", issuer.path, "-keyfile", issuer.key]
        run("openssl", "ca", "-batch", "-notext", "-config", d / "cnf", "-in", d / "csr", "-out", d / "crt", "-extfile", d / "ext",
            "-startdate", start, "-enddate", end, *sign)
        return Cert(d / "crt", k, issuer)

    def root(self, cn, plen="", extra="", **kw):
        return self.make(cn, CA_EXT.format(plen=plen) + extra, **kw)

    def leaf(self, san, issuer=None, cn="server", extra="", **kw):
        return self.make(cn, LEAF_EXT + (f"subjectAltName={san}\n" if san else "") + extra, issuer, **kw)

    def context(self, cert, chain=None, ciphers=None):
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        if cert is not None:
            f = self.dir / f"chain-{cert.path.parent.name}-{len(chain) if chain is not None else ''}.pem"
            f.write_bytes(cert.chain() if chain is None else chain)
            ctx.load_cert_chain(f, cert.key)
        if ciphers:
            ctx.maximum_version = ssl.TLSVersion.TLSv1_2
            ctx.set_ciphers(ciphers)
        return ctx
