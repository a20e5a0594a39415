"""Certificates for the TLS checks, made with openssl in a scratch directory."""

import atexit
import os
import shutil
import subprocess
import tempfile

from world import scratch_root


class Certificates:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="tls", dir=scratch_root())
        os.chmod(self.dir, 0o755)
        self.owner = os.getpid()
        atexit.register(self.close)
        self.ca, self.client, self.server = {}, {}, {}
        for name in ("one", "two"):
            self._key(name)
            self._ssl("req", "-x509", "-new", "-key", self.p(name + ".key"), "-out", self.p(name + ".crt"), "-days", "3650", "-subj", f"/CN=CA {name}", "-addext", "basicConstraints=critical,CA:TRUE",
                      "-addext", "keyUsage=critical,keyCertSign,cRLSign")
            self.ca[name] = self.p(name + ".crt")
        for name in ("one", "two"):
            self.client[name] = self.issue("client-" + name, name, "client", "")

    def close(self):
        if os.getpid() == self.owner:
            shutil.rmtree(self.dir, ignore_errors=True)

    def p(self, name):
        return os.path.join(self.dir, name)

    def _ssl(self, *args):
        subprocess.run(["openssl", *args], check=True, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)

    def _key(self, name):
        self._ssl("ecparam", "-name", "prime256v1", "-genkey", "-noout", "-out", self.p(name + ".key"))
        os.chmod(self.p(name + ".key"), 0o600)

    def issue(self, name, ca, cn, san, expired=False, is_ca=False):
        """-> (certificate, key)"""
        self._key(name)
        self._ssl("req", "-new", "-key", self.p(name + ".key"), "-out", self.p(name + ".csr"), "-subj", f"/CN={cn}")
        ext = "basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign\n" if is_ca else "basicConstraints=CA:FALSE\n"
        if san:
            ext += f"subjectAltName={san}\n"
        with open(self.p(name + ".ext"), "w", encoding="utf-8") as f:
            f.write(ext)
        # -days may be negative: a certificate that ended yesterday
        self._ssl("x509", "-req", "-in", self.p(name + ".csr"), "-CA", self.p(ca + ".crt"), "-CAkey", self.p(ca + ".key"), "-CAcreateserial", "-out", self.p(name + ".crt"),
                  "-days", "-1" if expired else "3650", "-extfile", self.p(name + ".ext"))
        return self.p(name + ".crt"), self.p(name + ".key")

    def self_signed(self, name, cn, san):
        self._key(name)
        self._ssl("req", "-x509", "-new", "-key", self.p(name + ".key"), "-out", self.p(name + ".crt"), "-days", "3650", "-subj", f"/CN={cn}", "-addext", f"subjectAltName={san}")
        return self.p(name + ".crt"), self.p(name + ".key")

    def bundle(self, name, *certs):
        with open(self.p(name), "wb") as out:
            for c in certs:
                with open(c, "rb") as f:
                    out.write(f.read())
        return self.p(name)
