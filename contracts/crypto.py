"""The cryptography package by its contract: RSA (PKCS1 v1.5) and AES-CBC decrypt exactly what they encrypted under the matching key,
PKCS7 unpadding gives what was padded.  Everything else about them is left open."""
from contracts.lib import *  # noqa
from cryptography.hazmat.primitives.asymmetric import rsa, padding
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from cryptography.hazmat.primitives.padding import PKCS7
import os

C = sys.modules["psrpcore._crypto"]


def fresh_blob(name, lo=0, src=None, n=None):
    c = RT.ctx
    n = c.int(c.fresh("len_" + name), lo) if n is None else n
    return SBytes([BlobSeg(Blob(c.fresh(name), n, src), 0, n)])


def whole(x):
    """the blob a byte string consists of, or None"""
    x = payload(x)
    if type(x) is SBytes and len(x.segs) == 1 and isinstance(x.segs[0], BlobSeg):
        g = x.segs[0]
        if RT.ctx.valid(z3.And(z3.IntVal(0) + g.s == 0, z3.IntVal(0) + g.n == g.b.len)):
            return g.b
    return None


def equal(a, b):
    r = eqb(payload(a), payload(b))
    return r if isinstance(r, bool) else RT.ctx.valid(r)


class Feed:
    """update()/finalize() interface over a whole-input function; what update and finalize return concatenates to the result"""

    def __init__(self, f):
        self.f, self.parts, self.done = f, [], False

    def update(self, x):
        if self.done:
            raise Unsupported("update after finalize")
        self.parts.append(payload(x))
        return b""

    def finalize(self):
        if self.done:
            raise Unsupported("finalize twice")
        self.done = True
        x = b""
        for p in self.parts:
            x = p if type(x) is bytes and not x else x + p
        return self.f(x)


class Aes:
    def __init__(self, key, iv):
        self.key, self.iv = key, iv

    def encryptor(self):
        def f(x):
            b = whole(x)
            if b is None or not (b.src and b.src[0] == "pad"):
                raise ValueError("The length of the provided data is not a multiple of the block length.")
            return fresh_blob("cipher", 16, ("aes", self.key, self.iv, x))
        return Feed(f)

    def decryptor(self):
        def f(x):
            b = whole(x)
            if b is not None and b.src and b.src[0] == "aes" and equal(b.src[1], self.key) and equal(b.src[2], self.iv):
                return b.src[3]
            return fresh_blob("garbage", 16)
        return Feed(f)


class Pad:
    def __init__(self, n):
        self.n = n

    def padder(self):
        return Feed(lambda x: fresh_blob("padded", 1, ("pad", x, self.n)))

    def unpadder(self):
        def f(x):
            b = whole(x)
            if b is None or not b.src or b.src[0] != "pad" or b.src[2] != self.n:
                raise ValueError("Invalid padding bytes.")
            return b.src[1]
        return Feed(f)


class Numbers:
    def __init__(self, e, n):
        self.e, self.n = e, n

    def public_key(self, backend=None):
        return Public(self)


class Public:
    def __init__(self, nums):
        self.nums = nums

    def public_numbers(self):
        return self.nums

    def encrypt(self, data, pad):
        if type(pad) is not padding.PKCS1v15:
            raise Unsupported("padding %s" % type(pad).__name__)
        return fresh_blob("rsa", n=256, src=("rsa", self.nums, payload(data)))


class Private:
    """a fresh 2048 bit key: the modulus is any odd-length combination of 256 base 256 digits with the top bit set"""
    key_size = 2048

    def __init__(self, ctx, name="n"):
        ds = [ctx.int(ctx.fresh("%s%d_" % (name, i)), 0 if i < 255 else 128, 255) for i in range(256)]
        self.digits = ds
        self.n = z3.simplify(z3.Sum([d * (256 ** i) for i, d in enumerate(ds)]))
        self.e = 65537
        self.nums = Numbers(self.e, SInt(self.n))

    def public_key(self):
        return Public(self.nums)

    def decrypt(self, data, pad):
        if type(pad) is not padding.PKCS1v15:
            raise Unsupported("padding %s" % type(pad).__name__)
        b = whole(data)
        if b is not None and b.src and b.src[0] == "rsa" and equal(b.src[1].n, self.nums.n) and equal(b.src[1].e, self.nums.e):
            return b.src[2]
        raise ValueError("Decryption failed")


def crypto(ctx):
    """installs the models; gives the list of the private keys generated"""
    assumed("rsa", "cryptography: RSA PKCS1v15 decryption with the private key of (e, n) inverts encryption with (e, n); generate_private_key(65537, 2048) gives a modulus of exactly 2048 bits")
    assumed("aes", "cryptography: AES-CBC decryption inverts encryption under the same key and IV, PKCS7 unpadding inverts padding")
    keys = []
    RT.lindiv = True

    def gen(fn, a, k):
        if (k.get("public_exponent", a[0] if a else None), k.get("key_size", a[1] if len(a) > 1 else None)) != (65537, 2048):
            raise Unsupported("another RSA key size or exponent")
        keys.append(Private(ctx))
        return keys[-1]

    def cipher(fn, a, k):
        alg, mode = (list(a) + [k.get("algorithm"), k.get("mode")])[:2] if len(a) < 2 else a[:2]
        if type(alg) is not tuple or alg[0] != "AES" or type(mode) is not tuple or mode[0] != "CBC":
            raise Unsupported("another cipher")
        return Aes(alg[1], mode[1])

    def urandom(fn, a, k):
        return fresh_blob("random", n=a[0])
    RT.stub(rsa.generate_private_key, gen)
    RT.stub(rsa.RSAPublicNumbers, lambda fn, a, k: Numbers(k.get("e", a[0] if a else None), k.get("n", a[1] if len(a) > 1 else None)))
    RT.stub(algorithms.AES, lambda fn, a, k: ("AES", payload((list(a) + list(k.values()))[0])))
    RT.stub(modes.CBC, lambda fn, a, k: ("CBC", payload((list(a) + list(k.values()))[0])))
    RT.stub(Cipher, cipher)
    RT.stub(PKCS7, lambda fn, a, k: Pad((list(a) + list(k.values()))[0]))
    RT.stub(os.urandom, urandom)
    return keys
