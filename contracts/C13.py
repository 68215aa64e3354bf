"""C13: key exchange."""
from contracts.session import *  # noqa
from contracts.crypto import *  # noqa
from contracts.C16 import same


@contract("C13", budget=240)
def public_key_blob(ctx):
    """header, exponent and little endian modulus of every 2048 bit key"""
    keys = crypto(ctx)
    priv, b = call(C.create_keypair)
    ctx.prove("one key", len(keys) == 1 and priv is keys[0])
    b = payload(b)
    ctx.prove("length", eqb(SInt(z3.IntVal(0) + b.zlen()), 276))
    ctx.prove("header", same(b.getitem(slice(0, 20)), b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1\x00\x08\x00\x00\x01\x00\x01\x00"))
    for i in range(256):
        ctx.prove("modulus digit", eqb(b.getitem(20 + i), SInt(keys[0].digits[i])))


@contract("C13", budget=240)
def key_recovered(ctx):
    """for every 2048 bit key and session key: the server encrypts to exactly that key, and the client recovers the session key"""
    keys = crypto(ctx)
    priv, b = call(C.create_keypair)
    sk = fresh_blob("session", n=32)
    enc = call(C.encrypt_session_key, b, sk)
    ctx.prove("session key header", same(payload(enc).getitem(slice(0, 12)), b"\x01\x02\x00\x00\x10f\x00\x00\x00\xa4\x00\x00"))
    ctx.prove("length", eqb(SInt(z3.IntVal(0) + payload(enc).zlen()), 268))
    got = call(C.decrypt_session_key, priv, enc)
    ctx.prove("session key", same(got, sk))


def exchange_contract(ctx):
    """create_keypair, encrypt_session_key and decrypt_session_key by what the two contracts above establish"""
    keys = crypto(ctx)

    def create(fn, a, k):
        key = Private.__new__(Private)
        keys.append(key)
        return key, fresh_blob("publickey", n=276, src=("pub", key))

    def encrypt(fn, a, k):
        b = whole(a[0])
        if b is None or not b.src or b.src[0] != "pub":
            raise ValueError("not a public key")
        return fresh_blob("sessionkey", n=268, src=("enc", b.src[1], payload(a[1])))

    def decrypt(fn, a, k):
        b = whole(a[1])
        if b is None or not b.src or b.src[0] != "enc" or b.src[1] is not a[0]:
            raise ValueError("Decryption failed")
        return b.src[2]
    RT.stub(C.create_keypair, create)
    RT.stub(C.encrypt_session_key, encrypt)
    RT.stub(C.decrypt_session_key, decrypt)
    return keys


def peers(ctx):
    keys = exchange_contract(ctx)
    wire(ctx)
    c, s = linked(ctx, key=False)
    for p in (c, s):
        p.their_capability = T.SessionCapability(PSVersion=T.PSVersion("2.0"), protocolversion=T.PSVersion("2.3"), SerializationVersion=T.PSVersion("1.1.0.1"))
    return keys, c, s


def both_ways(ctx, c, s):
    """each peer reads what the other encrypted"""
    pid = suuid("pid", nonzero=True)
    cp, sp = call(ClientPowerShell, c, pipeline_id=pid), call(ServerPipeline, s, pid)
    cp.state = sp.state = IS.Running
    c.pipeline_table[pid] = cp
    s.pipeline_table[pid] = sp
    x, y = text("x"), text("y")
    call(cp.send, call(T.PSSecureString, x))
    ev = xfer(c, s)
    ctx.prove("server reads", len(ev) == 1 and same(call(ev[0].data.decrypt), x))
    call(sp.write_output, call(T.PSSecureString, y))
    ev = xfer(s, c)
    ctx.prove("client reads", len(ev) == 1 and same(call(ev[0].data.decrypt), y))


ORDERS = {
    "client": "c",          # the client starts
    "server": "s",          # the server asks
    "crossing": "cs",       # both at once, before anything is delivered
    "crossing2": "sc",
    "repeated": "cc",
    "asked_twice": "ss",
}


def order(name, ops):
    def f(ctx):
        keys, c, s = peers(ctx)
        for o in ops:
            call(c.exchange_key if o == "c" else s.request_key)
        for i in range(3):
            xfer(s, c)
            xfer(c, s)
        xfer(s, c)
        ctx.prove("one key pair", len(keys) == 1)
        both_ways(ctx, c, s)
        for i in range(2):
            call(c.exchange_key)
            call(s.request_key)
            ctx.prove("not again (client)", call(c.data_to_send) is None)
            ctx.prove("not again (server)", call(s.data_to_send) is None)
        ctx.prove("still one key pair", len(keys) == 1)
    f.__doc__ = "exchange started by %s: one key pair, the same session key on both sides, no second exchange" % name
    contract("C13", name="exchange_" + name, budget=120)(f)


for _k, _v in ORDERS.items():
    order(_k, _v)


@contract("C13")
def at_most_once(ctx):
    """a pool that has started or answered the exchange never queues key messages again, in any state of its tables"""
    keys = exchange_contract(ctx)
    wire(ctx)
    side = "cs"[ctx.choose(2)]
    p = pool(ctx, side, state=RS.Opened, key=True)
    before = len(sent(p))
    call(p.exchange_key if side == "c" else p.request_key)
    ctx.prove("nothing queued", len(sent(p)) == before == 0)
    ctx.prove("no key pair", not keys)
