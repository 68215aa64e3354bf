"""C12 - C20: pools and pipelines driven through the public interface."""
import base64
import datetime
import collections
import random
import struct
import uuid

import psrpcore
from psrpcore import (
    ClientGetCommandMetadata, ClientHostResponder, ClientPowerShell, ClientRunspacePool, Command, InvalidPipelineState, InvalidProtocolVersion,
    InvalidRunspacePoolState, MissingCipherError, PSRPCoreError, PSRPPayload, ServerHostRequestor, ServerPipeline, ServerRunspacePool, StreamType,
    PSRemotingCrypto,
)
from psrpcore import types as T

from .common import (amount,
    Bad, NoCipher, bint, cps, need, opened, rand_uuid, rand_text, same, settle, spec_fragment, spec_message, spec_parse_fragments,
    spec_parse_message, transfer, uncps, utf16, with_key, chunks, td_ns,
)
from .graphs import graph, same_graph
import xml.etree.ElementTree as ET

RS = T.RunspacePoolState
IS = T.PSInvocationState
M = T.PSRPMessageType


def aes(key, data, enc):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    c = Cipher(algorithms.AES(key), modes.CBC(bytes(16)))
    c = c.encryptor() if enc else c.decryptor()
    return c.update(data) + c.finalize()


def seal(key, text):
    d = text.encode("utf-16-le", "surrogatepass")
    p = 16 - len(d) % 16
    return base64.b64encode(aes(key, d + bytes([p]) * p, True)).decode()


def values(rng, depth=3):
    return graph(rng, rng.randrange(1, depth + 1))


def messages_of(pool):
    """(type, pool id, pipeline id or None, body) of everything queued in the pool, taken off the pool."""
    out, part = [], {}
    while True:
        p = pool.data_to_send()
        if p is None:
            return out
        for oid, fid, end, data in spec_parse_fragments(p.data):
            part.setdefault(oid, []).append(data)
            if end:
                d, t, rp, pid, body = spec_parse_message(b"".join(part.pop(oid)))
                out.append((t, rp, pid if pid.int else None, body))


def feed(pool, mtype, rpid, pid, body, oid, from_client):
    pool.receive_data(PSRPPayload(spec_fragment(oid, 0, True, spec_message(from_client, int(mtype), rpid, pid, body)), StreamType.default, pid))
    out = []
    while True:
        e = pool.next_event()
        if e is None:
            return out
        out.append(e)


def new_pipe(c, s, no_start=False, **kw):
    cp = ClientPowerShell(c, **kw)
    cp.add_script("x")
    sp = ServerPipeline(s, cp.pipeline_id)
    if not no_start:
        cp.start()
        settle(c, s)
        sp.start()
        settle(c, s)
        need(cp.state == IS.Running and sp.state == IS.Running, "pipeline is not running after start")
    return cp, sp


# ------------------------------------------------------------------ C12
class C12:
    LENGTHS = [0, 1, 6, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 127, 500, 2048]
    _keys = {}

    @staticmethod
    def pair(kind):
        """(pool of the code, session key) with the key known to us because we play the other peer."""
        if kind in C12._keys:
            return C12._keys[kind]
        from cryptography.hazmat.primitives.asymmetric import rsa, padding
        if kind == "server":
            c, s = opened()
            priv = rsa.generate_private_key(65537, 2048)
            n = priv.public_key().public_numbers().n
            blob = b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1\x00\x08\x00\x00" + struct.pack("<I", 65537) + n.to_bytes(256, "little")
            o = T.serialize(T.PublicKey(PublicKey=base64.b64encode(blob).decode()), NoCipher())
            feed(s, M.PublicKey, c.runspace_pool_id, None, ET.tostring(o), 10 ** 6, True)
            ms = [m for m in messages_of(s) if m[0] == int(M.EncryptedSessionKey)]
            need(len(ms) == 1, "%d answers to one public key", len(ms))
            enc = T.deserialize(ET.fromstring(ms[0][3]), NoCipher()).EncryptedSessionKey
            enc = base64.b64decode(enc)
            need(enc[:12] == b"\x01\x02\x00\x00\x10\x66\x00\x00\x00\xa4\x00\x00", "header of the encrypted session key is %s", enc[:12].hex())
            need(len(enc) == 12 + 256, "encrypted session key has %d bytes", len(enc))
            key = priv.decrypt(enc[12:][::-1], padding.PKCS1v15())
            need(len(key) == 32, "session key has %d bytes", len(key))
            r = (s, key, c)
        else:
            c, s = opened()
            c.exchange_key()
            ms = [m for m in messages_of(c) if m[0] == int(M.PublicKey)]
            need(len(ms) == 1, "%d public keys sent", len(ms))
            blob = base64.b64decode(T.deserialize(ET.fromstring(ms[0][3]), NoCipher()).PublicKey)
            n = int.from_bytes(blob[20:], "little")
            e = struct.unpack("<I", blob[16:20])[0]
            key = bytes(range(7, 39))
            enc = rsa.RSAPublicNumbers(e, n).public_key().encrypt(key, padding.PKCS1v15())
            body = b"\x01\x02\x00\x00\x10\x66\x00\x00\x00\xa4\x00\x00" + enc[::-1]
            o = T.serialize(T.EncryptedSessionKey(EncryptedSessionKey=base64.b64encode(body).decode()), NoCipher())
            feed(c, M.EncryptedSessionKey, c.runspace_pool_id, None, ET.tostring(o), 10 ** 6, False)
            messages_of(c)
            r = (c, key, s)
        C12._keys[kind] = r
        return r

    @staticmethod
    def cases(rng, n):
        for l in C12.LENGTHS:
            for k in ("crypto", "client", "server"):
                yield dict(k=k, text=cps("p" * l), seed=l)
        for t in ("", "\x00", "\ud83d", "\ude00", "\U0001f600", "é中", "_x0041_", "<&>", "a\r\nb"):
            for k in ("crypto", "client", "server", "cred", "nested", "credtext", "credset"):
                yield dict(k=k, text=cps(t), seed=3)
        for w in ("send", "output", "hostcall", "hostresp", "appargs", "param", "event"):
            yield dict(k="nokey", where=w, text=cps("secret-%s" % w), seed=1)
        yield dict(k="cross", text=cps("abc"), seed=1)
        for _ in range(n):
            k = rng.choice(["crypto", "crypto", "client", "server", "cred", "credtext", "credset", "nested", "passthru", "nokeycrypto"])
            t = rand_text(rng, rng.choice([3, 12, 60]))
            yield dict(k=k, text=cps(t), seed=rng.getrandbits(32))

    @staticmethod
    def check(c):
        rng = random.Random(c["seed"])
        text = uncps(c["text"])
        k = c["k"]
        cred = k.startswith("cred")
        if k in ("crypto", "cred", "credtext", "credset", "nested", "passthru"):
            key = bytes(rng.getrandbits(8) for _ in range(32))
            p = PSRemotingCrypto()
            p.register_key(key)
            want = seal(key, text)
            ss = T.PSSecureString(text)
            if k == "passthru":
                ss = T.PSSecureString(want, p)
                v = ss
            elif cred:
                v = T.PSCredential(UserName="u", Password=ss if k == "cred" else text if k == "credtext" else "other")
                if k == "credset":
                    v.Password = text
                need(isinstance(v.Password, T.PSSecureString), "the password of a credential is a %s", type(v.Password).__name__)
            elif k == "nested":
                v = T.PSList([T.PSDict({"a": ss}), T.PSCustomObject(p=ss), ss])
            else:
                v = ss
            el = T.serialize(v, p)
            found = [e for e in el.iter("SS")]
            need(len(found) == (3 if k == "nested" else 1), "%d encrypted strings written", len(found))
            for e in found:
                need(e.text == want, "secure string %a is written as %a, its encryption is %a", text, e.text, want)
            back = T.deserialize(ET.fromstring(ET.tostring(el)), p)
            if cred:
                back = [back.Password]
                need(back[0] is not None, "no password")
            elif k == "nested":
                back = [back[0]["a"], back[1].p, back[2]]
            else:
                back = [back]
            for b in back:
                need(isinstance(b, T.PSSecureString), "secure string became %s", type(b).__name__)
                need(utf16(str.__str__(b.decrypt())) == utf16(text), "secure string %a decrypts to %a", text, b.decrypt())
                # passing the encrypted value on does not change it
                e2 = T.serialize(b, p)
                need(e2.tag == "SS" and e2.text == want, "encrypted value changed when passed on")
                e3 = T.serialize(b, NoCipher())
                need(e3.text == want, "encrypted value changed when passed on")
            need(utf16(str.__str__(T.PSSecureString(text).decrypt())) == utf16(text), "plain secure string does not give its text")
            other = PSRemotingCrypto()
            k2 = bytes([key[0] ^ 1]) + key[1:]
            other.register_key(k2)
            need(other.encrypt(text) == seal(k2, text), "encryption does not depend on the registered key")
            if k != "passthru":
                for e in T.serialize(v, other).iter("SS"):
                    need(e.text == seal(k2, text), "secure string sent under a second key is written as %a, its encryption is %a", e.text, seal(k2, text))
            # registering a key again replaces it
            p.register_key(k2)
            need(p.encrypt(text) == seal(k2, text) and utf16(p.decrypt(seal(k2, text))) == utf16(text), "a newly registered key is not used")
        elif k == "nokeycrypto":
            p = PSRemotingCrypto()
            for v in (T.PSSecureString(text), [1, T.PSSecureString(text)], T.PSCustomObject(a=T.PSSecureString(text))):
                try:
                    T.serialize(v, p)
                    raise Bad("secure string serialized without a key")
                except psrpcore.MissingCipherError:
                    pass
            try:
                p.decrypt(seal(bytes(32), text))
                raise Bad("decrypted without a key")
            except psrpcore.MissingCipherError:
                pass
        elif k == "nokey":
            secret = T.PSSecureString(text)
            w = c["where"]
            cl = ClientRunspacePool(**({"application_arguments": {"a": secret}} if w == "appargs" else {}))
            sv = ServerRunspacePool()
            if w == "appargs":
                try:
                    cl.open()
                    raise Bad("secure argument sent without a key")
                except psrpcore.MissingCipherError:
                    pass
                need(messages_of(cl) == [], "messages queued although the secret could not be sent")
                need(cl.state == RS.BeforeOpen, "pool that could not be opened is %s", cl.state)
                return
            cl.open()
            settle(cl, sv)
            cp, sp = new_pipe(cl, sv)
            if w in ("output", "hostcall", "event"):
                return  # the server always has a key
            n0 = messages_of(cl)
            need(n0 == [], "messages left")

            def act():
                if w == "send":
                    cp.send(secret)
                elif w == "param":
                    q = ClientPowerShell(cl)
                    q.add_command("c").add_parameter("p", secret)
                    try:
                        q.start()
                    finally:
                        need(q.state == IS.NotStarted, "pipeline that could not be sent is %s", q.state)
                else:
                    sp.host_call(T.HostMethodIdentifier.ReadLineAsSecureString)
                    ev = transfer(sv, cl)
                    cp.host_response(ev[0].ci, secret)
            try:
                act()
                raise Bad("secret accepted without a key in %s" % w)
            except psrpcore.MissingCipherError:
                pass
            need(messages_of(cl) == [], "rejected secret queued data")
            if w == "send":
                cp.send("ok")
                ev = transfer(cl, sv)
                need([type(e).__name__ for e in ev] == ["PipelineInputEvent"] and ev[0].data == "ok", "pool unusable after rejected secret")
        elif k == "cross":
            cl, sv = with_key(rng)
            cp, sp = new_pipe(cl, sv)
            sp.write_output(T.PSSecureString(text))
            ev = transfer(sv, cl)
            need(utf16(ev[0].data.decrypt()) == utf16(text), "client decrypts another text")
            cp.send(T.PSSecureString(text))
            ev = transfer(cl, sv)
            need(utf16(ev[0].data.decrypt()) == utf16(text), "server decrypts another text")
        else:
            pool, key, peer = C12.pair(k)
            pipe_id = uuid.uuid4()
            want = seal(key, text)
            if k == "server":
                sp = ServerPipeline(pool, pipe_id)
                sp.start()
                sp.write_output(T.PSSecureString(text))
                sp.complete()
                sp.close()
            else:
                cp = ClientPowerShell(pool, pipeline_id=pipe_id)
                cp.add_script("s")
                cp.start()
                cp.send(T.PSSecureString(text))
                cp.begin_stop()
                cp.close()
            ms = [m for m in messages_of(pool) if m[0] in (int(M.PipelineOutput), int(M.PipelineInput))]
            need(len(ms) == 1, "%d messages for one value", len(ms))
            el = ET.fromstring(ms[0][3])
            need(el.tag == "SS" and el.text == want, "secure string %a is sent as %a, its encryption is %a", text, el.text, want)


# ------------------------------------------------------------------ C13
class C13:
    _rsa = {}

    @staticmethod
    def cases(rng, n):
        yield dict(k="session", requests=["c"], seed=1)
        yield dict(k="session", requests=["s"], seed=2)
        yield dict(k="session", requests=["c", "c", "s", "settle", "s", "c"], seed=3)
        yield dict(k="session", requests=["s", "s", "c", "settle", "c"], seed=4)
        yield dict(k="session", requests=["s", "settle", "c", "settle", "s"], seed=5)
        yield dict(k="session", requests=["c", "settle", "s", "settle"], seed=6)
        for i in range(24):
            yield dict(k="serverkey", i=i)
        for i in range(700):
            yield dict(k="func", seed=i)
        for i in range(max(0, n // 10)):
            yield dict(k="session", requests=[rng.choice(["c", "s", "settle"]) for _ in range(rng.randrange(1, 8))] + ["c", "settle"], seed=rng.getrandbits(30))

    @staticmethod
    def keypair(e=65537):
        from cryptography.hazmat.primitives.asymmetric import rsa
        if e not in C13._rsa:
            C13._rsa[e] = rsa.generate_private_key(e, 2048)
        return C13._rsa[e]

    @staticmethod
    def check(c):
        from cryptography.hazmat.primitives.asymmetric import padding
        if c["k"] == "session":
            rng = random.Random(c["seed"])
            cl, sv = opened(rng)
            pub = enc = req = 0
            for r in c["requests"] + ["settle"]:
                if r == "c":
                    cl.exchange_key()
                elif r == "s":
                    sv.request_key()
                else:
                    a, b = settle(cl, sv, rng)
                    pub += sum(type(e).__name__ == "PublicKeyEvent" for e in b)
                    enc += sum(type(e).__name__ == "EncryptedSessionKeyEvent" for e in a)
                    req += sum(type(e).__name__ == "PublicKeyRequestEvent" for e in a)
            asked = any(r != "settle" for r in c["requests"])
            need(pub == enc == (1 if asked else 0), "%d public keys and %d session keys sent for %s", pub, enc, c["requests"])
            need(req <= 1, "%d key requests sent", req)
            if not asked:
                return
            cp, sp = new_pipe(cl, sv)
            for t in ("", "secret", "\ud83d\x00é"):
                sp.write_output(T.PSSecureString(t))
                cp.send(T.PSSecureString(t))
                a, b = settle(cl, sv, rng)
                need(utf16(a[0].data.decrypt()) == utf16(t) and utf16(b[0].data.decrypt()) == utf16(t), "peers do not share the key")
        elif c["k"] == "serverkey":
            # the server recovers exactly the key a client sends (several exponents), checked by decrypting its answer
            e = [65537, 3, 65537, 65537][c["i"] % 4]
            priv = C13.keypair(e)
            n = priv.public_key().public_numbers().n
            cl, sv = opened()
            blob = b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1\x00\x08\x00\x00" + struct.pack("<I", e) + n.to_bytes(256, "little")
            o = T.serialize(T.PublicKey(PublicKey=base64.b64encode(blob).decode()), NoCipher())
            sp = ServerPipeline(sv, uuid.uuid4())
            ev = feed(sv, M.PublicKey, cl.runspace_pool_id, None, ET.tostring(o), 10 ** 6, True)
            need(ev[0].key == blob, "public key event differs")
            ms = [m for m in messages_of(sv) if m[0] == int(M.EncryptedSessionKey)]
            need(len(ms) == 1, "no answer to the public key")
            enc = base64.b64decode(T.deserialize(ET.fromstring(ms[0][3]), NoCipher()).EncryptedSessionKey)
            need(enc[:12] == b"\x01\x02\x00\x00\x10\x66\x00\x00\x00\xa4\x00\x00" and len(enc) == 268, "layout of the encrypted session key")
            key = priv.decrypt(enc[12:][::-1], padding.PKCS1v15())
            sp.start()
            sp.write_output(T.PSSecureString("héllo"))
            ms = [m for m in messages_of(sv) if m[0] == int(M.PipelineOutput)]
            need(ET.fromstring(ms[0][3]).text == seal(key, "héllo"), "the key the server sent is not the one it uses")
        else:
            # the client decrypts whatever the documented layout carries: many keys, so that ciphertexts with leading zero bytes occur
            cl = C13.client()
            rng = random.Random(c["seed"])
            pool, blob, nums = cl
            n = int.from_bytes(blob[20:], "little")
            e = struct.unpack("<I", blob[16:20])[0]
            need(blob[:16] == b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1\x00\x08\x00\x00", "header of the public key blob is %s", blob[:16].hex())
            need(len(blob) == 276, "public key blob has %d bytes", len(blob))
            need(n.bit_length() == 2048 and n % 2 == 1 and e == 65537, "modulus or exponent are not those of a 2048 bit key")
            key = bytes(rng.getrandbits(8) for _ in range(32))
            ps = bytes(rng.randrange(1, 256) for _ in range(256 - 3 - 32))
            m = int.from_bytes(b"\x00\x02" + ps + b"\x00" + key, "big")
            enc = pow(m, e, n).to_bytes(256, "big")
            if c["seed"] % 2 and c["seed"] < 400:
                # search a ciphertext whose first or last byte is zero
                for _ in range(300):
                    if enc[0] == 0 or enc[-1] == 0:
                        break
                    ps = bytes(rng.randrange(1, 256) for _ in range(256 - 3 - 32))
                    m = int.from_bytes(b"\x00\x02" + ps + b"\x00" + key, "big")
                    enc = pow(m, e, n).to_bytes(256, "big")
            body = b"\x01\x02\x00\x00\x10\x66\x00\x00\x00\xa4\x00\x00" + enc[::-1]
            o = T.serialize(T.EncryptedSessionKey(EncryptedSessionKey=base64.b64encode(body).decode()), NoCipher())
            C13.oid += 1
            feed(pool, M.EncryptedSessionKey, pool.runspace_pool_id, None, ET.tostring(o), 10 ** 6 + C13.oid, False)
            cp = ClientPowerShell(pool)
            cp.add_script("s")
            cp.start()
            cp.send(T.PSSecureString("héllo"))
            cp.begin_stop()
            cp.close()
            ms = [x for x in messages_of(pool) if x[0] == int(M.PipelineInput)]
            need(ET.fromstring(ms[0][3]).text == seal(key, "héllo"), "the client does not use the key it was sent (ciphertext starts %s ends %s)", enc[:2].hex(), enc[-2:].hex())

    oid = 0
    _client = None

    @staticmethod
    def client():
        if C13._client is None:
            c, s = opened()
            c.exchange_key()
            ms = [m for m in messages_of(c) if m[0] == int(M.PublicKey)]
            need(len(ms) == 1, "%d public keys sent", len(ms))
            C13._client = (c, base64.b64decode(T.deserialize(ET.fromstring(ms[0][3]), NoCipher()).PublicKey), None)
        return C13._client


# ------------------------------------------------------------------ C14
RPID = uuid.UUID("11111111-2222-3333-4444-555555555555")
PID = uuid.UUID("aaaaaaaa-bbbb-cccc-dddd-eeeeeeeeeeee")
WHEN = T.PSDateTime(2020, 1, 2, 3, 4, 5)


def err(msg="boom"):
    return T.ErrorRecord(Exception=T.NETException(Message=msg), CategoryInfo=T.ErrorCategoryInfo())


class World:
    """A client and a server in given states, built the same way every time."""

    def __init__(self, side, state, pstate=None, version="2.3", peer=True):
        self.c = ClientRunspacePool(runspace_pool_id=RPID, min_runspaces=2, max_runspaces=5)
        self.s = ServerRunspacePool()
        self.cp = self.sp = None
        self.ci = None
        c, s = self.c, self.s
        v = T.PSVersion(version)
        c.our_capability.protocolversion = v
        s.our_capability.protocolversion = v
        state = RS[state] if isinstance(state, str) else state
        early = state in (RS.BeforeOpen, RS.Opening)
        if state != RS.BeforeOpen:
            c.open()
            if state == RS.Opening:
                p = c.data_to_send(100)
                if side == "s":
                    s.receive_data(p)
            else:
                settle(c, s)
        if not early:
            self.cp = ClientPowerShell(c, pipeline_id=PID)
            self.cp.add_script("x")
            self.sp = ServerPipeline(s, PID)
            self.cp.start()
            settle(c, s)
            self.sp.start()
            self.ci = self.sp.host_call(T.HostMethodIdentifier.ReadLine)
            self.rci = s.host_call(T.HostMethodIdentifier.GetName)
            settle(c, s)
            if pstate is not None:
                self.pipe_to(IS[pstate] if isinstance(pstate, str) else pstate)
            else:
                self.cp.begin_stop()
                self.cp.close()
                self.sp.stop()
                self.sp.close()
                while s.data_to_send() is not None:
                    pass
        me = c if side == "c" else s
        if state == RS.Closing:
            me.begin_close()
        elif state == RS.Closed:
            me.begin_close() if pstate is not None else me.close()
            if pstate is not None:
                me.state = RS.Closed
        elif state == RS.Broken:
            if side == "c":
                s.set_broken(err())
                settle(c, s)
            else:
                me.set_broken(err())
        elif state == RS.Disconnecting:
            me.begin_disconnect()
        elif state == RS.Disconnected:
            me.disconnect()
        elif state == RS.Connecting:
            me.disconnect()
            me.connect()
        self.me = me
        need(me.state == state, "cannot bring the pool to %s, it is %s", state, me.state)
        while c.data_to_send() is not None or s.data_to_send() is not None:
            pass

    def pipe_to(self, st):
        c, s = self.c, self.s
        if st == IS.Running:
            return
        if st == IS.NotStarted:
            self.cp.state = st
            self.sp.state = st
        elif st == IS.Stopping:
            self.cp.begin_stop()
            self.sp.begin_stop()
            settle(c, s)
            self.cp.state = IS.Stopping
        elif st == IS.Stopped:
            self.sp.stop()
            settle(c, s)
        elif st == IS.Completed:
            self.sp.complete()
            settle(c, s)
        else:
            self.cp.state = st
            self.sp.state = st
        need(self.cp.state == st and self.sp.state == st, "cannot bring the pipelines to %s, they are %s and %s", st, self.cp.state, self.sp.state)

    def observe(self):
        out = []
        for p in (self.c, self.s):
            out.append((p.state, p.min_runspaces, p.max_runspaces, p.runspace_pool_id, sorted(map(str, p.pipeline_table)),
                        [x.state for x in p.pipeline_table.values()]))
        out.append((self.cp and self.cp.state, self.sp and self.sp.state))
        data = []
        for p in (self.c, self.s):
            while True:
                d = p.data_to_send()
                if d is None:
                    break
                data.append((d.data, d.stream_type, d.pipeline_id))
        out.append(data)
        return out

    def after(self):
        """What later operations give: call ids, object ids, pending calls."""
        out = []
        for p in (self.c, self.s):
            p.state = RS.Opened
        if self.cp:
            self.cp.state = self.sp.state = IS.Running
        out.append(self.c.get_available_runspaces())
        out.append(self.c.set_max_runspaces(77))
        out.append(self.s.host_call(T.HostMethodIdentifier.GetName))
        if self.ci is not None and PID in self.c.pipeline_table:
            self.c.host_response(self.ci, "x")
        if self.ci is not None:
            self.c.host_response(self.rci, "x")
        out.append(self.observe()[-1])
        for f, p in ((self.s.request_key, self.s), (self.c.exchange_key, self.c)):
            f()
            out.append(p.data_to_send() is not None)
        return out


CLIENT_POOL = {
    "open": (lambda w: w.c.open(), ["BeforeOpen"], ["Opened"]),
    "connect": (lambda w: w.c.connect(), ["BeforeOpen", "Disconnected"], ["Opened"]),
    "get_available_runspaces": (lambda w: w.c.get_available_runspaces(), ["Opened"], []),
    "exchange_key": (lambda w: w.c.exchange_key(), ["Opened"], []),
    "host_response": (lambda w: w.c.host_response(w.rci if w.ci is not None else 1, "x"), ["Opened"], []),
    "host_response_error": (lambda w: w.c.host_response(w.rci if w.ci is not None else 1, error_record=err()), ["Opened"], []),
    "reset_runspace_state": (lambda w: w.c.reset_runspace_state(), ["Opened"], []),
    "close": (lambda w: w.c.close(), ["Opened", "Closing", "Closed"], []),
    "disconnect": (lambda w: w.c.disconnect(), ["Opened", "Disconnecting", "Disconnected"], []),
    "reconnect": (lambda w: w.c.reconnect(), ["Opened", "Disconnected"], []),
}
SERVER_POOL = {
    "connect": (lambda w: w.s.connect(), ["Disconnected"], ["Opened"]),
    "send_event": (lambda w: w.s.send_event(1, "s", time_generated=WHEN, computer="c"), ["Opened"], []),
    "set_broken": (lambda w: w.s.set_broken(err()), ["Opened", "Broken"], []),
    "host_call": (lambda w: w.s.host_call(T.HostMethodIdentifier.ReadLine), ["Opened"], []),
    "host_call_void": (lambda w: w.s.host_call(T.HostMethodIdentifier.Write1, ["x"]), ["Opened"], []),
    "request_key": (lambda w: w.s.request_key(), ["Opened"], []),
    "close": (lambda w: w.s.close(), ["Opened", "Closing", "Closed"], []),
    "disconnect": (lambda w: w.s.disconnect(), ["Opened", "Disconnecting", "Disconnected"], []),
    "reconnect": (lambda w: w.s.reconnect(), ["Opened", "Disconnected"], []),
}
START = ["NotStarted", "Stopped", "Completed"]
CLOSE = ["NotStarted", "Stopped", "Stopping", "Completed", "Failed"]
CLIENT_PIPE = {
    "start": (lambda w: w.cp.start(), START, []),
    "send": (lambda w: w.cp.send("x"), ["Running"], []),
    "send_eof": (lambda w: w.cp.send_eof(), ["Running"], []),
    "host_response": (lambda w: w.cp.host_response(w.ci, "x"), ["Running"], []),
    "begin_stop": (lambda w: w.cp.begin_stop(), ["Running", "Stopping"], []),
    "close": (lambda w: w.cp.close(), CLOSE, []),
}
SERVER_PIPE = {
    "start": (lambda w: w.sp.start(), START, []),
    "stop": (lambda w: w.sp.stop(), ["Running", "Stopping"], ["Stopped"]),
    "begin_stop": (lambda w: w.sp.begin_stop(), ["Running", "Stopping"], []),
    "close": (lambda w: w.sp.close(), CLOSE, []),
    "host_call": (lambda w: w.sp.host_call(T.HostMethodIdentifier.ReadLine), ["Running"], []),
    "host_call_void": (lambda w: w.sp.host_call(T.HostMethodIdentifier.Write1, ["x"]), ["Running"], []),
    "write_output": (lambda w: w.sp.write_output("x"), ["Running"], []),
    "write_output_none": (lambda w: w.sp.write_output(None), ["Running"], []),
    "write_error": (lambda w: w.sp.write_error(T.NETException(Message="m")), ["Running"], []),
    "write_debug": (lambda w: w.sp.write_debug("x"), ["Running"], []),
    "write_verbose": (lambda w: w.sp.write_verbose("x"), ["Running"], []),
    "write_warning": (lambda w: w.sp.write_warning("x"), ["Running"], []),
    "write_progress": (lambda w: w.sp.write_progress("a", 1, "s"), ["Running"], []),
    "write_information": (lambda w: w.sp.write_information("m", "s", time_generated=WHEN, user="u", computer="c", process_id=1, native_thread_id=2), ["Running"], []),
}
POOL_AFTER = {  # state after an accepted call, None: unchanged
    ("c", "open"): "Opening", ("c", "connect"): "Connecting", ("c", "close"): "Closed", ("c", "disconnect"): "Disconnected", ("c", "reconnect"): "Opened",
    ("s", "connect"): "Connecting", ("s", "set_broken"): "Broken", ("s", "close"): "Closed", ("s", "disconnect"): "Disconnected", ("s", "reconnect"): "Opened",
}
PIPE_AFTER = {"start": "Running", "stop": "Stopped", "begin_stop": "Stopping"}
VERSIONED = {("c", "reset_runspace_state"), ("s", "write_information")}
VERSIONS = ["1.0", "2.0", "2.1", "2.2", "2.3", "2.4", "10.0", "2.2.9", "2.3.0", "2.10"]


def vt(v):
    return tuple(int(x) for x in v.split("."))


class C14:
    @staticmethod
    def cases(rng, n):
        for side, table in (("c", CLIENT_POOL), ("s", SERVER_POOL)):
            for st in RS:
                for op in table:
                    yield dict(side=side, state=st.name, op=op)
        for side, table in (("c", CLIENT_PIPE), ("s", SERVER_PIPE)):
            for st in IS:
                for op in table:
                    yield dict(side=side, pstate=st.name, op=op)
        for st in RS:
            if st not in (RS.BeforeOpen, RS.Opening):
                for side, op in (("c", "host_response"), ("s", "host_call"), ("s", "host_call_void")):
                    yield dict(side=side, state=st.name, pstate="Running", op=op, both=1)
        for v in VERSIONS:
            yield dict(side="c", state="Opened", op="reset_runspace_state", version=v)
            yield dict(side="c", state="Disconnected", op="reset_runspace_state", version=v)
            for ps in ("Running", "Completed"):
                yield dict(side="s", pstate=ps, op="write_information", version=v)
        for st in RS:
            yield dict(tables=st.name)
        yield dict(badanswer=1)

    @staticmethod
    def check(c):
        if "tables" in c:
            return C14.tables(c["tables"])
        if "badanswer" in c:
            return C14.bad_answer()
        kw = dict(side=c["side"], state=c.get("state", "Opened"), pstate=c.get("pstate"), version=c.get("version", "2.3"))
        a, b = World(**kw), World(**kw)
        if c["op"].startswith("host_response") and "both" not in c and a.ci is None and kw["state"] == "Opened":
            return
        pipe = "pstate" in c
        table = {("c", False): CLIENT_POOL, ("s", False): SERVER_POOL, ("c", True): CLIENT_PIPE, ("s", True): SERVER_PIPE}[c["side"], pipe]
        fn, allowed, noop = table[c["op"]]
        st = c["pstate"] if pipe else kw["state"]
        if "both" in c:
            st, allowed = kw["state"], ["Opened"]
            pipe = False
        newer = (c["side"], c["op"]) in VERSIONED
        known = kw["state"] not in ("BeforeOpen", "Opening")
        version_ok = not newer or (known and vt(kw["version"]) >= (2, 3))
        if "pstate" in c and newer:
            version_ok = vt(kw["version"]) >= (2, 3)
        if newer and kw["state"] in ("BeforeOpen", "Opening"):
            version_ok = False
        accept = version_ok and (st in allowed or st in noop)
        if accept:
            fn(a)
            oa = a.observe()
            if st in noop and st not in allowed:
                need(oa == b.observe(), "%s in state %s changed something", c["op"], st)
                return
            me = (a.cp if c["side"] == "c" else a.sp) if pipe else a.me
            want = (PIPE_AFTER.get(c["op"]) if pipe else POOL_AFTER.get((c["side"], c["op"])))
            want = want or (st if pipe or "both" in c else kw["state"])
            need(me.state.name == want, "state after %s in %s is %s", c["op"], st, me.state)
            return
        try:
            fn(a)
        except InvalidProtocolVersion as e:
            need(not version_ok, "%s refused for its version although the peer has %s", c["op"], kw["version"])
            need(e.required_version == T.PSVersion("2.3"), "required version is %s", e.required_version)
            cur = T.PSVersion(kw["version"]) if known else T.PSVersion("2.0")
            need(e.current_version == cur, "current version in the error is %s, not %s", e.current_version, cur)
        except (InvalidRunspacePoolState, InvalidPipelineState) as e:
            need(version_ok, "%s refused for the state, not the version", c["op"])
            need(isinstance(e, InvalidPipelineState if pipe else InvalidRunspacePoolState), "%s raised %s", c["op"], type(e).__name__)
            me = (a.cp if c["side"] == "c" else a.sp) if pipe else a.me
            enum_type = IS if pipe else RS
            need(e.current_state == enum_type[st], "error names state %s, the state is %s", e.current_state, st)
            need("current state is %s" % enum_type[st] in str(e), "message %r does not name the state %s", str(e), st)
            for x in e.expected_states:
                need(isinstance(x, enum_type), "expected state %r", x)
                need(x.name in allowed or x.name in noop, "error names %s as an allowed state", x)
        else:
            raise Bad("%s accepted in state %s (version %s)" % (c["op"], st, kw["version"]))
        oa, ob = a.observe(), b.observe()
        need(oa == ob, "%s rejected in %s changed %s", c["op"], st, [(x, y) for x, y in zip(oa, ob) if x != y])
        try:
            fn(a)
        except (InvalidRunspacePoolState, InvalidPipelineState, InvalidProtocolVersion):
            pass
        else:
            raise Bad("%s rejected in %s is accepted when it is tried again" % (c["op"], st))
        fa, fb = a.after(), b.after()
        need(fa == fb, "%s rejected in %s changed later operations: %s", c["op"], st, [(x, y) for x, y in zip(fa, fb) if x != y])

    @staticmethod
    def tables(state):
        """A pool with pipelines refuses to close and keeps them."""
        if state in ("BeforeOpen", "Opening"):
            return
        for side in "cs":
            a, b = World(side, state, "Running"), World(side, state, "Running")
            try:
                a.me.close()
                raise Bad("pool closed with pipelines in state %s" % state)
            except PSRPCoreError:
                pass
            need(a.observe() == b.observe(), "rejected close changed something")
            need(PID in a.me.pipeline_table, "pipeline forgotten")

    @staticmethod
    def bad_answer():
        c, s = opened()
        for mk, bad, good in ((lambda: c.set_max_runspaces(9), [5, "x", None, 1], True), (lambda: c.get_available_runspaces(), ["x", None, 1.5], 3),
                              (lambda: c.set_min_runspaces(0), [0, 2], False), (lambda: c.reset_runspace_state(), [1, "a"], True)):
            ci = mk()
            settle(c, s)
            lim = (s.min_runspaces, s.max_runspaces)
            for r in bad:
                try:
                    s.runspace_availability_response(ci, r)
                    raise Bad("answer %r accepted" % (r,))
                except PSRPCoreError:
                    pass
                need(messages_of(s) == [] and (s.min_runspaces, s.max_runspaces) == lim, "rejected answer changed something")
            try:
                s.runspace_availability_response(ci + 1000, good)
                raise Bad("answer to a request never made accepted")
            except PSRPCoreError:
                pass
            s.runspace_availability_response(ci, good)
            need(len(messages_of(s)) == 1, "valid answer is not sent after rejected ones")


# ------------------------------------------------------------------ C15
def rand_host(rng):
    if rng.random() < 0.3:
        return None
    kw = {k: rng.random() < 0.5 for k in ("IsHostNull", "IsHostUINull", "IsHostRawUINull", "UseRunspaceHost")}
    if rng.random() < 0.6:
        i = lambda: bint(rng, -2 ** 31, 2 ** 31 - 1)
        co = lambda: T.Coordinates(X=i(), Y=i())
        sz = lambda: T.Size(Width=i(), Height=i())
        kw["HostDefaultData"] = T.HostDefaultData(
            ForegroundColor=rng.choice(list(T.ConsoleColor)), BackgroundColor=rng.choice(list(T.ConsoleColor)), CursorPosition=co(), WindowPosition=co(),
            CursorSize=i(), BufferSize=sz(), WindowSize=sz(), MaxWindowSize=sz(), MaxPhysicalWindowSize=sz(), WindowTitle=rand_text(rng))
    return T.HostInfo(**kw)


def same_host(a, b, path="host"):
    a = a or T.HostInfo()
    for k in ("IsHostNull", "IsHostUINull", "IsHostRawUINull", "UseRunspaceHost"):
        need(getattr(a, k) == getattr(b, k), "%s.%s: %r became %r", path, k, getattr(a, k), getattr(b, k))
    d, e = a.HostDefaultData, b.HostDefaultData
    need((d is None) == (e is None), "%s default data: %r became %r", path, d, e)
    if d is not None:
        for k in ("ForegroundColor", "BackgroundColor", "CursorSize"):
            need(getattr(d, k) == getattr(e, k) and type(getattr(d, k)) is type(getattr(e, k)), "%s.%s: %r became %r", path, k, getattr(d, k), getattr(e, k))
        for k in ("CursorPosition", "WindowPosition"):
            x, y = getattr(d, k), getattr(e, k)
            need((x.X, x.Y) == (y.X, y.Y), "%s.%s: %r became %r", path, k, (x.X, x.Y), (y.X, y.Y))
        for k in ("BufferSize", "WindowSize", "MaxWindowSize", "MaxPhysicalWindowSize"):
            x, y = getattr(d, k), getattr(e, k)
            need((x.Width, x.Height) == (y.Width, y.Height), "%s.%s: %r became %r", path, k, (x.Width, x.Height), (y.Width, y.Height))
        need(utf16(d.WindowTitle) == utf16(e.WindowTitle), "%s.WindowTitle: %a became %a", path, d.WindowTitle, e.WindowTitle)


def same_dict(a, b, what):
    need(len(a) == len(b), "%s has %d entries, not %d", what, len(b), len(a))
    same_graph(T.PSList([T.PSDict(a)]), T.PSList([T.PSDict(b)]), what) if not isinstance(b, T.PSDict) else None
    for (k, x), (k2, y) in zip(a.items(), b.items()):
        same(k, k2, what + ".key")
        same_graph(x, y, "%s[%a]" % (what, k))


def rand_dict(rng):
    d = {}
    for _ in range(rng.randrange(0, 4)):
        d[rand_text(rng, 5, plain=True) + str(len(d))] = rng.choice([1, "a", None, True, [1, 2], {"x": 1}, T.PSVersion("1.2"), 2 ** 40, rand_text(rng)])
    return d


class C15:
    @staticmethod
    def cases(rng, n):
        for a in T.ApartmentState:
            for t in T.PSThreadOptions:
                yield dict(seed=rng.getrandbits(32), apt=a.name, thr=t.name)
        for lims in ((0, 0), (1, 1), (0, 1), (-1, 5), (5, 2), (2 ** 31 - 1, 2 ** 31 - 1), (-2 ** 31, 0)):
            yield dict(seed=rng.getrandbits(32), lims=lims)
        for r in [0, 1, 2, 3, 4, 5] + [2, 3] * 8:
            yield dict(reconnect=r, seed=rng.getrandbits(32))
        for _ in range(4):
            yield dict(wrong=1, seed=rng.getrandbits(32))
        for v in VERSIONS:
            yield dict(seed=rng.getrandbits(32), cv=v, sv=rng.choice(VERSIONS))
        for _ in range(n):
            k = rng.randrange(5)
            c = dict(seed=rng.getrandbits(32))
            if k == 0:
                c["reconnect"] = rng.randrange(6)
            elif k == 1:
                c.update(cv=rng.choice(VERSIONS), sv=rng.choice(VERSIONS))
            elif k == 2:
                c["wrong"] = 1
            yield c

    @staticmethod
    def check(case):
        rng = random.Random(case["seed"])
        lims = case.get("lims") or (bint(rng, 1, 2 ** 31 - 1), bint(rng, 1, 2 ** 31 - 1))
        apt = T.ApartmentState[case["apt"]] if "apt" in case else rng.choice(list(T.ApartmentState))
        thr = T.PSThreadOptions[case["thr"]] if "thr" in case else rng.choice(list(T.PSThreadOptions))
        host = rand_host(rng)
        args, priv = rand_dict(rng), rand_dict(rng)
        rpid = rand_uuid(rng)
        if rpid.int == 0:
            rpid = uuid.UUID(int=1)
        c = ClientRunspacePool(application_arguments=args, apartment_state=apt, host=host, thread_options=thr, min_runspaces=lims[0], max_runspaces=lims[1], runspace_pool_id=rpid)
        table = rng.choice([None, {}, {"K": 1, "PSRemotingProtocolVersion": T.PSVersion("9.8")}, {"PSVersion": "7", "SerializationVersion": "x"}, 5, "none"])
        if table is not None:
            priv["PSVersionTable"] = table
        s = ServerRunspacePool(application_private_data={k: dict(v) if type(v) is dict else v for k, v in priv.items()})
        if isinstance(table, dict):
            priv["PSVersionTable"] = dict(table)
            priv["PSVersionTable"].setdefault("PSRemotingProtocolVersion", s.our_capability.protocolversion)
            priv["PSVersionTable"].setdefault("SerializationVersion", s.our_capability.SerializationVersion)
        if "cv" in case:
            c.our_capability.protocolversion = T.PSVersion(case["cv"])
            s.our_capability.protocolversion = T.PSVersion(case["sv"])
        need(c.state == RS.BeforeOpen and s.state == RS.BeforeOpen, "new pools are not before open")
        c.open()
        ec, es = settle(c, s, rng)
        need([type(e).__name__ for e in es] == ["SessionCapabilityEvent", "InitRunspacePoolEvent"], "server saw %s", es)
        need([type(e).__name__ for e in ec] == ["SessionCapabilityEvent", "ApplicationPrivateDataEvent", "RunspacePoolStateEvent"], "client saw %s", ec)

        def all_good(what, sees_caps=True):
            need(c.state == RS.Opened and s.state == RS.Opened, "%s: states are %s and %s", what, c.state, s.state)
            need(c.runspace_pool_id == rpid == s.runspace_pool_id, "%s: pool ids differ", what)
            need((c.min_runspaces, c.max_runspaces) == (s.min_runspaces, s.max_runspaces) == tuple(lims), "%s: limits %s became %s, client %s", what, lims, (s.min_runspaces, s.max_runspaces), (c.min_runspaces, c.max_runspaces))
            for f in ("PSVersion", "protocolversion", "SerializationVersion"):
                if sees_caps:
                    need(getattr(c.their_capability, f) == getattr(s.our_capability, f), "%s: client sees %s %s", what, f, getattr(c.their_capability, f))
                need(getattr(s.their_capability, f) == getattr(c.our_capability, f), "%s: server sees %s %s", what, f, getattr(s.their_capability, f))
            for k, v in priv.items():
                need(k in c.application_private_data, "%s: private data %a missing", what, k)
            same_dict(s.application_private_data, c.application_private_data, "private data")
        all_good("open")
        need(s.apartment_state == apt and type(s.apartment_state) is T.ApartmentState, "apartment state %s became %s", apt, s.apartment_state)
        need(s.thread_options == thr and type(s.thread_options) is T.PSThreadOptions, "thread options %s became %s", thr, s.thread_options)
        same_host(host, s.host)
        same_dict(args, s.application_arguments, "application arguments")
        for k, v in priv.items():
            same_graph(v, c.application_private_data[k], "private data %a" % k)
        if "wrong" in case:
            s.disconnect()
            s.connect()
            x = ClientRunspacePool(runspace_pool_id=uuid.UUID(int=rpid.int ^ (1 << rng.randrange(128))))
            x.connect()
            try:
                transfer(x, s, rng)
                raise Bad("connection for another pool accepted")
            except PSRPCoreError:
                pass
            need(s.state == RS.Connecting and s.runspace_pool_id == rpid, "refused connection changed the pool to %s", s.state)
            return
        if "reconnect" in case:
            r = case["reconnect"]
            if r % 2:
                c.set_max_runspaces(lims[1] - 1 if lims[1] > 1 else 9)
                settle(c, s, rng)
                s.runspace_availability_response(1, True)
                settle(c, s, rng)
                lims = (lims[0], s.max_runspaces)
            c.disconnect()
            s.disconnect()
            need(messages_of(c) == [] and messages_of(s) == [], "disconnecting queues messages")
            if r in (0, 1):
                c.reconnect()
                s.reconnect()
                settle(c, s, rng)
                all_good("reconnect")
                return
            fresh = r in (2, 3)
            if fresh:
                c = ClientRunspacePool(runspace_pool_id=rpid)
            else:  # the server's private data is another than the client knows from before
                for k in list(priv)[:1]:
                    if k != "PSVersionTable":
                        del priv[k], s.application_private_data[k]
                priv["added"] = s.application_private_data["added"] = "later"
            s.connect()
            ask = rng.randrange(8)
            if fresh and ask < 4:  # a client that asks for limits when it connects
                c.state = RS.Connecting
                c.prepare_message(c.our_capability)
                kw = {}
                if ask & 1:
                    kw["MinRunspaces"] = bint(rng, 1, 2 ** 31 - 1)
                if ask & 2:
                    kw["MaxRunspaces"] = bint(rng, 1, 2 ** 31 - 1)
                c.prepare_message(T.ConnectRunspacePool(**kw))
                lims = (kw.get("MinRunspaces", lims[0]), kw.get("MaxRunspaces", lims[1]))
            else:
                c.connect()
            need(c.state == RS.Connecting and s.state == RS.Connecting, "pools are %s and %s", c.state, s.state)
            settle(c, s, rng)
            all_good("connect", sees_caps=not fresh)
            ci = c.get_available_runspaces()
            settle(c, s, rng)
            s.runspace_availability_response(ci, 4)
            ev, _ = settle(c, s, rng)
            need(len(ev) == 1 and ev[0].count == 4, "pool unusable after connecting")


# ------------------------------------------------------------------ C16
class C16:
    @staticmethod
    def cases(rng, n):
        for _ in range(n):
            yield dict(seed=rng.getrandbits(40), steps=rng.choice([5, 12, 30]) if rng.random() > 0.02 else 400)
        for m in T.HostMethodIdentifier:
            yield dict(method=m.name)

    @staticmethod
    def one_method(m):
        c, s = opened()
        cp, sp = new_pipe(c, s)
        void = m.name not in ("GetName GetVersion GetInstanceId GetCurrentCulture GetCurrentUICulture ReadLine ReadLineAsSecureString Prompt PromptForCredential1 "
                              "PromptForCredential2 PromptForChoice GetForegroundColor GetBackgroundColor GetCursorPosition GetWindowPosition GetCursorSize "
                              "GetBufferSize GetWindowSize GetWindowTitle GetMaxWindowSize GetMaxPhysicalWindowSize GetKeyAvailable ReadKey GetBufferContents "
                              "GetIsRunspacePushed GetRunspace PromptForChoiceMultipleSelection").split()
        used = set()
        for tgt in (s, sp, s, sp):
            ci = tgt.host_call(m)
            if void:
                need(ci == -100, "call of %s without a result has id %s", m, ci)
            else:
                need(ci != -100 and ci not in used, "call id %s of %s is not unique", ci, m)
                used.add(ci)
            ms = s.data_to_send()
            c.receive_data(ms)
            ev = c.next_event()
            need(ev.ci == ci and ev.method_identifier == m, "call arrived as %s %s", ev.ci, ev.method_identifier)
            need(ev.pipeline_id == (PID_of(cp) if tgt is sp else None), "call for another target")
            if void:
                try:
                    c.host_response(ci, "x")
                    raise Bad("call without a result answered")
                except (KeyError, PSRPCoreError):
                    pass
                need(c.data_to_send() is None, "answer of a call without a result queued")

    @staticmethod
    def check(case):
        if "method" in case:
            return C16.one_method(T.HostMethodIdentifier[case["method"]])
        rng = random.Random(case["seed"])
        c, s = opened(None, dict(min_runspaces=1, max_runspaces=3))
        pipes = [new_pipe(c, s) for _ in range(2)]
        lim = {"min": 1, "max": 3}
        used_c, used_s = set(), set()
        pend = {}   # ci -> (kind, value) not answered by the server
        calls = {}  # ci -> (method, pipeline index or None) not answered by the client
        void_m = [T.HostMethodIdentifier.Write1, T.HostMethodIdentifier.SetWindowTitle]
        val_m = [T.HostMethodIdentifier.GetName, T.HostMethodIdentifier.ReadLine, T.HostMethodIdentifier.GetCursorSize]
        gone, answers = set(), []
        for _ in range(case["steps"]):
            k = rng.randrange(9)
            if calls and len(gone) < 2 and rng.random() < 0.04:
                # the client is done with the pipeline before the answer is there
                t = rng.choice([t for t in (0, 1) if t not in gone])
                pipes[t][0].begin_stop()
                pipes[t][0].close()
                gone.add(t)
            if k in (0, 1, 2):
                kind = rng.choice(["min", "max", "get", "reset", "min", "max"])
                v = rng.choice([2, 4, 5, 9, lim.get(kind, 1)])
                ci = {"min": c.set_min_runspaces, "max": c.set_max_runspaces, "get": lambda _: c.get_available_runspaces(), "reset": lambda _: c.reset_runspace_state()}[kind](v)
                if kind in lim and v == lim[kind]:
                    need(ci is None, "request for the limit that is set")
                    need(c.data_to_send() is None, "message for the limit that is set")
                    continue
                need(ci is not None and ci not in used_c, "call id %s reused", ci)
                used_c.add(ci)
                ev = transfer(c, s)
                need(len(ev) == 1 and ev[0].ci == ci, "request %s arrived as %s", ci, ev)
                want = {"min": "SetMinRunspacesEvent", "max": "SetMaxRunspacesEvent", "get": "GetAvailableRunspacesEvent", "reset": "ResetRunspaceStateEvent"}[kind]
                need(type(ev[0]).__name__ == want, "request %s arrived as %s", kind, type(ev[0]).__name__)
                if kind in lim:
                    need(ev[0].count == v, "request for %d arrived as %d", v, ev[0].count)
                pend[ci] = (kind, v)
            elif k in (3, 4) and pend:
                ci = rng.choice(sorted(pend))
                kind, v = pend.pop(ci)
                ans = rng.choice([True, False]) if kind != "get" else rng.choice([0, 1, 7, 2 ** 40])
                before = dict(lim)
                s.runspace_availability_response(ci, ans)
                if kind in lim and ans is True:
                    lim[kind] = v
                need((s.min_runspaces, s.max_runspaces) == (lim["min"], lim["max"]), "server limits are %s, should be %s", (s.min_runspaces, s.max_runspaces), lim)
                need((c.min_runspaces, c.max_runspaces) == (before["min"], before["max"]), "client limits changed before the answer arrived")
                raw = s.data_to_send()
                c.receive_data(raw)
                ev = [c.next_event()]
                need(s.data_to_send() is None and c.next_event() is None, "more than one answer to %s", ci)
                need(ev[0] is not None and ev[0].ci == ci, "answer to %s arrived as %s", ci, ev)
                answers.append(raw)
                need((ev[0].count == ans) if kind == "get" else (ev[0].success is ans), "answer %r arrived as %r", ans, ev[0])
                need((c.min_runspaces, c.max_runspaces) == (lim["min"], lim["max"]), "client limits are %s, should be %s", (c.min_runspaces, c.max_runspaces), lim)
                try:
                    s.runspace_availability_response(ci, ans)
                    raise Bad("request answered twice")
                except PSRPCoreError:
                    pass
                need(s.data_to_send() is None, "second answer queued")
                if rng.random() < 0.3:
                    # an answer that was delivered before says nothing about the limits of today
                    c.receive_data(rng.choice(answers))
                    try:
                        c.next_event()
                    except (KeyError, PSRPCoreError):
                        pass
                    need((c.min_runspaces, c.max_runspaces) == (lim["min"], lim["max"]), "client limits are %s after an old answer, should be %s", (c.min_runspaces, c.max_runspaces), lim)
            elif k in (5, 6):
                void = rng.random() < 0.3
                m = rng.choice(void_m if void else val_m)
                t = rng.choice([None] + [i for i in (0, 1) if i not in gone])
                ci = (s if t is None else pipes[t][1]).host_call(m, ["x"] if void else None)
                if void:
                    need(ci == -100, "call without a result has id %s", ci)
                else:
                    need(ci != -100 and ci not in used_s, "call id %s reused", ci)
                    used_s.add(ci)
                    calls[ci] = (m, t)
                ev = transfer(s, c)
                need(len(ev) == 1 and ev[0].ci == ci and ev[0].method_identifier == m, "call arrived as %s", ev)
                need(ev[0].pipeline_id == (None if t is None else pipes[t][0].pipeline_id), "call arrived for %s", ev[0].pipeline_id)
            elif k in (7, 8) and calls:
                ci = rng.choice(sorted(calls))
                m, t = calls.pop(ci)
                val = rng.choice(["r", 5, None, ""])
                via = c if t is None or t in gone or rng.random() < 0.4 else pipes[t][0]
                if rng.random() < 0.2:
                    try:
                        via.host_response(ci, T.PSSecureString("no key yet"))
                        raise Bad("harness: a secure string without a key was accepted")
                    except psrpcore.MissingCipherError:
                        pass
                    need(c.data_to_send() is None, "an answer that cannot be serialized queued data")
                via.host_response(ci, val)
                p = c.data_to_send()
                need(p.pipeline_id == (None if t is None else pipes[t][0].pipeline_id) and p.stream_type == StreamType.prompt_response, "answer sent for %s", p.pipeline_id)
                s.receive_data(p)
                ev = s.next_event()
                need(type(ev).__name__ == ("RunspacePoolHostResponseEvent" if t is None else "PipelineHostResponseEvent"), "answer arrived as %s", type(ev).__name__)
                need(ev.ci == ci and ev.method_identifier == m and ev.pipeline_id == (None if t is None else pipes[t][0].pipeline_id), "answer of %s arrived as %s", ci, ev)
                need(ev.result == val, "answer %r arrived as %r", val, ev.result)
                try:
                    c.host_response(ci, val)
                    raise Bad("host call answered twice")
                except (KeyError, PSRPCoreError):
                    pass
                need(c.data_to_send() is None, "second answer queued")


def PID_of(p):
    return p.pipeline_id


# ------------------------------------------------------------------ C17
class C17:
    @staticmethod
    def cases(rng, n):
        for a in IS:
            yield dict(raw=a.name)
        yield dict(unknown=1)
        for _ in range(n):
            yield dict(seed=rng.getrandbits(40), steps=rng.choice([6, 15, 40]) if rng.random() > 0.02 else 400)

    @staticmethod
    def check(case):
        if "raw" in case:
            c, s = opened()
            ids = [None, uuid.UUID(int=9), uuid.uuid5(uuid.NAMESPACE_DNS, "p")]
            ps = [new_pipe(c, s, **({"pipeline_id": i} if i else {})) for i in ids]
            for i, (a, b) in zip(ids, ps):
                need(i in (None, a.pipeline_id) and a.pipeline_id == b.pipeline_id and c.pipeline_table[a.pipeline_id] is a, "pipeline %s is known as %s", i, a.pipeline_id)
            st = IS[case["raw"]]
            ps[1][1].prepare_message(T.PipelineState(PipelineState=st.value))
            ev = transfer(s, c)
            need(len(ev) == 1 and ev[0].state == st and type(ev[0].state) is IS and ev[0].pipeline_id == ps[1][0].pipeline_id, "state arrived as %s", ev)
            need(ps[1][0].state == st, "client pipeline is %s", ps[1][0].state)
            need(ps[0][0].state == IS.Running and ps[2][0].state == IS.Running, "another pipeline changed")
            # an id the client does not know
            for pid in (uuid.UUID(int=77), None):
                s.prepare_message(T.PipelineState(PipelineState=IS.Failed.value), pipeline_id=pid)
                try:
                    transfer(s, c)
                except (KeyError, PSRPCoreError):
                    pass
                need([p[0].state for p in ps] == [IS.Running, st, IS.Running], "a state for an unknown pipeline changed a known one")
                need(len(c.pipeline_table) == 3, "a state for an unknown pipeline changed the known ones")
                messages_of(s)
            return
        if "unknown" in case:
            for make in (lambda c: ClientPowerShell(c).add_script("x"), lambda c: ClientGetCommandMetadata(c, "x")):
                c, s = opened()
                k1, k2 = new_pipe(c, s)
                p = make(c)
                p.start()
                try:
                    transfer(c, s)
                    raise Bad("message for a pipeline the server does not know accepted")
                except PSRPCoreError:
                    pass
                need(list(s.pipeline_table) == [k2.pipeline_id], "unknown pipeline added")
                need(k2.metadata is not None and k2.metadata.commands[0].command_text == "x", "another pipeline changed")
            return
        rng = random.Random(case["seed"])
        c, s = opened()
        live = {}   # id -> [client pipe, server pipe, model client state, model server state]
        seen = []
        for _ in range(case["steps"]):
            k = rng.randrange(10)
            if k == 0 or not live:
                if rng.random() < 0.5:
                    cp = ClientPowerShell(c)
                    cp.add_script("x")
                else:
                    cp = ClientGetCommandMetadata(c, "*")
                sp = ServerPipeline(s, cp.pipeline_id)
                need(cp.state == IS.NotStarted and sp.state == IS.NotStarted, "new pipelines are %s and %s", cp.state, sp.state)
                live[cp.pipeline_id] = [cp, sp, IS.NotStarted, IS.NotStarted]
            pid = rng.choice(sorted(live, key=str)) if len(live) > 1 else next(iter(live))
            L = live[pid]
            cp, sp = L[0], L[1]
            op = rng.choice(["start", "sstart", "begin_stop", "sbegin_stop", "stop", "complete", "close", "sclose", "poolclose", "eof", "out"])
            ok = True
            try:
                if op == "start":
                    cp.start()
                    L[2] = IS.Running
                    ev = transfer(c, s)
                    need(len(ev) == 1 and ev[0].pipeline_id == pid, "start arrived as %s", ev)
                elif op == "eof":
                    cp.send_eof()
                    ev = transfer(c, s)
                    need(len(ev) == 1 and type(ev[0]).__name__ == "EndOfPipelineInputEvent" and ev[0].pipeline_id == pid, "end of input arrived as %s", ev)
                elif op == "out":
                    sp.write_output(5)
                    ev = transfer(s, c)
                    need(len(ev) == 1 and ev[0].pipeline_id == pid and ev[0].data == 5, "output arrived as %s", ev)
                elif op == "begin_stop":
                    cp.begin_stop()
                    L[2] = IS.Stopping
                    need(messages_of(c) == [], "begin stop of a client pipeline queues data")
                elif op in ("sstart", "sbegin_stop", "stop", "complete"):
                    st = {"sstart": IS.Running, "sbegin_stop": IS.Stopping, "stop": IS.Stopped, "complete": IS.Completed}[op]
                    was = sp.state
                    if cp.pipeline_id not in c.pipeline_table:
                        continue
                    {"sstart": sp.start, "sbegin_stop": sp.begin_stop, "stop": sp.stop, "complete": sp.complete}[op]()
                    L[3] = st
                    need(sp.state == st, "server pipeline is %s after %s", sp.state, op)
                    ev = transfer(s, c, rng)
                    if op == "stop" and was == IS.Stopped:
                        need(ev == [], "stopping a stopped pipeline sends %s", ev)
                    else:
                        need(len(ev) == 1 and ev[0].pipeline_id == pid and ev[0].state == st, "state %s arrived as %s", st, ev)
                        if op == "stop":
                            need(ev[0].reason is not None and "stopped" in ev[0].reason.Exception.Message, "no reason for the stop")
                        L[2] = st
                elif op == "poolclose":
                    for pool in (c, s):
                        if pool.pipeline_table:
                            try:
                                pool.close()
                                raise Bad("pool closed while it knows pipelines")
                            except PSRPCoreError:
                                pass
                            need(pool.state == RS.Opened, "refused close changed the state")
                elif op == "close":
                    was = cp.state
                    cp.close()
                    need(was not in (IS.Running, IS.Disconnected), "pipeline closed while %s", was)
                    need(pid not in c.pipeline_table, "closed pipeline is still known")
                else:
                    was = sp.state
                    sp.close()
                    need(was not in (IS.Running, IS.Disconnected), "pipeline closed while %s", was)
                    need(pid not in s.pipeline_table, "closed pipeline is still known")
            except InvalidPipelineState:
                need(messages_of(c) == [] and messages_of(s) == [], "refused %s queued data", op)
                if op in ("close", "sclose"):
                    need(pid in (c if op == "close" else s).pipeline_table, "refused close forgot the pipeline")
            if pid not in c.pipeline_table and pid not in s.pipeline_table:
                del live[pid]
            elif pid not in c.pipeline_table or pid not in s.pipeline_table:
                # one side closed: finish the other side and forget it
                for x in (cp, sp):
                    if x.pipeline_id in x.runspace_pool.pipeline_table:
                        if x.state == IS.Running:
                            x.begin_stop()
                        x.close()
                messages_of(s)
                messages_of(c)
                del live[pid]
            need(set(c.pipeline_table) == set(live) == set(s.pipeline_table), "pools know other pipelines than the live ones")
            for i, (a, b, ma, mb) in live.items():
                need(c.pipeline_table[i] is a and s.pipeline_table[i] is b, "table entry changed")
                need(a.state == ma and b.state == mb, "pipeline %s is %s/%s, should be %s/%s after %s", i, a.state, b.state, ma, mb, op)
        for a, b, _, _ in list(live.values()):
            for x in (a, b):
                if x.state == IS.Running:
                    x.begin_stop()
                x.close()
        c.close()
        s.close()
        need(c.state == RS.Closed and s.state == RS.Closed, "empty pools do not close")


# ------------------------------------------------------------------ C18
PRT = T.PipelineResultTypes
ROUTES = [PRT.none, PRT.Output, PRT.Null]


def rand_cmd(rng, end):
    cmd = Command(rand_text(rng, 8), is_script=rng.random() < 0.5, use_local_scope=rng.choice([None, True, False]))
    for _ in range(rng.choice([0, 0, 1, 2, 4]) if rng.random() > 0.004 else rng.choice([20, 40, 100])):
        k = rng.randrange(4)
        name = rng.choice(["p", "Path", rand_text(rng, 5), "p:", "-x"])
        if k == 0:
            cmd.add_argument(values(rng, 2))
        elif k == 1:
            cmd.add_parameter(name)
        elif k == 2:
            cmd.add_parameter(name, values(rng, 2))
        else:
            cmd.add_parameters(**{"q": 1, "a": None, "z": [1]})
    cmd.end_of_statement = end
    cmd.merge_unclaimed = rng.random() < 0.3
    for f in ("error", "warning", "verbose", "debug", "information"):
        if rng.random() < 0.4:
            getattr(cmd, "redirect_" + f)(rng.choice(ROUTES))
    if rng.random() < 0.1:
        cmd.redirect_all(rng.choice(ROUTES))
    if rng.random() < 0.1:
        cmd.redirect_error(PRT.none)
    return cmd


class C18:
    @staticmethod
    def cases(rng, n):
        for k in range(1, 7):
            for mask in range(1 << k if k < 6 else 8):
                yield dict(ends=[bool(mask >> i & 1) for i in range(k)], seed=mask)
        for f in ("error", "warning", "verbose", "debug", "information", "all"):
            for r in range(3):
                for v in ("2.0", "2.1", "2.2", "2.3"):
                    yield dict(route=f, to=r, v=v, seed=r)
        for i in range(10):
            yield dict(opts=i, seed=i)
        for i in range(20):
            yield dict(meta=1, seed=i)
        for _ in range(n):
            if rng.random() < 0.15:
                yield dict(meta=1, seed=rng.getrandbits(40))
            else:
                yield dict(ends=[rng.random() < 0.4 for _ in range(1 + amount(rng, 5, 0.008, 60))], v=rng.choice(VERSIONS[:6] + ["2.3"] * 4), seed=rng.getrandbits(40))

    @staticmethod
    def check(case):
        rng = random.Random(case["seed"])
        v = case.get("v", "2.3")
        c, s = ClientRunspacePool(apartment_state=rng.choice(list(T.ApartmentState))), ServerRunspacePool()
        s.our_capability.protocolversion = T.PSVersion(v)
        c.open()
        settle(c, s)
        if "meta" in case:
            names = rng.choice([rand_text(rng, 5), [rand_text(rng, 5) for _ in range(rng.randrange(1, 4))], "*", ["a*", "?"]])
            ct = rng.choice(list(T.CommandTypes) + [T.CommandTypes.Alias | T.CommandTypes.Cmdlet])
            ns = rng.choice([None, ["n", rand_text(rng, 4)], []])
            ar = rng.choice([None, [1, "a", None, [2]], []])
            p = ClientGetCommandMetadata(c, names, ct, ns, ar)
            sp = ServerPipeline(s, p.pipeline_id)
            p.start()
            ev = transfer(c, s, rng)
            need(len(ev) == 1 and type(ev[0]).__name__ == "GetCommandMetadataEvent" and ev[0].pipeline_id == p.pipeline_id, "query arrived as %s", ev)
            for m in (ev[0].pipeline, sp.metadata):
                same(names if isinstance(names, list) else [names], m.name, "names")
                need(m.command_type == ct and type(m.command_type) is T.CommandTypes, "types %s became %s", ct, m.command_type)
                same(ns, m.namespace, "namespaces")
                same(ar, m.arguments, "arguments")
            return
        kw = {}
        if "opts" in case or rng.random() < 0.6:
            kw = dict(add_to_history=rng.random() < 0.5, apartment_state=rng.choice([None] + list(T.ApartmentState)), history=rng.choice([None, "h", rand_text(rng, 6)]), host=rand_host(rng),
                      is_nested=rng.random() < 0.5, no_input=rng.random() < 0.5, remote_stream_options=rng.choice(list(T.RemoteStreamOptions) + [T.RemoteStreamOptions(5), T.RemoteStreamOptions(10)]),
                      redirect_shell_error_to_out=rng.random() < 0.5)
        p = ClientPowerShell(c, **kw)
        cmds = []
        if "route" in case:
            cmd = Command("c")
            getattr(cmd, "redirect_" + case["route"])(ROUTES[case["to"]])
            cmds = [Command("a"), cmd]
        else:
            cmds = [rand_cmd(rng, e) for e in case.get("ends", [False, True])]
            if "ends" in case and rng.random() < 0.1:
                cmds.append(cmds[0])  # the same command again
        built = rng.random() < 0.3
        for cmd in cmds:
            p.add_command(cmd)
        if built:
            p.add_statement()
            p.add_script("s;1", use_local_scope=rng.choice([None, True, False])).add_argument(1).add_parameter("n", "v").add_parameters(a=1, b=None)
            p.add_command("final", use_local_scope=True)
        cmds = list(p.metadata.commands)
        sp = ServerPipeline(s, p.pipeline_id)
        p.start()
        raw = messages_of(c)
        need(len(raw) == 1 and raw[0][0] == int(M.CreatePipeline) and raw[0][2] == p.pipeline_id, "pipeline is sent as %s", [m[:3] for m in raw])
        for n, need_v in (("MergeError", (2, 2)), ("MergeWarning", (2, 2)), ("MergeVerbose", (2, 2)), ("MergeDebug", (2, 2)), ("MergeInformation", (2, 3))):
            cnt = sum(1 for e in ET.fromstring(raw[0][3]).iter() if e.attrib.get("N") == n)
            if vt(v) >= need_v:
                need(cnt >= 1, "%s is not sent to a peer with version %s", n, v)
            else:
                need(cnt == 0, "%s is sent to a peer with version %s", n, v)
        ev = feed(s, M.CreatePipeline, raw[0][1], raw[0][2], raw[0][3], 999, True)
        need(len(ev) == 1 and type(ev[0]).__name__ == "CreatePipelineEvent" and ev[0].pipeline_id == p.pipeline_id, "pipeline arrived as %s", ev)
        for got in (ev[0].pipeline, sp.metadata):
            for k in ("add_to_history", "history", "is_nested", "no_input", "redirect_shell_error_to_out"):
                a, b = getattr(p.metadata, k), getattr(got, k)
                need(a == b if not isinstance(a, str) else utf16(a) == utf16(b), "option %s: %r became %r", k, a, b)
                if k in kw:
                    need(kw[k] == b if not isinstance(kw[k], str) else utf16(kw[k]) == utf16(b), "option %s: given as %r became %r", k, kw[k], b)
            want = kw.get("apartment_state")
            if want is None:
                want = c.apartment_state
            need(got.apartment_state == want and type(got.apartment_state) is T.ApartmentState, "apartment state %r became %r", want, got.apartment_state)
            rso = kw.get("remote_stream_options", T.RemoteStreamOptions.none)
            need(got.remote_stream_options == rso and type(got.remote_stream_options) is T.RemoteStreamOptions, "stream options %r became %r", rso, got.remote_stream_options)
            same_host(kw.get("host"), got.host)
            need(len(got.commands) == len(cmds), "%d commands became %d", len(cmds), len(got.commands))
            for i, (a, b) in enumerate(zip(cmds, got.commands)):
                w = "command %d" % i
                need(utf16(a.command_text) == utf16(b.command_text), "%s: text %a became %a", w, a.command_text, b.command_text)
                need(a.is_script is b.is_script and a.use_local_scope is b.use_local_scope, "%s: script/scope %r became %r", w, (a.is_script, a.use_local_scope), (b.is_script, b.use_local_scope))
                need(b.end_of_statement is (a.end_of_statement or i == len(cmds) - 1), "%s: end of statement %r became %r", w, a.end_of_statement, b.end_of_statement)
                need(len(a.parameters) == len(b.parameters), "%s: %d parameters became %d", w, len(a.parameters), len(b.parameters))
                for (n1, v1), (n2, v2) in zip(a.parameters, b.parameters):
                    need((n1 is None) == (n2 is None) and (n1 is None or utf16(n1) == utf16(n2)), "%s: parameter %a became %a", w, n1, n2)
                    same_graph(v1, v2, w + " parameter %a" % n1)
                need(a.merge_unclaimed is b.merge_unclaimed, "%s: merge unclaimed %r became %r", w, a.merge_unclaimed, b.merge_unclaimed)
                need((a.merge_my, a.merge_to) == (b.merge_my, b.merge_to), "%s: merge %r became %r", w, (a.merge_my, a.merge_to), (b.merge_my, b.merge_to))
                for f, need_v in (("error", (2, 2)), ("warning", (2, 2)), ("verbose", (2, 2)), ("debug", (2, 2)), ("information", (2, 3))):
                    x, y = getattr(a, "merge_" + f), getattr(b, "merge_" + f)
                    want = x if vt(v) >= need_v else PRT.none
                    need(y == want and type(y) is PRT, "%s: %s redirection %r became %r (version %s)", w, f, x, y, v)


# ------------------------------------------------------------------ C19
def rint(rng):
    return bint(rng, -2 ** 31, 2 ** 31 - 1)


def rchar(rng):
    return rng.choice([chr(rng.choice([0, 9, 10, 13, 32, 65, 0x7f, 0xe9, 0x4e2d, 0xffff, 0xfffe, 0xd7ff, 0xe000])), chr(rng.randrange(0xd800)), "x"])


def cell(rng):
    return T.BufferCell(Character=T.PSChar(rchar(rng)), ForegroundColor=rng.choice(list(T.ConsoleColor)), BackgroundColor=rng.choice(list(T.ConsoleColor)), BufferCellType=rng.choice(list(T.BufferCellType)))


def part(v):
    """Comparable form of a host value."""
    if isinstance(v, T.Coordinates):
        return ("coord", int(v.X), int(v.Y))
    if isinstance(v, T.Size):
        return ("size", int(v.Width), int(v.Height))
    if isinstance(v, T.Rectangle):
        return ("rect", int(v.Left), int(v.Top), int(v.Right), int(v.Bottom))
    if isinstance(v, T.BufferCell):
        return ("cell", int(v.Character), v.ForegroundColor, v.BackgroundColor, v.BufferCellType, type(v.ForegroundColor).__name__, type(v.BufferCellType).__name__)
    if isinstance(v, T.KeyInfo):
        return ("key", int(v.VirtualKeyCode), int(v.Character), v.ControlKeyState, type(v.ControlKeyState).__name__, bool(v.KeyDown))
    if isinstance(v, T.ChoiceDescription):
        return ("choice", part(v.Label), part(v.HelpMessage))
    if isinstance(v, T.FieldDescription):
        return ("field",) + tuple(part(getattr(v, k)) for k in ("Name", "ParameterTypeName", "ParameterTypeFullName", "ParameterAssemblyFullName", "Label", "HelpMessage", "IsMandatory"))
    if isinstance(v, T.ProgressRecord):
        return ("progress",) + tuple(part(getattr(v, k)) for k in PROGRESS)
    if isinstance(v, T.PSCredential):
        return ("cred", part(v.UserName), part(v.Password.decrypt()))
    if isinstance(v, T.PSSecureString):
        return ("secure", part(v.decrypt()))
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, (T.ConsoleColor, T.PSCredentialTypes, T.PSCredentialUIOptions, T.ReadKeyOptions, T.ProgressRecordType)):
        return (type(v).__name__, int(v.value))
    if isinstance(v, str):
        return ("s", cps16(v))
    if isinstance(v, int):
        return ("i", int(v))
    if isinstance(v, (list, tuple)):
        return ["l"] + [part(x) for x in v]
    if isinstance(v, dict):
        return ["d"] + [(part(k), part(x)) for k, x in v.items()]
    if isinstance(v, T.PSVersion):
        return ("version", str(v))
    if isinstance(v, uuid.UUID):
        return ("guid", v.int)
    raise Bad("value of type %s" % type(v).__name__)


PROGRESS = ("Activity", "ActivityId", "StatusDescription", "CurrentOperation", "ParentActivityId", "PercentComplete", "RecordType", "SecondsRemaining")


def cps16(s):
    return utf16(str.__str__(s)).hex()


def colour(rng):
    return rng.choice(list(T.ConsoleColor))


def ctext(rng):
    return rand_text(rng, 8)


def rect(rng):
    return [rint(rng) for _ in range(4)]


def cells(rng, shape=None):
    r, c = shape or ((rng.randrange(1, 5), rng.randrange(1, 5)) if rng.random() > 0.01 else (1 + amount(rng, 5, 0.3, 60), 1 + amount(rng, 5, 0.3, 60)))
    return [[cell(rng) for _ in range(c)] for _ in range(r)]


def choices(rng):
    return [T.ChoiceDescription(Label=ctext(rng), **({"HelpMessage": ctext(rng)} if rng.random() < 0.7 else {})) for _ in range(amount(rng, 4, 0.01, 60))]


def fields(rng):
    out = []
    for _ in range(amount(rng, 3, 0.01, 60)):
        kw = {k: rng.choice([ctext(rng), "", "System.String"]) for k in ("ParameterTypeName", "ParameterTypeFullName", "ParameterAssemblyFullName", "Label", "HelpMessage") if rng.random() < 0.7}
        out.append(T.FieldDescription(Name=ctext(rng), IsMandatory=rng.random() < 0.5, **kw))
    return out


def fc(v):
    return v if v is not None else T.ConsoleColor.Black


def calls_table(rng, shape=None):
    """name -> list of (args, kwargs, method name, decoded parameters)"""
    t, t2, i = ctext(rng), ctext(rng), rint(rng)
    f, b = rng.choice([None, colour(rng)]), rng.choice([None, colour(rng)])
    x, y = rint(rng), rint(rng)
    R, R2 = rect(rng), rect(rng)
    ch = choices(rng)
    fd = fields(rng)
    ct = rng.choice([None] + list(T.PSCredentialTypes))
    co = rng.choice([None] + list(T.PSCredentialUIOptions))
    un = rng.choice([None, t, ""])
    tn = rng.choice([None, t2, "x"])
    pr = dict(source_id=rng.choice([0, 1, 5, 2 ** 31, 2 ** 40]), activity_id=i, activity=t, status_description=t2, current_operation=rng.choice([None, "", t]), parent_activity_id=rint(rng), percent_complete=rng.choice([-1, 0, 50, 100, 101, -2, -100, 2 ** 31 - 1, -2 ** 31]),
              record_type=rng.choice(list(T.ProgressRecordType)), seconds_remaining=rint(rng))
    prr = T.ProgressRecord(ActivityId=pr["activity_id"], Activity=t, StatusDescription=t2, CurrentOperation=pr["current_operation"], ParentActivityId=pr["parent_activity_id"], PercentComplete=pr["percent_complete"], RecordType=pr["record_type"], SecondsRemaining=pr["seconds_remaining"])
    cc = cells(rng, shape)
    cch = rchar(rng)
    fill = T.BufferCell(Character=T.PSChar(cch), ForegroundColor=fc(f), BackgroundColor=fc(b), BufferCellType=T.BufferCellType.Complete)
    rk = rng.choice(list(T.ReadKeyOptions) + [T.ReadKeyOptions.NoEcho | T.ReadKeyOptions.IncludeKeyUp])
    dc = rng.choice([None, [], [0, 2], [1], [2, 0], [1, 1], [3, 1, 2]])
    C = T.Coordinates(X=x, Y=y)
    S = T.Size(Width=x, Height=y)
    out = {}
    for n, m in (("get_name", "GetName"), ("get_version", "GetVersion"), ("get_instance_id", "GetInstanceId"), ("get_current_culture", "GetCurrentCulture"), ("get_current_ui_culture", "GetCurrentUICulture"),
                 ("enter_nested_prompt", "EnterNestedPrompt"), ("exit_nested_prompt", "ExitNestedPrompt"), ("notify_begin_application", "NotifyBeginApplication"), ("notify_end_application", "NotifyEndApplication"),
                 ("pop_runspace", "PopRunspace"), ("get_is_runspace_pushed", "GetIsRunspacePushed"), ("read_line", "ReadLine"), ("read_line_as_secure_string", "ReadLineAsSecureString"),
                 ("get_foreground_color", "GetForegroundColor"), ("get_background_color", "GetBackgroundColor"), ("get_cursor_position", "GetCursorPosition"), ("get_window_position", "GetWindowPosition"),
                 ("get_cursor_size", "GetCursorSize"), ("get_buffer_size", "GetBufferSize"), ("get_window_size", "GetWindowSize"), ("get_window_title", "GetWindowTitle"), ("get_max_window_size", "GetMaxWindowSize"),
                 ("get_max_physical_window_size", "GetMaxPhysicalWindowSize"), ("get_key_available", "GetKeyAvailable"), ("flush_input_buffer", "FlushInputBuffer")):
        out[n] = [([], {}, m, [])]
    out["set_should_exit"] = [([i], {}, "SetShouldExit", [i])]
    out["write"] = [([t], {}, "Write1", [t]), ([t, colour(rng), colour(rng)], {}, "Write2", None), ([t], dict(foreground_color=f, background_color=b), "Write1" if f is None and b is None else "Write2", [t] if f is None and b is None else [fc(f), fc(b), t])]
    a = out["write"][1]
    out["write"][1] = (a[0], a[1], a[2], [a[0][1], a[0][2], t])
    nc = f is None and b is None
    out["write_line"] = [([], {}, "WriteLine1", []), ([t], {}, "WriteLine2", [t]), ([t], dict(foreground_color=f, background_color=b), "WriteLine2" if nc else "WriteLine3", [t] if nc else [fc(f), fc(b), t]),
                         ([None], dict(foreground_color=f, background_color=b), "WriteLine1" if nc else "WriteLine3", [] if nc else [fc(f), fc(b), ""]), ([""], {}, "WriteLine2", [""]),
                         ([""], dict(foreground_color=f, background_color=b), "WriteLine2" if nc else "WriteLine3", [""] if nc else [fc(f), fc(b), ""])]
    for n, m in (("write_error_line", "WriteErrorLine"), ("write_debug_line", "WriteDebugLine"), ("write_verbose_line", "WriteVerboseLine"), ("write_warning_line", "WriteWarningLine"), ("set_window_title", "SetWindowTitle")):
        out[n] = [([t], {}, m, [t])]
    out["write_progress"] = [([], pr, "WriteProgress", [pr["source_id"], prr])]
    out["prompt"] = [([t, t2, fd], {}, "Prompt", [t, t2, fd])]
    cm = ct is None and co is None
    base = [t, t2, un, tn or ""]
    ext = [] if cm else [ct if ct is not None else T.PSCredentialTypes.Default, co if co is not None else T.PSCredentialUIOptions.Default]
    out["prompt_for_credential"] = [([t, t2, un, tn], {}, "PromptForCredential1", base), ([t, t2, un, tn, ct, co], {}, "PromptForCredential1" if cm else "PromptForCredential2", base + ext)]
    out["prompt_for_choice"] = [([t, t2, ch], {}, "PromptForChoice", [t, t2, ch, -1]), ([t, t2, ch, i], {}, "PromptForChoice", [t, t2, ch, i])]
    out["prompt_for_multiple_choice"] = [([t, t2, ch, dc], {}, "PromptForChoiceMultipleSelection", [t, t2, ch, dc or []])]
    for n, m in (("set_foreground_color", "SetForegroundColor"), ("set_background_color", "SetBackgroundColor")):
        k = colour(rng)
        out[n] = [([k], {}, m, [k])]
    for n, m in (("set_cursor_position", "SetCursorPosition"), ("set_window_position", "SetWindowPosition")):
        out[n] = [([x, y], {}, m, [C])]
    for n, m in (("set_buffer_size", "SetBufferSize"), ("set_window_size", "SetWindowSize")):
        out[n] = [([x, y], {}, m, [S])]
    out["set_cursor_size"] = [([i], {}, "SetCursorSize", [i])]
    out["read_key"] = [([rk], {}, "ReadKey", [rk]), ([], {}, "ReadKey", [T.ReadKeyOptions.IncludeKeyDown])]
    rr = lambda r: T.Rectangle(Left=r[0], Top=r[1], Right=r[2], Bottom=r[3])
    out["set_buffer_cells"] = [(R + [cch, fc(f), fc(b)], {}, "SetBufferContents1", [rr(R), fill])]
    out["set_buffer_contents"] = [([x, y, cc], {}, "SetBufferContents2", [C, cc])]
    out["get_buffer_contents"] = [(R, {}, "GetBufferContents", [rr(R)])]
    out["scroll_buffer_contents"] = [(R + [x, y] + R2 + [cch, fc(f), fc(b)], {}, "ScrollBufferContents", [rr(R), C, rr(R2), fill])]
    return out


def answers_table(rng, shape=None):
    """name -> (args, kwargs, decoded result)"""
    t, i = ctext(rng), rint(rng)
    x, y = rint(rng), rint(rng)
    ks = rng.choice(list(T.ControlKeyStates) + [T.ControlKeyStates.ShiftPressed | T.ControlKeyStates.NumLockOn])
    down = rng.random() < 0.5
    chz = rchar(rng)
    cc = cells(rng, shape)
    C, S = T.Coordinates(X=x, Y=y), T.Size(Width=x, Height=y)
    g = rand_uuid(rng)
    cred = T.PSCredential(UserName=t, Password=T.PSSecureString(ctext(rng)))
    out = {"get_name": ([t], {}, t), "get_version": ([rng.choice(["1.2.3", T.PSVersion("5.1")])], {}, None), "get_instance_id": ([g], {}, g), "get_current_culture": ([t], {}, t), "get_current_ui_culture": ([t], {}, t),
           "get_is_runspace_pushed": ([down], {}, down), "read_line": ([t], {}, t), "read_line_as_secure_string": ([T.PSSecureString(t)], {}, T.PSSecureString(t)), "prompt": ([{"a": t, "b": i}], {}, {"a": t, "b": i}),
           "prompt_for_credential": ([cred], {}, cred), "prompt_for_choice": ([i], {}, i), "prompt_for_multiple_choice": ([rng.choice([[1, 2], [], 3, [2, 0, 1], [5, 5, 1], [0]])], {}, None),
           "get_cursor_position": ([x, y], {}, C), "get_window_position": ([x, y], {}, C), "get_cursor_size": ([i], {}, i), "get_buffer_size": ([x, y], {}, S), "get_window_size": ([x, y], {}, S), "get_window_title": ([t], {}, t),
           "get_max_window_size": ([x, y], {}, S), "get_max_physical_window_size": ([x, y], {}, S), "get_key_available": ([down], {}, down),
           "read_key": ([chz, down, ks, i], {}, T.KeyInfo(VirtualKeyCode=i, Character=T.PSChar(chz), ControlKeyState=ks, KeyDown=down)), "get_buffer_contents": ([cc], {}, cc)}
    v = out["get_version"][0][0]
    out["get_version"] = ([v], {}, T.PSVersion(v) if isinstance(v, str) else v)
    m = out["prompt_for_multiple_choice"][0][0]
    out["prompt_for_multiple_choice"] = ([m], {}, m if isinstance(m, list) else [m])
    for n in ("get_foreground_color", "get_background_color"):
        k = colour(rng)
        out[n] = ([k], {}, k)
    return out


class C19:
    @staticmethod
    def cases(rng, n):
        names = sorted(calls_table(random.Random(0)))
        for nm in names:
            for j in range(4):
                yield dict(call=nm, seed=j, pipe=j % 2)
        for nm in sorted(answers_table(random.Random(0))):
            for j in range(4):
                yield dict(answer=nm, seed=j, pipe=j % 2)
        for r in range(1, 5):
            for c in range(1, 6):
                yield dict(call="set_buffer_contents", seed=r, pipe=0, shape=[r, c])
                yield dict(answer="get_buffer_contents", seed=r, pipe=1, shape=[r, c])
        for i in range(16):
            yield dict(err=1, seed=i, pipe=i % 2)
        for _ in range(n):
            if rng.random() < 0.6:
                yield dict(call=rng.choice(names), seed=rng.getrandbits(32), pipe=rng.randrange(2))
            else:
                yield dict(answer=rng.choice(sorted(answers_table(random.Random(0)))), seed=rng.getrandbits(32), pipe=rng.randrange(2))

    _w = {}

    @staticmethod
    def world():
        if not C19._w:
            c, s = with_key()
            cp, sp = new_pipe(c, s)
            C19._w["x"] = (c, s, cp, sp)
        return C19._w["x"]

    @staticmethod
    def check(case):
        try:
            C19.run(case)
        except BaseException:
            C19._w.clear()
            raise

    @staticmethod
    def run(case):
        rng = random.Random(case["seed"])
        c, s, cp, sp = C19.world()
        pipe = case["pipe"]
        req = ServerHostRequestor(sp if pipe else s)
        resp = ClientHostResponder(cp if pipe else c)
        pid = cp.pipeline_id if pipe else None
        if "call" in case:
            for args, kw, method, want in calls_table(rng, case.get("shape"))[case["call"]]:
                ci = getattr(req, case["call"])(*args, **kw)
                ev = transfer(s, c, rng)
                need(len(ev) == 1 and type(ev[0]).__name__ == ("PipelineHostCallEvent" if pipe else "RunspacePoolHostCallEvent"), "%s arrived as %s", case["call"], [type(e).__name__ for e in ev])
                e = ev[0]
                need(e.pipeline_id == pid, "%s arrived for %s", case["call"], e.pipeline_id)
                need(type(e.method_identifier) is T.HostMethodIdentifier and e.method_identifier.name == method, "%s arrived as %s", case["call"], e.method_identifier)
                got = e.method_parameters
                need(part(list(got)) == part(want), "%s parameters %s arrived as %s", case["call"], part(want), part(list(got)))
                raw = getattr(getattr(e, "_ps_object", None), "mp", None)
                if isinstance(raw, list):
                    need(len(raw) == len(want), "%s was sent with %d parameters instead of %d", case["call"], len(raw), len(want))
                if ci is not None and e.ci != -100:
                    need(e.ci == ci, "call id %s arrived as %s", ci, e.ci)
                    c.host_response(e.ci, None)
                    transfer(c, s)
            return
        if "err" in case:
            ci = req.read_line()
            transfer(s, c)
            er = err(ctext(rng))
            er.FullyQualifiedErrorId = "id"
            val = [None, "partial", 0, ""][case["seed"] // 2 % 4]
            (cp if pipe else c).host_response(ci, val, error_record=er)
            ev = transfer(c, s, rng)
            need(len(ev) == 1 and ev[0].ci == ci and ev[0].result == val, "error answer arrived as %s", ev)
            need(isinstance(ev[0].error, T.ErrorRecord), "error arrived as %s", type(ev[0].error).__name__)
            need(part(ev[0].error.Exception.Message) == part(er.Exception.Message) and ev[0].error.FullyQualifiedErrorId == "id", "error changed")
            return
        name = case["answer"]
        ask = name
        args, kw, want = answers_table(rng, case.get("shape"))[name]
        call_args = {"prompt": ["c", "m", []], "prompt_for_choice": ["c", "m", []], "prompt_for_multiple_choice": ["c", "m", []], "get_buffer_contents": [0, 0, 1, 1]}.get(ask, [])
        ci = getattr(req, ask)(*call_args)
        need(ci is not None and ci != -100, "%s gives no call id", ask)
        transfer(s, c)
        getattr(resp, name)(ci, *args, **kw)
        ev = transfer(c, s, rng)
        need(len(ev) == 1 and type(ev[0]).__name__ == ("PipelineHostResponseEvent" if pipe else "RunspacePoolHostResponseEvent"), "answer arrived as %s", [type(e).__name__ for e in ev])
        e = ev[0]
        need(e.ci == ci and e.pipeline_id == pid and e.error is None, "answer arrived as %s", e)
        need(part(e.result) == part(want), "answer %s of %s arrived as %s", part(want), name, part(e.result))


# ------------------------------------------------------------------ C20
CommandInfo = collections.namedtuple("CommandInfo", ["CommandType", "Name", "Definition", "Visibility"])


def rand_invocation(rng):
    t = lambda: rand_text(rng, 6)
    kw = dict(
        BoundParameters=rng.choice([T.PSDict(), T.PSDict({"a": 1, "b": t()}), None]), CommandOrigin=rng.choice(list(T.CommandOrigin)), ExpectingInput=rng.random() < 0.5,
        HistoryId=bint(rng, -2 ** 63, 2 ** 63 - 1), InvocationName=rng.choice([t(), "", None]), Line=rng.choice([t(), ""]), OffsetInLine=rint(rng), PipelineLength=rint(rng),
        PipelinePosition=rint(rng), ScriptLineNumber=rint(rng), ScriptName=rng.choice([t(), "", "/a/b.ps1", "C:\\x\\y.ps1"]), UnboundArguments=rng.choice([T.PSList(), T.PSList([1, "a", None]), None]),
    )
    if rng.random() < 0.4:
        kw["MyCommand"] = CommandInfo(rng.choice(list(T.CommandTypes)), t(), t(), rng.choice(list(T.SessionStateEntryVisibility)))
    if rng.random() < 0.4:
        f, sl = t(), rint(rng)
        el = rng.choice([sl, rint(rng)])
        kw["DisplayScriptPosition"] = T.ScriptExtent(T.ScriptPosition(f, sl, rng.choice([rint(rng), -2 ** 31]), ""), T.ScriptPosition(f, el, rint(rng), ""))
    return T.InvocationInfo(**kw)


def same_invocation(a, b):
    need(b is not None, "invocation information is missing")
    for k in ("CommandOrigin", "ExpectingInput", "HistoryId", "OffsetInLine", "PipelineLength", "PipelinePosition", "ScriptLineNumber"):
        need(getattr(a, k) == getattr(b, k), "invocation %s: %r became %r", k, getattr(a, k), getattr(b, k))
    for k in ("InvocationName", "Line", "ScriptName"):
        x, y = getattr(a, k), getattr(b, k)
        need(utf16(x or "") == utf16(y or ""), "invocation %s: %a became %a", k, x, y)
    same(a.BoundParameters if a.BoundParameters is not None else T.PSDict(), b.BoundParameters, "bound parameters")
    same(a.UnboundArguments if a.UnboundArguments is not None else T.PSList(), b.UnboundArguments, "unbound arguments")
    if a.MyCommand is not None:
        for k in ("CommandType", "Name", "Definition", "Visibility"):
            x, y = getattr(a.MyCommand, k), getattr(b.MyCommand, k)
            need(x == y if not isinstance(x, str) else utf16(x) == utf16(y), "command %s: %r became %r", k, x, y)
    else:
        need(b.MyCommand is None, "command appeared")
    if a.DisplayScriptPosition is not None:
        for k in ("StartLineNumber", "StartColumnNumber", "EndLineNumber", "EndColumnNumber"):
            need(getattr(a.DisplayScriptPosition, k) == getattr(b.DisplayScriptPosition, k), "script position %s changed", k)
        need(utf16(a.DisplayScriptPosition.File) == utf16(b.DisplayScriptPosition.File), "script file changed")


def eq_text(a, b, what):
    need((a is None) == (b is None) and (a is None or utf16(str.__str__(a)) == utf16(str.__str__(b))), "%s: %a became %a", what, a, b)


class C20:
    KINDS = ["output", "error", "debug", "verbose", "warning", "progress", "information"]

    @staticmethod
    def cases(rng, n):
        for k in C20.KINDS:
            for i in range(20):
                yield dict(kinds=[k], seed=i, pipes=1)
        for _ in range(n):
            yield dict(kinds=[rng.choice(C20.KINDS) for _ in range(1 + amount(rng, 7, 0.01, 300))], seed=rng.getrandbits(40), pipes=rng.randrange(1, 4))
        for i in range(10):
            yield dict(events=1, seed=i)

    @staticmethod
    def emit(rng, sp, kind):
        """Writes a record, gives back a function that checks the event."""
        t = lambda: rng.choice([rand_text(rng, 8), "", "plain"])
        o = lambda: rng.choice([None, rand_text(rng, 8), "", "x"])
        ii = rand_invocation(rng) if rng.random() < 0.5 else None
        pii = rng.choice([None, T.PSList([1, 2]), T.PSList()]) if ii is not None else None
        if kind == "output":
            v = rng.choice([None, values(rng, 3), t(), 5, T.ProgressRecord(ActivityId=rint(rng), Activity=t(), StatusDescription=t(), CurrentOperation=o(), ParentActivityId=rint(rng), PercentComplete=rng.choice([-1, 0, 100, -2, 101]),
                                                                           RecordType=rng.choice(list(T.ProgressRecordType)), SecondsRemaining=rint(rng))])
            sp.write_output(v)

            def chk(e):
                if v is None:
                    need(e.data is None, "null became %r", e.data)
                elif isinstance(v, T.ProgressRecord):
                    need(isinstance(e.data, T.ProgressRecord) and part(v) == part(e.data), "progress %s became %r", part(v), e.data)
                else:
                    same_graph(v, e.data)
        elif kind == "error":
            exc = T.NETException(Message=t(), HResult=rint(rng), **({"StackTrace": t()} if rng.random() < 0.5 else {}))
            ci = rng.choice([None, T.ErrorCategoryInfo(Category=rng.choice(list(T.ErrorCategory)), Activity=o(), Reason=o(), TargetName=o(), TargetType=o())])
            ed = rng.choice([None, T.ErrorDetails(Message=t(), RecommendedAction=o()), T.ErrorDetails(Message=o(), RecommendedAction=t())])
            tgt = rng.choice([None, 1, [1, 2], "x"])
            fq, sst = o(), o()
            sp.write_error(exc, category_info=ci, target_object=tgt, fully_qualified_error_id=fq, error_details=ed, invocation_info=ii, pipeline_iteration_info=pii, script_stack_trace=sst)

            def chk(e):
                r = e.record
                eq_text(exc.Message, r.Exception.Message, "exception message")
                need(r.Exception.HResult == exc.HResult, "HResult changed")
                eq_text(exc.StackTrace, r.Exception.StackTrace, "stack trace")
                w = ci or T.ErrorCategoryInfo()
                need(r.CategoryInfo.Category == w.Category and type(r.CategoryInfo.Category) is T.ErrorCategory, "category %r became %r", w.Category, r.CategoryInfo.Category)
                for k in ("Activity", "Reason", "TargetName", "TargetType"):
                    eq_text(getattr(w, k), getattr(r.CategoryInfo, k), "category " + k)
                same(tgt, r.TargetObject, "target")
                eq_text(fq, r.FullyQualifiedErrorId, "error id")
                eq_text(sst, r.ScriptStackTrace, "script stack trace")
                need((ed is None) == (r.ErrorDetails is None), "error details %r became %r", ed, r.ErrorDetails)
                if ed is not None:
                    eq_text(ed.Message, r.ErrorDetails.Message, "details message")
                    eq_text(ed.RecommendedAction, r.ErrorDetails.RecommendedAction, "details action")
                C20.extra(r, ii, pii)
        elif kind in ("debug", "verbose", "warning"):
            m = t()
            getattr(sp, "write_" + kind)(m, invocation_info=ii, pipeline_iteration_info=pii)

            def chk(e):
                eq_text(m, e.record.Message, "message")
                C20.extra(e.record, ii, pii)
        elif kind == "progress":
            kw = dict(activity=t(), activity_id=rint(rng), status_description=t(), current_operation=o(), parent_activity_id=rint(rng), percent_complete=rng.choice([-1, 0, 100, 37, -2, 101, 2 ** 31 - 1, -2 ** 31]), record_type=rng.choice(list(T.ProgressRecordType)), seconds_remaining=rint(rng))
            if rng.random() < 0.2:
                kw = dict(activity=t(), activity_id=1, status_description=t())
            sp.write_progress(**kw)

            def chk(e):
                r = e.record
                eq_text(kw["activity"], r.Activity, "activity")
                eq_text(kw["status_description"], r.StatusDescription, "status")
                eq_text(kw.get("current_operation"), r.CurrentOperation, "operation")
                for a, b, d in (("activity_id", "ActivityId", 0), ("parent_activity_id", "ParentActivityId", -1), ("percent_complete", "PercentComplete", -1), ("seconds_remaining", "SecondsRemaining", -1), ("record_type", "RecordType", T.ProgressRecordType.Processing)):
                    need(getattr(r, b) == kw.get(a, d), "%s: %r became %r", a, kw.get(a, d), getattr(r, b))
                need(type(r.RecordType) is T.ProgressRecordType, "record type is %r", r.RecordType)
        else:
            kw = dict(message_data=rng.choice([t(), values(rng, 2), None, 5]), source=t(), time_generated=T.PSDateTime(bint(rng, 1, 9999), 3, 4, 5, 6, 7, rng.randrange(10 ** 6), nanosecond=rng.randrange(10) * 100),
                      tags=rng.choice([None, ["a", t()], [], [""], ["", ""]]), user=t(), computer=t(), process_id=bint(rng, 0, 2 ** 32 - 1), native_thread_id=bint(rng, 0, 2 ** 32 - 1), managed_thread_id=rng.choice([None, 0, 5, 2 ** 32 - 1]))
            sp.write_information(**kw)

            def chk(e):
                r = e.record
                same_graph(kw["message_data"], r.MessageData, "message data")
                for a, b in (("source", "Source"), ("user", "User"), ("computer", "Computer")):
                    eq_text(kw[a], getattr(r, b), a)
                same(kw["time_generated"], r.TimeGenerated, "time")
                same(kw["tags"] or [], r.Tags, "tags")
                for a, b in (("process_id", "ProcessId"), ("native_thread_id", "NativeThreadId"), ("managed_thread_id", "ManagedThreadId")):
                    need(int(getattr(r, b)) == (kw[a] or 0), "%s: %r became %r", a, kw[a], getattr(r, b))
        return chk

    @staticmethod
    def extra(r, ii, pii):
        if ii is None:
            need(r.InvocationInfo is None, "invocation information appeared")
        else:
            same_invocation(ii, r.InvocationInfo)
            same(pii, r.PipelineIterationInfo, "pipeline iteration")

    EVENT = {"output": "PipelineOutputEvent", "error": "ErrorRecordEvent", "debug": "DebugRecordEvent", "verbose": "VerboseRecordEvent", "warning": "WarningRecordEvent", "progress": "ProgressRecordEvent", "information": "InformationRecordEvent"}

    @staticmethod
    def check(case):
        rng = random.Random(case["seed"])
        c, s = opened()
        if "events" in case:
            kw = dict(event_identifier=rint(rng), source_identifier=rand_text(rng), sender=rng.choice([None, 1]), source_args=rng.choice([None, [1, "a"], []]), message_data=rng.choice([None, "m", [1]]), time_generated=WHEN, computer=rng.choice(["", "pc"]))
            s.send_event(**kw)
            ev = transfer(s, c, rng)
            need(len(ev) == 1 and type(ev[0]).__name__ == "UserEventEvent", "event arrived as %s", ev)
            e = ev[0].event
            need(e.EventIdentifier == kw["event_identifier"], "event id")
            eq_text(kw["source_identifier"], e.SourceIdentifier, "source")
            same(kw["sender"], e.Sender, "sender")
            same(kw["source_args"] or [], e.SourceArgs, "arguments")
            same(kw["message_data"], e.MessageData, "data")
            same(WHEN, e.TimeGenerated, "time")
            eq_text(kw["computer"], e.ComputerName, "computer")
            need(e.RunspaceId == c.runspace_pool_id, "runspace id")
            return
        pipes = [new_pipe(c, s) for _ in range(case["pipes"])]
        want = []
        for k in case["kinds"]:
            cp, sp = rng.choice(pipes)
            want.append((k, cp.pipeline_id, C20.emit(rng, sp, k)))
        ev = transfer(s, c, rng)
        need(len(ev) == len(want), "%d records became %d events", len(want), len(ev))
        for e, (k, pid, chk) in zip(ev, want):
            need(type(e).__name__ == C20.EVENT[k], "%s record arrived as %s", k, type(e).__name__)
            need(e.pipeline_id == pid, "%s record arrived for another pipeline", k)
            chk(e)
