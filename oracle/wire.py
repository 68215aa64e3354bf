"""C01 - C04: message framing, fragment framing, outgoing fragmentation, reassembly."""
from .common import *
from psrpcore import _payload as P
from psrpcore import PSRPCoreError


# ------------------------------------------------------------------ C01
class C01:
    @staticmethod
    def cases(rng, n):
        types = [int(t) for t in PSRPMessageType]
        bodies = [b"", b"\xef\xbb\xbf", b"\xef\xbb\xbf\xef\xbb\xbf", b"\xef\xbb", b"a\xef\xbb\xbf", b"\xbf\xbb\xef", b"\x00", b"\xff" * 41, b" x ",
                  b"\xef\xbb\xbf<S/>", b"\n\r\t", b"\xbb\xbf"]
        for t in types:
            for client in (True, False):
                yield dict(client=client, type=t, rpid=rng.getrandbits(128), pid=rng.choice([None, 0, rng.getrandbits(128)]),
                           body=rng.choice(bodies).hex())
        for b in bodies:
            yield dict(client=True, type=rng.choice(types), rpid=rng.getrandbits(128), pid=None, body=b.hex())
        for i in range(128):
            yield dict(client=bool(i & 1), type=rng.choice(types), rpid=1 << i, pid=1 << (127 - i), body="")
        for _ in range(n):
            body = rng.choice(bodies) if rng.random() < 0.3 else rand_bytes(rng, rng.choice([0, 1, 2, 3, 39, 40, 41, rng.randrange(300)]))
            if rng.random() < 0.2:
                body += rng.choice(src_strs() or ["a"]).encode("utf-8", "replace")
            yield dict(client=rng.random() < 0.5, type=rng.choice(types), rpid=rand_uuid(rng).int,
                       pid=rng.choice([None, rand_uuid(rng).int]), body=body.hex())

    @staticmethod
    def check(c):
        rp = uuid.UUID(int=c["rpid"])
        pid = None if c["pid"] is None else uuid.UUID(int=c["pid"])
        body = bytes.fromhex(c["body"])
        for data in (body, bytearray(body)):
            got = P.create_message(c["client"], PSRPMessageType(c["type"]), data, rp, pid)
            need(bytes(got) == spec_message(c["client"], c["type"], rp, pid, body), "packed message is %s", bytes(got).hex())
            need(bytes(data) == body, "packing changed the body")
        raw = bytearray(spec_message(c["client"], c["type"], rp, pid, body))
        m = P.unpack_message(raw)
        need(m.destination == (2 if c["client"] else 1), "destination %r", m.destination)
        need(m.message_type is PSRPMessageType(c["type"]), "message type %r", m.message_type)
        need(isinstance(m.rpid, uuid.UUID) and m.rpid == rp, "pool id %r", m.rpid)
        need(m.pid == (None if pid is None or pid.int == 0 else pid), "pipeline id %r", m.pid)
        exp = body[3:] if body.startswith(b"\xef\xbb\xbf") else body
        need(bytes(m.data) == exp, "body %r became %r", body, bytes(m.data))
        pool = ClientRunspacePool(runspace_pool_id=rp) if c["client"] else ServerRunspacePool()
        pool.runspace_pool_id = rp
        for value, mt, b in ((None, PSRPMessageType.PipelineOutput, b""), (T.EndOfPipelineInput(), PSRPMessageType.EndOfPipelineInput, b""),
                             (T.PSString("x"), PSRPMessageType(c["type"]), b"<S>x</S>")):
            pool.prepare_message(value, message_type=mt, pipeline_id=pid)
            got = b"".join(bytes(f[3]) for f in spec_parse_fragments(pool.data_to_send().data))
            need(got == spec_message(c["client"], int(mt), rp, pid, b), "a %s pool sent %s", "client" if c["client"] else "server", got.hex())


# ------------------------------------------------------------------ C02
class C02:
    @staticmethod
    def cases(rng, n):
        edge = [0, 1, 2, 255, 256, 2 ** 16 - 1, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 33, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]
        for e in edge + src_ints(0, 2 ** 64 - 1)[:400]:
            yield dict(oid=e, fid=1, end=True, n=3, trail=5, s=e & 0xff)
            yield dict(oid=7, fid=e, end=bool(e & 1), n=0, trail=0, s=1)
        for ln in [0, 1, 20, 21, 22, 100, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 100000, 1 << 20, (1 << 24) - 1, (1 << 24) + 1]:
            yield dict(oid=rng.getrandbits(64), fid=rng.choice([0, 5]), end=rng.random() < 0.5, n=ln, trail=rng.choice([0, 1, 21, 50]), s=ln & 0xffff)
        for _ in range(n):
            yield dict(oid=bint(rng, 0, 2 ** 64 - 1), fid=bint(rng, 0, 2 ** 64 - 1), end=rng.random() < 0.5,
                       n=rng.choice([0, 1, 21, rng.randrange(600), rng.randrange(70000)]) if rng.random() < 0.2 else rng.randrange(300),
                       trail=rng.choice([0, 1, 20, 21, 42, 300]), s=rng.getrandbits(30))

    @staticmethod
    def check(c):
        r = random.Random(c["s"])
        data = bytes.fromhex(c["data"]) if "data" in c else rand_bytes(r, c["n"])
        trail = bytes.fromhex(c["trail_data"]) if "trail_data" in c else rand_bytes(r, c["trail"])
        exp = spec_fragment(c["oid"], c["fid"], c["end"], data)
        got = P.create_fragment(c["oid"], c["fid"], bytearray(data), c["end"])
        need(bytes(got) == exp, "packed fragment header is %s, expected %s", bytes(got)[:21].hex(), exp[:21].hex())
        need(bytes(P.create_fragment(c["oid"], c["fid"], data)) == spec_fragment(c["oid"], c["fid"], True, data), "default end flag")
        buf = bytearray(exp + trail)
        f = P.unpack_fragment(buf)
        need(f.object_id == c["oid"], "object id %r", f.object_id)
        need(f.fragment_id == c["fid"], "fragment id %r", f.fragment_id)
        need(f.start is (c["fid"] == 0), "start flag %r", f.start)
        need(f.end is c["end"], "end flag %r", f.end)
        need(bytes(f.data) == data, "data of %d bytes became %d bytes", len(data), len(f.data))
        need(bytes(buf) == exp + trail, "unpacking changed the buffer")


# ------------------------------------------------------------------ C03
class C03:
    @staticmethod
    def cases(rng, n):
        # exhaustive small scope: one or two messages, every size from 22 to beyond both
        for amount in list(range(22, 190)) + [None]:
            yield dict(ops=[["q", 0, None, 0], ["s", amount]])
            yield dict(ops=[["q", 5, None, 0], ["q", 30, None, 0], ["s", amount], ["s", amount]])
            yield dict(ops=[["q", 3, 1, 0], ["q", 0, 1, 1], ["q", 9, 2, 1], ["s", amount]])
        for bad in [21, 20, 1, 0, -1, -22]:
            yield dict(ops=[["q", 5, None, 0], ["s", bad], ["s", 22], ["s", bad], ["s", None]])
            yield dict(ops=[["s", bad]])
        # long histories: many messages, many fragments of one message
        for k in (40, 130, 300, 1100):
            yield dict(ops=[["q", i % 7, [None, 1, 2][i % 3], i % 2] for i in range(k)] + [["s", 70], ["s", None]] + [["q", 3, None, 0], ["s", None]])
            yield dict(ops=[op for i in range(k) for op in (["q", i % 50, None, 0], ["s", 100 + i % 30])])
        for ln, amount in ((5000, 22), (9000, 23), (70000, 64), (140000, 100), (200000, 32768)):
            yield dict(ops=[["q", ln, None, 0], ["q", 1, 1, 1], ["s", amount], ["s", amount], ["s", None]], size=amount)
        for _ in range(n):
            ops = []
            for _ in range(rng.randrange(1, 9)):
                k = rng.random()
                if k < 0.55:
                    ops.append(["q", rng.choice([-1, -2, 0, 1, rng.randrange(60), rng.randrange(400), 2000]), rng.choice([None, None, 1, 1, 2]), rng.randrange(2)])
                else:
                    ops.append(["s", rng.choice([None, 22, 23, 42, 43, 44, 61, 62, 63, 64, 82, 83, 84, 85, rng.randrange(22, 400), rng.randrange(22, 3000), 21, 5])])
            yield dict(ops=ops, size=rng.choice([None, 22, 61, 100, 500]))

    @staticmethod
    def check(c):
        pids = {None: None, 1: uuid.UUID(int=0x1111), 2: uuid.UUID(int=0x2222)}
        pool = ClientRunspacePool(runspace_pool_id=uuid.UUID(int=0xabc))
        streams = [StreamType.default, StreamType.prompt_response]
        queued, frags = [], []
        done = 0            # bytes of the current message already seen
        cur = 0             # index of the message the next fragment has to belong to
        nextfid = 0
        oids = []

        def sent(amount):
            nonlocal cur, done, nextfid
            if amount is not None and amount < 22:
                try:
                    pool.data_to_send(amount)
                except ValueError:
                    return
                raise Bad("a size of %d was accepted" % amount)
            pl = pool.data_to_send(amount) if amount is not None else pool.data_to_send()
            if pl is None:
                need(cur == len(queued), "nothing returned although data is queued")
                return None
            need(cur < len(queued), "payload although nothing is queued")
            need(isinstance(pl.data, bytes) and pl.data, "payload without data")
            need(amount is None or len(pl.data) <= amount, "payload of %d bytes for a size of %s", len(pl.data), amount)
            for oid, fid, end, data in spec_parse_fragments(pl.data):
                need(cur < len(queued), "fragment of a message that is not queued")
                exp, pid, st = queued[cur]
                need(pl.pipeline_id == pids[pid], "payload for %s carries a message for %s", pl.pipeline_id, pids[pid])
                need(pl.stream_type is streams[st], "payload of stream %s carries a message for %s", pl.stream_type, streams[st])
                if nextfid == 0:
                    need(oid not in oids, "object id %d used twice", oid)
                    need(not oids or oid > oids[-1], "object ids are not increasing")
                    oids.append(oid)
                need(oid == oids[-1], "fragment of object %d inside object %d", oid, oids[-1])
                need(fid == nextfid, "fragment id %d instead of %d", fid, nextfid)
                need(bytes(data) == exp[done:done + len(data)], "wrong data in fragment %d of message %d", fid, cur)
                done += len(data)
                nextfid += 1
                need(end == (done == len(exp)), "end flag %s after %d of %d bytes", end, done, len(exp))
                if end:
                    cur, done, nextfid = cur + 1, 0, 0
            return pl

        for op in c["ops"]:
            if op[0] == "q":
                ln, pid, st = op[1], op[2], op[3]
                if ln == -1:
                    val, mt, body = None, None, b""
                    t = PSRPMessageType.PipelineOutput
                elif ln == -2:
                    val, mt, body = T.EndOfPipelineInput(), None, b""
                    t = PSRPMessageType.EndOfPipelineInput
                else:
                    text = "".join(chr(97 + (i * 7 + len(queued)) % 26) for i in range(ln))
                    val, mt = T.PSString(text), PSRPMessageType.PipelineInput
                    body = (b"<S>" + text.encode() + b"</S>") if text else b"<S />"
                    t = mt
                pool.prepare_message(val, message_type=mt, pipeline_id=pids[pid], stream_type=streams[st])
                queued.append((spec_message(True, int(t), pool.runspace_pool_id, pids[pid], body), pid, st))
            else:
                sent(op[1])
        for _ in range(30000):
            if sent(c.get("size")) is None:
                break
        need(cur == len(queued) and done == 0, "%d of %d messages sent", cur, len(queued))


# ------------------------------------------------------------------ C04
class C04:
    @staticmethod
    def cases(rng, n):
        for cut in range(0, 130):
            yield dict(seed=cut, msgs=2, cut=cut)
        for k in range(60):
            yield dict(seed=k, msgs=rng.randrange(1, 4), bytewise=1)
        for k in (30, 70, 140, 300):
            yield dict(seed=k, msgs=k)
        for k in (700, 3000, 9000):
            yield dict(seed=k, msgs=3, long=k)
        for k in (2 ** 16, 2 ** 24):
            yield dict(big=k)
        for k in range(6):
            yield dict(refuse=k)
        for _ in range(n):
            yield dict(seed=rng.getrandbits(32), msgs=rng.randrange(1, 7))
        for _ in range(n // 4):
            yield dict(seed=rng.getrandbits(32), msgs=rng.randrange(1, 5), bad=rng.choice([-1, 1, 2, 5, 0]))

    @staticmethod
    def refused(k):
        """messages between which some are refused by the pool: each of the others is reported once, in order"""
        rpid = uuid.UUID(int=5)
        if k % 2:
            pool, mt, bad = ServerRunspacePool(), PSRPMessageType.PipelineInput, (PSRPMessageType.CreatePipeline, b'<Obj RefId="0"><MS /></Obj>')
        else:
            pool, mt, bad = ClientRunspacePool(), PSRPMessageType.PipelineOutput, (PSRPMessageType.PipelineOutput, b"<S>not closed")
        msgs = [spec_message(k % 2 == 0, int(t), rpid, uuid.UUID(int=9), b) for t, b in [(mt, b"<S>a</S>"), bad, (mt, b"<S>b</S>"), bad, bad, (mt, b"<S>c</S>")]]
        frs = [spec_fragment(10 + i, 0, True, m) for i, m in enumerate(msgs)]
        step = [1, 3, 6][k // 2]
        got, errors = [], 0
        for i in range(0, 6, step):
            pool.receive_data(PSRPPayload(b"".join(frs[i:i + step]), StreamType.default, None))
            for _ in range(9):
                try:
                    ev = pool.next_event()
                except Exception:
                    errors += 1
                    continue
                if ev is None:
                    break
                got.append(str(ev.data))
        need(got == ["a", "b", "c"] and errors == 3, "events %s and %d errors of 3 messages and 3 refused ones", got, errors)

    @staticmethod
    def check(c):
        if "refuse" in c:
            return C04.refused(c["refuse"])
        if "big" in c:
            # a blob around the sizes where the length field needs one more byte
            for k in (-1, 0, 1):
                n = c["big"] + k
                pool = ClientRunspacePool()
                raw = spec_message(True, int(PSRPMessageType.PipelineOutput), uuid.UUID(int=1), uuid.UUID(int=2), b"<S>" + b"a" * (n - 47) + b"</S>")
                need(len(raw) == n, "harness: %d", len(raw))
                data = spec_fragment(7, 0, True, raw) + spec_fragment(8, 0, True, raw[:40] + b"<S>b</S>")
                for d in (data[:100], data[100:n], data[n:]):
                    need(pool.next_event() is None, "an event before its message has arrived")
                    pool.receive_data(PSRPPayload(d, StreamType.default, None))
                for want in ("a" * (n - 47), "b"):
                    ev = pool.next_event()
                    need(ev is not None and ev.data == want, "a message of %d bytes was lost", n)
                need(pool.next_event() is None, "more events than messages")
            return
        rng = random.Random(c["seed"])
        server = rng.random() < 0.5
        pool = ServerRunspacePool() if server else ClientRunspacePool()
        mt = PSRPMessageType.PipelineInput if server else PSRPMessageType.PipelineOutput
        rpid = uuid.UUID(int=rng.getrandbits(128))
        # messages and their fragments
        oids = [0, 1, 2, 3, 5, 255, 256, 2 ** 32, 2 ** 63, 2 ** 64 - 1, rng.getrandbits(64) | 1 << 40]
        oids = rng.sample(oids, c["msgs"]) if c["msgs"] < 9 else [1000 + i for i in range(c["msgs"])]
        msgs = []
        for oid in oids:
            pid = rng.choice([None, uuid.UUID(int=rng.getrandbits(128) | 1), rng.choice([rpid, uuid.UUID(int=1), uuid.UUID(int=1 << 127)])])
            bom = rng.random() < 0.2
            if rng.random() < 0.1 and mt == PSRPMessageType.PipelineOutput:
                text, body = None, b""
            else:
                text = "".join(rng.choice("abcé中\U0001f600 ") for _ in range(c.get("long") or rng.choice([0, 1, 5, 40, rng.randrange(300)])))
                body = ("<S>%s</S>" % text).encode("utf-8")
                if bom:
                    body = b"\xef\xbb\xbf" + body
            raw = spec_message(not server, int(mt), rpid, pid, body)
            fr, i = [], 0
            mode = rng.randrange(4)
            while i < len(raw):
                if mode == 3 and rng.random() < 0.15:
                    ln = 0
                else:
                    ln = {0: len(raw), 1: 1 + rng.randrange(9), 2: 1 + rng.randrange(len(raw)), 3: 20}[mode]
                fr.append(raw[i:i + ln])
                i += ln
            if rng.random() < 0.15:
                fr.append(b"")
            msgs.append((oid, fr, pid, text))
        # interleave
        stream, completed, left = [], [], [[m, 0] for m in msgs]
        total = sum(len(m[1]) for m in msgs)
        bad_at = rng.randrange(total) if "bad" in c else None
        order = rng.randrange(2)
        k = 0
        while left:
            e = left[0] if order == 0 else rng.choice(left)
            (oid, fr, pid, text), fid = e
            end = fid == len(fr) - 1
            f = fid
            if k == bad_at:
                f = fid + c["bad"] if c["bad"] != 0 else (0 if fid else 1)
                if f < 0:
                    f = 2 ** 64 - 1
            stream.append((spec_fragment(oid, f, end, fr[fid]), (oid, pid, text) if end else None, k == bad_at and f != fid))
            k += 1
            e[1] += 1
            if end:
                left.remove(e)
        data = b"".join(s[0] for s in stream)
        bounds, pos = [], 0
        for s in stream:
            pos += len(s[0])
            bounds.append((pos, s[1], s[2]))
        err_end = next((b[0] for b in bounds if b[2]), None)
        # chunks
        if "cut" in c:
            cuts = [data[:c["cut"]], data[c["cut"]:]]
        elif "bytewise" in c:
            cuts = [data[i:i + 1] for i in range(len(data))]
        else:
            cuts = chunks(rng, data)
        got, fed = 0, 0

        def expected(upto):
            return [b[1] for b in bounds if b[1] is not None and b[0] <= upto]

        def poll():
            nonlocal got
            try:
                ev = pool.next_event()
            except PSRPCoreError:
                need(err_end is not None and fed >= err_end, "a valid stream was rejected")
                return "stop"
            exp = expected(fed)
            if err_end is not None and fed >= err_end:
                raise Bad("a fragment with the wrong id was accepted")
            if ev is None:
                need(got == len(exp), "no event although message %d has arrived", got)
                return None
            need(got < len(exp), "event before its message has arrived")
            oid, pid, text = exp[got]
            got += 1
            need(ev.message_type is mt, "event of type %s", ev.message_type)
            need(ev.runspace_pool_id == rpid, "pool id %s", ev.runspace_pool_id)
            need(ev.pipeline_id == pid, "pipeline id %s instead of %s", ev.pipeline_id, pid)
            if text is None:
                need(ev.data is None, "data %a instead of none", ev.data)
            else:
                need(isinstance(ev.data, str) and str(ev.data) == text, "data %a instead of %a", ev.data, text)
            return ev
        for ch in cuts:
            pool.receive_data(PSRPPayload(bytes(ch), StreamType.default, None))
            fed += len(ch)
            if rng.random() < 0.6 or ch is cuts[-1]:
                while True:
                    if rng.random() < 0.1 and ch is not cuts[-1]:
                        break
                    r = poll()
                    if r == "stop":
                        return
                    if r is None:
                        break
        need(err_end is None, "a fragment with the wrong id was accepted")
        need(got == len(expected(fed)) == len(msgs), "%d of %d messages reported", got, len(msgs))
