"""C24: symmetric encryption against AES-128 in counter mode."""
from ..engine import Facet
from ..gens import *
from .. import refs, bulk

K = 1 << 128


def key(r):
    k = r.int(0, 7)
    if k == 0:
        return r.pick((0, 1, K - 1, K >> 1, 255, 256, (1 << 120) - 1, 1 << 120))
    if k == 1:
        return nat(r, 0, 128)
    if k == 2:
        return r.getrandbits(8 * r.int(0, 16))
    if k == 3:
        return shaped(r, 128) % K
    if k == 4:
        return r.getrandbits(120) << 8
    return r.getrandbits(128)


def text(r, most=400):
    """any non-negative integer, lengths around block borders often"""
    k = r.int(0, 9)
    if k == 0:
        return r.pick((0, 1, 255, 256, 65535, 1 << 32, (1 << 32) - 1))
    if k < 4:
        return nat(r, 0, 8 * r.pick((4, 16, 32)))
    if k < 6:
        n = max(1, 16 * r.int(1, 9) + r.int(-5, 2))
        return r.getrandbits(8 * n) | 1 << (8 * n - 1)
    if k == 6:
        return nat(r, 1, 16) << (8 * r.int(0, 60))
    if k == 7:
        return int.from_bytes(bytes([r.int(1, 255)] * r.int(1, 200)), "big")
    if k == 8:
        return integer(r, refs.S.p, signed=False)
    return nat(r, 0, 8 * most)


def vector(r):
    """hexadecimal; empty, short, exact and longer than a block, next to overflow of the counter"""
    k = r.int(0, 7)
    if k == 0:
        b = b"\xff" * r.int(0, 16)
    elif k == 1:
        b = bytes(r.int(0, 255) for _ in range(r.int(0, 15)))
    elif k == 2:
        b = bytes(r.int(0, 255) for _ in range(r.int(17, 40)))
    elif k == 3:
        b = b"\x00" * r.int(0, 16) + bytes([r.int(0, 255)])
    elif k == 4:
        b = (K - r.int(1, 12)).to_bytes(16, "big")
    elif k == 5:
        w = r.int(1, 15)
        b = bytes(r.int(0, 255) for _ in range(16 - w)) + b"\xff" * (w - 1) + bytes([255 - r.int(0, 3)])
    else:
        b = bytes(r.int(0, 255) for _ in range(16))
    return b.hex()


def gen(r, lo=2, hi=9):
    ops, pairs = [], []
    for _ in range(r.int(lo, hi)):
        k = r.int(0, 9)
        if k == 0:
            ops.append(["init0"])
        elif k < 3:
            ops.append(["init", "hex:" + vector(r)])
        else:
            kk, m = (r.pick(pairs) if pairs and r.chance(0.3) else (key(r), text(r)))
            if pairs and r.chance(0.2):
                kk = r.pick(pairs)[0]
            pairs.append((kk, m))
            ops.append([r.pick(("enc", "encc")), kk, m, r.chance(0.3)])
    return dict(ops=ops)


def valid(d):
    return d["ops"] and all(o[0] in ("init0", "init") or (len(o) == 4 and 0 <= o[1] < K and o[2] >= 0) for o in d["ops"])


def check(case, ctx):
    iv = bytes(16)
    seen = {}
    for i, o in enumerate(case["ops"]):
        if o[0] == "init0":
            ctx("init")
            iv = bytes(16)
            continue
        if o[0] == "init":
            b = bytes.fromhex(o[1][4:])
            ctx("init " + (b.hex() or "-"))
            iv = (b + bytes(16))[:16]
            continue
        op, k, m, again = o
        c = int(ctx.one("%s %s %s" % (op, z(k), z(m)))[0], 16)
        pl = refs.tobytes(refs.append_crc(m) if op == "encc" else m)
        body = refs.aes_ctr(k.to_bytes(16, "big"), iv, pl)
        expect(c % (1 << (8 * len(pl))), int.from_bytes(body, "big"), "the last %d bytes of %s(%s, %s) under vector %s" % (len(pl), op, z(k), z(m), iv.hex()))
        expect(seen.setdefault((op, k, m, iv), c), c, "the same encryption, made again")
        if again:
            expect(int(ctx.one("%s %s %s" % (op, z(k), z(m)))[0], 16), c, "the same encryption, repeated")
        expect(int(ctx.one("%s %s %s" % ("dec" if op == "enc" else "decc", z(k), z(c)))[0], 16), m, "decryption of %s(%s, %s) under vector %s" % (op, z(k), z(m), iv.hex()))
        if op == "encc":
            expect(int(ctx.one("dec %s %s" % (z(k), z(c)))[0], 16), refs.append_crc(m), "plain decryption of a checked encryption")
        ctx.label(op + (", empty" if not pl else ", first ciphertext byte 0" if body[0] == 0 else ", whole blocks" if len(pl) % 16 == 0 else ", part of a block"))
        if k < 1 << 120:
            ctx.label("key with leading zero bytes")
        if int.from_bytes(iv, "big") + len(pl) // 16 >= K:
            ctx.label("counter wraps around")


def gen_long(r):
    return dict(ops=[["init", "hex:" + vector(r)], [r.pick(("enc", "encc")), key(r), nat(r, 8000, 40000), False]])


FACETS = [
    Facet("histories", "d_aes", check, 8000, 120000, chain=0, gen=gen, valid=valid, nontrivial=lambda d: any(o[0][:3] == "enc" and o[2] for o in d["ops"]),
          rule="2-9 encryptions (checked and plain, repeated keys and messages) and changes of the vector (default, empty, short, long, next to counter overflow), all key and message lengths; non-trivial if a message is not 0"),
    Facet("long-histories", "d_aes", check, 60, 900, chain=0, gen=lambda r: gen(r, 60, 300), valid=valid, nontrivial=lambda d: any(o[0][:3] == "enc" and o[2] for o in d["ops"]), rule="the same with 60-300 operations"),
    Facet("long", "d_aes", check, 60, 800, chain=0, gen=gen_long, valid=valid, rule="messages of 1 to 5 kB; every case counts as non-trivial"),
    bulk.facet("bulk", "d_aes", lambda c: "trip", 48, 2400, 10000, "round trips, plain and checked, against single-block AES and a table checksum"),
]
ASSUMPTIONS = ["a vector longer than a block counts by its first 16 bytes", "what precedes the keystream bytes in a ciphertext integer is left to the library"]
