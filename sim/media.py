"""Synthetic audio and video sources, written from the format descriptions: RIFF WAVE, DNxHD/DNxHR elementary streams."""
import struct

from .core import pattern

# cid -> bytes per frame (SMPTE VC-3)
HD = {1235: 917504, 1237: 606208, 1238: 917504, 1241: 917504, 1242: 606208, 1243: 917504, 1244: 606208, 1250: 458752, 1251: 458752,
      1252: 303104, 1253: 188416, 1256: 1835008, 1258: 212992, 1259: 417792, 1260: 835584}
HR = {1270: 57344, 1271: 28672, 1272: 28672, 1273: 18944, 1274: 5888}
AUID_HD = "04010202-71%02x-0000-060e-2b340401010a"
AUID_HR = "04010202-71%02x-0000-060e-2b340401010d"
CODEC_DNX = "8ef593f6-9521-4344-9ede-b84e8cfdc7da"


def compression(cid):
    return (AUID_HR if cid >= 1270 else AUID_HD) % (cid - 1234)


def dnx_size(cid, w, h):
    if cid in HD:
        return HD[cid]
    n = ((h + 15) // 16) * ((w + 15) // 16) * HR[cid] // 255
    return max(8192, (n + 2048) // 4096 * 4096)


def dnx_frame(cid, w, h, depth, interlaced, tag, first=1):
    b = bytearray(pattern(tag, dnx_size(cid, w, h)))
    b[:640] = bytes(640)
    struct.pack_into(">I", b, 0, 0x0280)
    b[4] = 1 if cid in HD else 3
    b[5] = (first & 1) | (2 if interlaced else 0)
    if cid in HR:
        # offset of the data, 0x280 to 0x2170, in the middle of the prefix
        struct.pack_into(">I", b, 0, 0x280 + 4 * (tag % 60))
    struct.pack_into(">HH", b, 24, h, w)
    b[33] = {8: 1, 10: 2, 12: 3}[depth] << 5 | (tag & 0x1f)
    struct.pack_into(">I", b, 40, cid)
    b[44] = 0
    struct.pack_into(">I", b, 100, tag & 0xffffffff)
    return bytes(b)


def chunk(name, data, size=None):
    out = name + struct.pack("<I", len(data) if size is None else size) + data
    return out + (b"\0" if len(data) & 1 else b"")


def wav(rate, channels, bits, data, fmt=16, before=(), after=(), claim=None, riff=None, align=None):
    """-> (bytes of the file, offset of the frames)"""
    width = (bits + 7) // 8
    align = channels * width if align is None else align
    f = struct.pack("<HHIIHH", 0xfffe if fmt == 40 else 1, channels, rate, rate * channels * width, align, bits)
    if fmt == 18:
        f += struct.pack("<H", 0)
    elif fmt == 40:
        f += struct.pack("<HHI", 22, bits, 0) + bytes.fromhex("0100000000001000800000aa00389b71")
    body = b"WAVE"
    for name, d in before[:1]:
        body += chunk(name, d)
    body += chunk(b"fmt ", f)
    for name, d in before[1:]:
        body += chunk(name, d)
    off = 8 + len(body) + 8
    body += chunk(b"data", data, claim)
    for name, d in after:
        body += chunk(name, d)
    return b"RIFF" + struct.pack("<I", len(body) if riff is None else riff) + body, off


def parse_wav(b):
    """-> rate, channels, bits, frames bytes"""
    if b[:4] != b"RIFF" or b[8:12] != b"WAVE":
        raise ValueError("not a WAVE file")
    if struct.unpack_from("<I", b, 4)[0] != len(b) - 8:
        raise ValueError("RIFF size %d in a file of %d bytes" % (struct.unpack_from("<I", b, 4)[0], len(b)))
    pos, fmt, data = 12, None, None
    while pos + 8 <= len(b):
        n = struct.unpack_from("<I", b, pos + 4)[0]
        d = b[pos + 8:pos + 8 + n]
        if len(d) != n:
            raise ValueError("chunk of %d bytes has %d" % (n, len(d)))
        if b[pos:pos + 4] == b"fmt ":
            tag, ch, rate, bps, align, bits = struct.unpack_from("<HHIIHH", d)
            if tag != 1 or bps != rate * align or align != ch * ((bits + 7) // 8):
                raise ValueError("inconsistent format chunk")
            fmt = rate, ch, bits
        elif b[pos:pos + 4] == b"data":
            data = d
        pos += 8 + n + (n & 1)
    if fmt is None or data is None:
        raise ValueError("chunk missing")
    return fmt + (data,)
