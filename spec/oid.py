"""Reference for object identifiers: X.660 components and their DER encoding (X.690)."""


def parse(text):
    """The components, or None when the text is not a dotted sequence of decimal numbers."""
    out = []
    n, digits = 0, 0
    for ch in text:
        if ch == '.':
            if digits == 0:
                return None
            out.append(n)
            n, digits = 0, 0
        elif ch.isascii() and ch.isdigit():
            n = n * 10 + int(ch)
            digits += 1
        else:
            return None
    if digits == 0:
        return None
    out.append(n)
    return tuple(out)


def encodable(comps):
    if len(comps) < 2 or comps[0] > 2:
        return False
    return comps[0] == 2 or comps[1] < 40


def base128(n):
    groups = [n & 127]
    n = n >> 7
    while n > 0:
        groups.append((n & 127) | 128)
        n = n >> 7
    return bytes(groups[::-1])


def length(n):
    if n < 128:
        return bytes([n])
    body = []
    while n > 0:
        body.append(n & 255)
        n = n >> 8
    return bytes([128 | len(body)] + body[::-1])


def der(comps):
    body = base128(comps[0] * 40 + comps[1])
    for c in comps[2:]:
        body = body + base128(c)
    return b'\x06' + length(len(body)) + body
