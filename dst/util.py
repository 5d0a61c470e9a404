"""Shared helpers of the checks: deliveries, prefix comparison, shrinking."""


def lines_to_items(lines, nl="\n", last_nl=True):
    """One delivery per line (utf-8 bytes as latin-1 text)."""
    items = []
    for i, line in enumerate(lines):
        end = nl if last_nl or i < len(lines) - 1 else ""
        items.append(["d", (line + end).encode("utf-8").decode("latin-1")])
    return items


def b2s(text):
    return text.encode("utf-8").decode("latin-1")


def effects_prefix(part, whole):
    """None if `part` is a prefix of `whole` (effect lists of Result), else a
    short explanation."""
    for i, e in enumerate(part):
        if i >= len(whole):
            return f"extra effect {short(e)} after {i} effects"
        w = whole[i]
        if e == w:
            continue
        if (e[0] == w[0] == "print" and i == len(part) - 1
                and w[1].startswith(e[1])):
            continue
        return f"effect {i}: {short(e)} instead of {short(w)}"
    return None


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def groups(src):
    """Balanced (..), [..], {..} groups of a source text: (start, end)."""
    out = []
    stack = []
    i = 0
    while i < len(src):
        c = src[i]
        if c == '"':
            j = src.find('"', i + 1)
            if j < 0:
                break
            i = j + 1
            continue
        if c == "`":
            j = src.find("`", i + 1)
            if j < 0:
                break
            i = j + 1
            continue
        if c == "'" and i + 1 < len(src):
            i += 2
            continue
        if c in "([{":
            stack.append((c, i))
        elif c in ")]}":
            if stack:
                out.append((stack.pop()[1], i + 1))
        i += 1
    return out


def shrink_src(src):
    """Simpler variants of one statement's source."""
    gs = sorted(groups(src), key=lambda g: g[0] - g[1])
    for a, b in gs:
        if b - a > 2:
            inner = src[a + 1:b - 1]
            for sub in gs:
                # hoist an inner group
                if a < sub[0] and sub[1] < b and src[a] == src[sub[0]]:
                    yield src[:a] + src[sub[0]:sub[1]] + src[b:]
            if src[a] == "(":
                yield src[:a] + "(1)" + src[b:]
                yield src[:a] + '("a")' + src[b:]
            elif src[a] == "[":
                yield src[:a] + "[]" + src[b:]
                yield src[:a] + "[1]" + src[b:]
            else:
                yield src[:a] + "{1}" + src[b:]
            del inner


def shrink_list(items):
    """Drop halves, then single items."""
    n = len(items)
    if n > 3:
        yield items[n // 2:]
        yield items[:n // 2]
    for i in range(n):
        yield items[:i] + items[i + 1:]


def chunkings(rng, data, max_chunks=8):
    """Split a latin-1 byte text into deliveries at random places."""
    n = len(data)
    if n == 0:
        return []
    style = rng.random()
    if style < 0.15:
        cuts = []
    elif style < 0.3 and n <= 200:
        cuts = list(range(1, n))
    else:
        k = int(rng.random() * max_chunks)
        cuts = sorted({1 + int(rng.random() * (n - 1)) for _ in range(k)}) \
            if n > 1 else []
        if rng.random() < 0.5:
            # cut at and around line ends
            nls = [i for i, c in enumerate(data) if c in "\r\n"]
            for i in nls:
                if rng.random() < 0.5:
                    cuts.append(i)
                if rng.random() < 0.5:
                    cuts.append(i + 1)
            cuts = sorted({c for c in cuts if 0 < c < n})
    out = []
    prev = 0
    for c in cuts + [n]:
        if c > prev:
            out.append(["d", data[prev:c]])
        prev = c
    return out


def sprinkle(rng, items, eintr=0.1, delay=0.1):
    """Insert harmless disturbances between deliveries."""
    out = []
    for it in items:
        if rng.random() < eintr:
            out.append(["eintr"])
        if rng.random() < delay:
            out.append(["delay", int(rng.random() * 5e6)])
        out.append(it)
    if rng.random() < eintr:
        out.append(["eintr"])
    return out
