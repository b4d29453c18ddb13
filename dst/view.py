"""Observing a mounted tree through the MountSource interface."""
import hashlib
import stat


def h(b):
    return hashlib.blake2b(b, digest_size=8).hexdigest() + f":{len(b)}"


def kind(mode):
    return {stat.S_IFDIR: "dir", stat.S_IFREG: "file", stat.S_IFLNK: "link"}.get(stat.S_IFMT(mode), oct(stat.S_IFMT(mode)))


def dump(ms, contents=True, meta=True, xattrs=True, versions=True, max_depth=12, list_modes=True):
    """{path: [kind, size, mtime, perm, link, uid, gid, content hash, xattrs, n versions]} of everything reachable.

    Directory listings, lookups and reads are cross-checked on the way; a disagreement is put into the dump."""
    out = {}
    todo = [("/", 0)]
    while todo:
        d, depth = todo.pop()
        listing = ms.list(d)
        if listing is None:
            out[d] = ["no listing"]
            continue
        names = sorted(listing)
        if list_modes:
            lm = ms.list_mode(d)
            if lm is not None and sorted(lm) != names:
                out[d + "#list_mode"] = ["differs", sorted(lm), names]
            if isinstance(lm, dict) and isinstance(listing, dict):
                bad = [n for n in names if n in lm and stat.S_IFMT(lm[n]) != stat.S_IFMT(listing[n].mode)]
                if bad:
                    out[d + "#list_mode_kind"] = [bad]
        for n in names:
            p = (d if d != "/" else "") + "/" + n
            fi = ms.lookup(p)
            if fi is None:
                out[p] = ["listed but not found"]
                continue
            k = kind(fi.mode)
            row = [k]
            if meta:
                row += [fi.size if k != "dir" else 0, round(float(fi.mtime), 3), oct(stat.S_IMODE(fi.mode)), fi.linkname, fi.uid, fi.gid]
            else:
                row += [fi.linkname if k == "link" else ""]
            if isinstance(listing, dict) and hasattr(listing[n], "mode"):
                li = listing[n]
                if kind(li.mode) != k or (k == "file" and li.size != fi.size):
                    row.append(["list/lookup differ", kind(li.mode), li.size, fi.size])
            if k == "file" and contents:
                f = ms.open(fi)
                try:
                    data = f.read()
                finally:
                    f.close()
                if len(data) != fi.size:
                    row.append(["size differs from data", fi.size, len(data)])
                row.append(h(data))
            if xattrs:
                row.append(sorted((x, (ms.get_xattr(fi, x) or b"").hex() if isinstance(ms.get_xattr(fi, x), bytes)
                                   else str(ms.get_xattr(fi, x))) for x in ms.list_xattr(fi)))
            if versions:
                row.append(ms.versions(p))
            out[p] = row
            if k == "dir" and depth < max_depth:
                todo.append((p, depth + 1))
    return out


def diff(got, want, limit=6):
    """Human-readable difference of two dumps, or ''."""
    lines = []
    for p in sorted(set(got) | set(want)):
        if got.get(p) != want.get(p):
            lines.append(f"{p}: got {got.get(p, 'MISSING')} expected {want.get(p, 'ABSENT')}")
    if not lines:
        return ""
    more = f" (+{len(lines) - limit} more)" if len(lines) > limit else ""
    return "; ".join(lines[:limit]) + more


def basic(d):
    """The part of a dump every back end must agree on: kind, size, link target, content."""
    out = {}
    for p, row in d.items():
        if len(row) < 7:
            out[p] = row
        else:
            out[p] = [row[0], row[1] if row[0] == "file" else 0, row[4] if row[0] == "link" else "",
                      *[x for x in row[7:] if isinstance(x, str) or (isinstance(x, list) and x and isinstance(x[0], str))]]
    return out


def against_tree(d, t_expected):
    """Compare a dump (meta=False, xattrs=False, versions=False) with archives.expected_view."""
    want = {}
    for p, (k, v) in t_expected.items():
        if k == "file":
            want[p] = ["file", "", h(v)]
        elif k == "link":
            want[p] = ["link", v]
        else:
            want[p] = ["dir", ""]
    return diff(d, want)
