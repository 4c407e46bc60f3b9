"""A hash of plain data that is the same in every worker process."""
from hashlib import blake2b


def stable(x):
    return int.from_bytes(blake2b(repr(x).encode("utf-8", "backslashreplace"), digest_size=6).digest(), "big")
