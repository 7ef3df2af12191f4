"""Seed derivation: every random stream is named, so adding one never shifts another."""

import hashlib
import random


def derive(*parts) -> int:
    h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def stream(*parts) -> random.Random:
    return random.Random(derive(*parts))
