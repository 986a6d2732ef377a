"""Walks through a model, as emitted by TLC (one JSON array of operations per line)."""
import json
import random


def walks(path):
    """The maximal walks, decoded."""
    lines = set()
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line:
                lines.add(json.loads(line) if line.startswith('"') else line)
    raw = [json.loads(line) for line in sorted(lines)]
    prefixes = {json.dumps(w[:-1]) for w in raw if len(w) > 1}
    return [w for w in raw if json.dumps(w) not in prefixes]


def sample(items, count, key):
    if len(items) <= count:
        return list(items)
    return random.Random(key).sample(items, count)
