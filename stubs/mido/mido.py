"""Stands in for mido: a "MIDI file" is a JSON list of [type, number, velocity], read message by message."""
import json

META = ("track_name", "lyric", "key_signature", "copyright")


class Message(object):
    def __init__(self, t, n, v):
        self.type, self.is_meta, self.time = t, t in META, 0
        if t in ("note_on", "note_off"):
            self.note, self.velocity, self.channel = n, v, 0
        elif t == "key_signature":
            self.key = str(n)
        elif self.is_meta:
            self.name = self.text = str(n)
        self._s = "<%s %d>" % (t, n)

    def __str__(self):
        return self._s

    __repr__ = __str__

    def __format__(self, spec):
        return format(self._s, spec)


class MidiFile(object):
    def __init__(self, filename=None, **kw):
        with open(filename) as f:
            self.tracks = [[Message(*x) for x in json.load(f)]]
        self.filename = filename

    def __iter__(self):
        return iter(self.tracks[0])

    def play(self, meta_messages=False):
        return (m for m in self if meta_messages or not m.is_meta)
