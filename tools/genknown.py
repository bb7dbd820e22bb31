#!/usr/bin/env python3
"""Writes /verif/known_findings.json: the genuine defects found, all repaired by fix: commits in /repo."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("C01", "3718f49", "Get with an index beyond the int range panicked; Unset of an absent index set it (xor) or corrupted its word"),
 ("C01", "fb0fdba", "Union and Intersect returned a bitset of size 0, so Size, Full, Ranges and encoding of the result were wrong"),
 ("C02", "d084f80", "Overlap panicked on an odd number of range bounds, which any discovery request can carry"),
 ("C03", "bfed9e4", "Deserialize panicked on fewer than 8 bytes and accepted a size that does not fit the payload, crashing later"),
 ("C03", "3081968", "Deserialize accepted set bits at or beyond the size, giving a bitset whose count exceeds its size"),
 ("C05", "7257d55", "decoding a truncated message or data packet panicked"),
 ("C04", "1a34b6c", "a discovery message with 256 or more chunk values wrapped its count byte and lost them"),
 ("C23", "11819e3", "a read error while hashing a chunk looped forever"),
 ("C08", "c8b6d63", "a crash while the index or a progress file was written left it torn and the catalogue unopenable"),
 ("C08", "27613c7", "a crash or failed write while sharing, registering or unsharing left an index entry without a progress file, after which nothing could be listed"),
 ("C07", "f33b7a0", "a catalogue reopened from a moved directory saved its index to the old place"),
 ("C07", "ca54723", "a file path that is not valid UTF-8 was mangled by a restart"),
 ("C10", "144b52d", "Contains and Rehash read the index map without its lock (data race, concurrent map access crash)"),
 ("C07", "ff365c9", "saving a chunk of, or opening, a file that had been unshared dereferenced nil and crashed the daemon"),
 ("C11", "d236958", "a chunk of the wrong length or out-of-range index was written and recorded as present"),
 ("C14", "ed545aa", "no chunk could be saved until the user had created the downloads directory by hand"),
 ("C09", "acf4850", "a chunk whose progress file could not be written was reported present until the next restart only"),
 ("C21", "cb4bd24", "a peer could choose any path for a download (absolute, ..), the path of another entry, or a chunk size of zero"),
 ("C20", "2e42a36", "clean removed a download in progress none of whose chunks had arrived yet"),
 ("C11", "eb1dbdf", "the file behind a chunk reader was never closed (leak), and a shortened file was served as if whole"),
 ("C12", "9893d68", "an upload answered every further ack with an end packet, could stall on one lost wake-up, and an extra ack underflowed its window"),
 ("C18", "c84e9ca", "an upload to an endpoint that asked twice mixed both streams; uploads leaked file, goroutine and table entry (C19)"),
 ("C19", "ba82994", "a download kept its socket and reader goroutine, and held the transfer lock throughout"),
 ("C13", "0e11fd4", "a download saved chunks that did not match their announced hash; unexpected packets or a full disk crashed the daemon"),
 ("C14", "8da6802", "a download asked a host for the first missing chunk whether that host had it or not, and lost a timeout each time"),
 ("C06", "9ade04b", "a host without a network address crashed on any discovery"),
 ("C15", "f882f79", "a reply at the end of a discovery blocked the daemon's receive loop for good"),
 ("C06", "5c5e5fd", "a listing request for an unknown file, or a socket that could not be opened, ended the daemon"),
 ("C17", "05a707f", "remote listings over 1024 bytes failed, and datagrams were parsed with the padding of earlier ones or matched to the wrong request"),
 ("C22", "d138250", "an IPv6 address crashed the daemon; an empty file, an odd reply or missing arguments crashed the CLI"),
 ("C14", "d3506c4", "a download without a network looped without pause, starving the daemon"),
 ("C22", "f93c836", "a relative path given to share was resolved against the daemon's directory instead of the user's"),
 ("C22", "97e8fd2", "a second daemon took the command socket away from the first and then exited"),
 ("C14", "fe974c2", "a download asked for more packets at once (1024) than a socket's receive buffer holds, and a chunk never completed on a busy host"),
 ("C14", "2ec41bf", "a download ignored a peer that got the address the downloading host had before, and never completed"),
 ("C14", "64957c1", "a host with addresses on several networks told its peers the first of them, which they may be unable to reach"),
 ("C14", "06a5ab8", "get failed for good if the first host that answers does not answer a listing request, although others would"),
 ("C02", "ff0afb9", "ranges, missing ranges and items of a bitset beyond 65536 bits wrapped around and named chunks that are not there"),
]
out = [dict(property=p, match="", scenario="", what=w, fixed=f"fixed: property={p} {c} {w}") for p, c, w in F]
json.dump(out, open(root + "/known_findings.json", "w"), indent=1)
print(len(out), "entries")
