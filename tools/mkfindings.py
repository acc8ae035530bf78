#!/usr/bin/env python3
"""known-findings.txt from the fix: commits of /repo and tools/known.txt"""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {  # subject -> (property, what failed)
 "deserializing a run container must": ("C21", "portable_deserialize_safe / deserialize_safe crashed when the allocation of a run container's runs was refused"),
 "a failed copy-on-write copy": ("C21", "copy / overwrite with copy-on-write: a refused allocation destroyed the source's container and success was reported"),
 "roaring64 create, copy and readers": ("C21", "roaring64_bitmap_create, copy, portable_deserialize_safe, frozen_view crashed when an allocation was refused"),
 "roaring64 frozen_view of a truncated": ("C09", "roaring64_bitmap_frozen_view of a truncated image walked a partial index and freed garbage"),
 "shrink_to_fit leaves containers shared": ("C11", "roaring_bitmap_shrink_to_fit reallocated copy-on-write shared containers in place while copies in other threads were reading them"),
 "art_insert must not depend": ("C21", "art_insert copied a node's prefix into an unchecked allocation (crash in roaring64_bitmap_copy when refused)"),
  "art_iterator_lower_bound beyond": ("C17", "art_iterator_lower_bound from the end of a one-key tree answered no key although a key >= the searched one exists (stale root frame)"),
 "rank_many must answer": ("C04", "roaring_bitmap_rank_many left the answers of query values beyond the last container unwritten"),
 "from_range with a large step": ("C03", "roaring_bitmap_from_range(min, 2^32, step >= 65536) never returned (32-bit loop variable wrapped)"),
 "intersect_with_range must not": ("C04", "roaring_bitmap_intersect_with_range(r, x >= 2^32, y) answered for x mod 2^32"),
 "64-bit range bounds": ("C03", "range functions taking 64-bit bounds: min == 2^32 acted as 0 and max > 2^32 was truncated (add_range, remove_range, flip, range_cardinality, contains_range)"),
 "range_uint32_array must not overwrite": ("C04", "roaring_bitmap_range_uint32_array changed the typecode of copy-on-write shared containers of a const bitmap (corruption, leak)"),
 "range_uint32_array must release": ("C21", "roaring_bitmap_range_uint32_array released a hooked allocation with free()"),
 "range_uint32_array must not write": ("C04", "roaring_bitmap_range_uint32_array wrote limit values (and read past its buffer's data) when fewer were available"),
 "remove_many must not modify": ("C10", "roaring_bitmap_remove_many dropped a shared container's reference twice"),
 "roaring64 remove_bulk must": ("C14", "roaring64_bitmap_remove_bulk used a context pointing at a container it had removed (crash, corruption)"),
 "overwrite must not keep": ("C21", "roaring_bitmap_overwrite kept freed containers when growing the destination failed (double free)"),
 "frozen serialization must look": ("C07", "roaring_bitmap_frozen_serialize / frozen_size_in_bytes misread copy-on-write shared containers (crash)"),
 "a shared container must be copied before": ("C11", "a thread dropping the last other reference freed a shared container while this thread was still cloning it"),
 "reference counting without atomics": ("C10", "with CROARING_ATOMIC_IMPL_NONE shared containers were never released (address compared with 0)"),
 "Roaring::end() must belong": ("C18", "Roaring::end() returned a static iterator bound to the first bitmap ever iterated; --end() walked (or used freed memory of) another bitmap"),
 "move_from_roaring32 must": ("C14", "roaring64_bitmap_move_from_roaring32 adopted copy-on-write shared containers (crash, corruption)"),
 "copy-assigning a Roaring to itself": ("C18", "x = x on a Roaring cleared and freed the values being copied"),
 "Roaring64Map iterators must skip": ("C19", "Roaring64Map iterators stopped at (or dereferenced begin of) an empty inner bitmap in move_equalorlarger and operator--(int)"),
 "comparing an exhausted Roaring64Map": ("C19", "comparing an exhausted Roaring64Map iterator dereferenced map.end()"),
 "Roaring64Map readers must advance": ("C19", "Roaring64Map read/readSafe/portableDeserializeFrozen advanced by the re-serialized size instead of the bytes read, desynchronising on documents written elsewhere"),
 "Roaring64Map::read must skip": ("C19", "Roaring64Map::read(native) skipped the portable size of each inner bitmap, not the native one"),
 "roaring64 contains_range must": ("C15", "roaring64_bitmap_contains_range answered true when the container holding the end of the range was missing"),
 "a drained roaring64 iterator": ("C15", "roaring64_iterator_previous after read() drained the iterator could not step back"),
 "bitset_trim of a bitset without": ("C20", "bitset_trim of a bitset without set bits asked for 0 bytes, lost the array and reported failure"),
 "bitset_shift_left of an empty": ("C20", "bitset_shift_left of an empty bitset read the word before its array"),
 "bitset_shift_right beyond": ("C20", "bitset_shift_right by the size or more left stale bits / read outside the array"),
 "add_bulk must unshare": ("C10", "roaring_bitmap_add_bulk after contains_bulk with the same context dropped a shared container's reference twice"),
}
exec(open(os.path.join(V, "tools", "findings_extra.py")).read()) if os.path.exists(os.path.join(V, "tools", "findings_extra.py")) else None
out = ["# One line per finding. 'fixed:' entries suppress nothing; 'known:' entries are genuine defects that are recorded, not repaired."]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    for k, (p, w) in MAP.items():
        if s[5:].startswith(k):
            out.append("fixed: property=%s %s %s" % (p, h, w))
            break
    else:
        print("no entry for", l)
k = os.path.join(V, "tools", "known.txt")
if os.path.exists(k):
    out += [l.rstrip() for l in open(k) if l.strip()]
open(os.path.join(V, "known-findings.txt"), "w").write("\n".join(out) + "\n")
