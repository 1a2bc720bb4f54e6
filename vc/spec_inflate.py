"""C15: contracts of the decompressor."""
from world import *

class InflateRaw(Contract):
    """n = inflate_raw(src, src_len, dst, cap): writes only dst[0..cap), returns 0 or the bytes written"""
    def call(self, eng, st, I, vals):
        src, sl, dst, cap = vals; L = I.line
        if isinstance(dst, MaybePtr):
            eng.oblige(st, "no-null-deref/inflate_raw", z3.Not(dst.isnull), L); dst = dst.p
        if not (isinstance(src, Ptr) and isinstance(dst, Ptr)): raise Unsupported("inflate_raw arguments")
        eng.check_access(st, src, sl, "inflate-src", L); eng.check_access(st, dst, cap, "inflate-dst", L, True)
        n = fbv("inflated", 64); st.assume(z3.ULE(n, cap))
        st.mem[dst.r.id] = Cp(st.mem[dst.r.id], dst.off, cap, Base(ffun("inflated", B64, z3.BitVecSort(8)), 8), c64(0)); eng.note_write(st, dst.r)
        st.ghost['inflated'] = (dst.r, st.mem[dst.r.id], n)
        st.env[I.res] = n
